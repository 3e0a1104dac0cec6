"""Sessions: histories of files and nested executions.  The server process is
a stand-in behind subprocess.Popen and the client's calls; everything the
session does with them is the real code."""
from lab import *
import shutil, types, socket, subprocess
from nxt import constants
os.environ[constants.NXT_DCC_ENV_VAR] = constants.STANDALONE
import nxt.stage
import nxt.session
from nxt import nxt_io, nxt_log
from nxt.session import Session
from nxt.stage import Stage
from nxt.remote import get_server_info_filepath
from nxt.remote.client import NxtClient
from nxt.constants import GRAPH_VERSION

DIR = os.path.join(WORK, "g")
FILES = ["plain", "sub", "rem", "low"]
real_popen, real_time, real_sleep = subprocess.Popen, time.time, time.sleep


class BuildFault(Exception):
    pass


class Fault(Exception):
    pass


# ------------------------------------------------------------ stand-ins
class World(object):
    def __init__(self):
        self.procs = []       # every server process there has been
        self.addr = None      # the one the address file leads to
        self.spawn = "ok"
        self.spawner = ""
        self.out = False
        self.busy = None
        self.told = False

    def up(self):
        return self.out or bool(self.addr and self.addr.alive and self.addr.wait <= 0)

    def owner(self):
        live = [p for p in self.procs if p.alive]
        if self.out:
            return "X"
        return self.addr.by if self.addr in live else (live[0].by if live else "")

    def strays(self):
        live = [p for p in self.procs if p.alive]
        return len(live) - (1 if live and not self.out else 0)


world = World()


class FakeProc(object):
    def __init__(self, by, wait):
        self.by, self.wait, self.alive, self.pid = by, wait, True, 0

    def end(self):
        self.alive = False

    def poll(self):
        return None if self.alive else 0

    def wait_(self, timeout=None):
        return 0

    def terminate(self):
        self.end()
    kill = terminate

    returncode = property(poll)

    def communicate(self, *a, **k):
        return None, None


FakeProc.wait_for = FakeProc.wait_
NEVER = 10 ** 6


class FakePopen(real_popen):
    """Servers are stand-ins, any other process is what it would be."""
    def __new__(cls, cmd, *a, **kw):
        if "nxt.remote.server" in [str(c) for c in cmd]:
            if world.spawn == "popen":
                raise BlockingIOError(11, "no more processes")
            p = FakeProc(world.spawner, {"ok": 0, "late": 3, "last": 4}.get(world.spawn, NEVER))
            world.procs.append(p)
            world.addr = p
            return p
        return real_popen(cmd, *a, **kw)


subprocess.Popen = FakePopen
time.sleep = lambda s: None


def refused():
    raise ConnectionRefusedError(111, "Connection refused")


def is_alive(self):
    if world.out:
        return True
    p = world.addr
    if p is None or not p.alive:
        refused()
    if p.wait > 0:
        p.wait -= 1
        refused()
    return True


def kill(self):
    if world.out:
        world.out = False
        return
    if not world.up():
        refused()
    world.addr.end()


def exec_in_headless(self, filepath, start, cache, params, context):
    if not world.up():
        refused()
    return remote()


NxtClient.is_alive, NxtClient.kill, NxtClient.exec_in_headless = is_alive, kill, exec_in_headless
FROZEN = [None]


class Clock(types.ModuleType):
    def __getattr__(self, k):
        return getattr(time, k)

    def time(self):
        return real_time() if FROZEN[0] is None else FROZEN[0]


nxt.stage.time = Clock("time")
hook = types.ModuleType("vhook")
sys.modules["vhook"] = hook


# --------------------------------------------------------------- the graphs
def graph(name, extra=(), refs=()):
    nodes = {"/go": {"start_point": True, "code": ["import vhook", "vhook.go(ExitGraph, ExitNode)"]}}
    for n in extra:
        nodes[n] = {"attrs": {"x": {"type": "int", "value": "1"}}}
    d = {"version": GRAPH_VERSION.VERSION_STR, "alias": name, "nodes": nodes}
    if refs:
        d["references"] = list(refs)
    with open(os.path.join(DIR, name + ".nxt"), "w") as f:
        json.dump(d, f)


def path_of(f):
    return f if f == "untitled.nxt" else os.path.join(DIR, f + ".nxt")


def name_of(p):
    return p if p == "untitled.nxt" else os.path.splitext(os.path.basename(p))[0]


def unblock():
    if world.busy:
        world.busy.close()
        world.busy = None
        os.remove(get_server_info_filepath())


def fresh():
    global world
    shutil.rmtree(DIR, ignore_errors=True)
    os.makedirs(DIR)
    for h in list(logging.getLogger("nxt").handlers):  # every session adds one
        if isinstance(h, logging.FileHandler):
            logging.getLogger("nxt").removeHandler(h)
            h.close()
    graph("plain")
    graph("sub", ["/_sub_graph"])
    graph("rem", ["/_remote_sub_graph"])
    graph("base", ["/_sub_graph"])
    graph("low", refs=["./base.nxt"])
    world = World()
    if os.path.exists(get_server_info_filepath()):
        os.remove(get_server_info_filepath())


class Play(object):
    """One history."""
    def __init__(self, ops, out):
        fresh()
        world.out = out
        self.ops = ops
        self.k = 0
        self.sessions = {"A": Session(), "B": Session()}
        self.seen = []
        self.log = []
        self.pending = []

    def look(self, o, **kw):
        d = dict(o)
        d.update(kw)
        d["srv"], d["strays"] = world.owner(), world.strays()
        d["open"] = {}
        for s, sess in self.sessions.items():
            d["open"][s] = [self.rec(st) for st in sess.loaded_files.values()]
        self.log.append(d)

    def handle(self, st):
        for k, q in enumerate(self.seen):
            if q is st:
                return k + 1
        self.seen.append(st)
        return len(self.seen)

    def rec(self, st):
        marks = sorted(p[1:] for p in st.top_layer._nodes_path_as_key if p[1:] in ("m1", "m2", "m3"))
        return dict(h=self.handle(st), path=name_of(st.filepath), name=st._name, marks=marks)

    def run(self):
        while self.k < len(self.ops):
            self.step()
        return self.log

    def step(self):
        o = self.ops[self.k]
        self.k += 1
        getattr(self, "do_" + o["op"])(o)

    # ---- executions
    def do_call(self, o):
        sess = self.sessions[o["s"]]
        entry = dict(o, ran=False, res="")
        finish = {}
        play = self

        def body():
            """Runs inside the graph; says how the graph goes on."""
            play.look(entry, ran=True)
            unblock()
            finish["ran"] = True
            if o["still"]:
                return "ok"
            while play.k < len(play.ops) and play.ops[play.k]["op"] != "finish":
                play.step()
            f = play.ops[play.k]
            play.k += 1
            finish["op"] = f
            if f["lost"]:
                world.addr = None
            world.spawner, world.spawn = o["s"], "ok"
            return f["how"]

        def go(ExitGraph, ExitNode):
            how = body()
            if how == "error":
                raise ValueError("asked for")
            if how == "exit":
                raise ExitGraph("asked for")
            if how == "interrupt":
                raise KeyboardInterrupt()

        def remote_():
            how = body()
            if how == "fault":
                raise Fault("asked for")
            p = os.path.join(DIR, "cache.nxt")
            with open(p, "w") as f:
                f.write('{"version": "%s", "nodes": {}}' % GRAPH_VERSION.VERSION_STR if how == "ok" else "")
            return p

        global remote
        keep = getattr(hook, "go", None), remote
        hook.go, remote = go, remote_
        world.spawn, world.spawner = o["spawn"], o["s"]
        if o["spawn"] == "blocked":
            world.busy = socket.socket()
            world.busy.bind(("localhost", 0))
            world.busy.listen(1)
            with open(get_server_info_filepath(), "w") as f:
                f.write("localhost\n%d" % world.busy.getsockname()[1])
        os.environ[constants.NXT_DCC_ENV_VAR] = constants.STANDALONE if o["alone"] else "maya"
        build = Stage.build_stage
        if o["pre"] == "build":
            def broken(*a, **k):
                raise BuildFault()
            Stage.build_stage = broken
        try:
            st, v = outcome(self.execute, sess, o)
        finally:
            Stage.build_stage = build
            hook.go, remote = keep
            os.environ[constants.NXT_DCC_ENV_VAR] = constants.STANDALONE
            unblock()
        if not finish:
            # the graph never ran: if it should have, what it would have
            # done is passed over
            self.look(entry, res=st)
            if not o["still"]:
                depth = 0
                while self.k < len(self.ops):
                    f = self.ops[self.k]
                    self.k += 1
                    if f["op"] == "call" and not f["still"]:
                        depth += 1
                    if f["op"] == "finish":
                        if depth == 0:
                            break
                        depth -= 1
        elif "op" in finish:
            self.look(finish["op"], res=st, ctx=o["api"] == "ctx")

    def execute(self, sess, o):
        p = path_of(o["f"])
        start = "/nowhere" if o["pre"] == "badstart" else None
        if o["api"] == "nodes":
            return sess.execute_nodes(p, ["/nowhere" if o["pre"] == "badnode" else "/go"])
        if o["api"] == "ctx":
            return sess.execute_graph(p, context="python")
        return sess.execute_graph(p, start=start)

    def do_die(self, o):
        if world.out:
            world.out = False
        for p in world.procs:
            p.end()
        self.look(o)

    def do_start(self, o):
        world.spawn, world.spawner = o["spawn"], o["s"]
        st, v = outcome(self.sessions[o["s"]]._start_rpc_server)
        self.look(o, res=st)

    def do_stop(self, o):
        st, v = outcome(self.sessions[o["s"]].shutdown_rpc_server)
        self.look(o, res=st)

    # ---- files
    def at(self, o):
        FROZEN[0] = None if o.get("tick", True) else 1000.0

    def do_new(self, o):
        self.at(o)
        st, v = outcome(self.sessions[o["s"]].new_file)
        self.look(o, res=st, name=v._name if st == "ok" else "", h=self.handle(v) if st == "ok" else 0)

    def do_load(self, o, get=False):
        self.at(o)
        s = self.sessions[o["s"]]
        st, v = outcome(s.get_stage if get else s.load_file, path_of(o["f"]))
        self.look(o, res=st, h=self.handle(v) if st == "ok" else 0)

    def do_get(self, o):
        self.do_load(o, True)

    def do_unload(self, o):
        s = self.sessions[o["s"]]
        uid = 12.5
        for k, st in s.loaded_files.items():
            if o["h"] <= len(self.seen) and st is self.seen[o["h"] - 1]:
                uid = k
        st, v = outcome(s.unload_file, uid)
        self.look(o, res=st)

    def do_mark(self, o):
        st = self.seen[o["h"] - 1] if o["h"] <= len(self.seen) else None
        r, v = outcome(lambda: st.add_node(name=o["m"], data={}, parent=None, layer=st.top_layer, fix_names=False))
        self.look(o, res=r)

    def do_save(self, o):
        s = self.sessions[o["s"]]
        to = None if o["to"] == o["f"] else path_of(o["to"])
        st, v = outcome(s.save_file, path_of(o["f"]), to)
        names = [x._name for x in s.loaded_files.values() if name_of(x.filepath) == o["to"]]
        self.look(o, res=str(v) if st == "ok" else st, name=names[0] if names else "")


def remote():
    raise Fault("unexpected")


def outcome(fn, *a):
    """Like call, for functions that may nest."""
    try:
        return "ok", fn(*a)
    except CallTimeout:
        raise
    except BaseException as e:
        if os.environ.get("VERIF_TB"):
            import traceback
            with open(os.environ["VERIF_TB"], "a") as f:
                traceback.print_exc(file=f)
        return type(e).__name__, None


def base():
    """What each way to end is without any server."""
    res = {}
    for how in ("ok", "error", "exit", "interrupt"):
        log = Play([dict(op="call", s="A", f="plain", api="graph", needs=False, alone=True, spawn="ok", pre="", still=False),
                    dict(op="finish", how=how, lost=False)], False).run()
        res[how] = log[-1].get("res", "?")
    return res


def case(scn, BASE):
    rec.begin(scn)
    p = Play(scn["ops"], scn["out"])
    st, v = call(p.run, _limit=30)
    FROZEN[0] = None
    if st != "ok":
        p.log.append(dict(op="call", s="A", f="plain", api="graph", needs=False, alone=True, spawn="ok", pre="", still=False, ran=False, res=v,
                          srv="", strays=0, open={"A": [], "B": []}))
    rec.case(p.log, out=scn["out"], files=FILES + ["base"], base=BASE)


# ------------------------------------------------------------------- random
def random_runs(r):
    n = r.randint(2, 9)
    ops, state = [], dict(up=False, died=False)
    out = r.random() < .2
    # srv: who runs the server, as the specification has it
    srv = ["X" if out else ""]
    explicit = r.random() < .3

    def calls(depth):
        for _ in range(r.randint(1, 3 if depth else 4)):
            if len(ops) > 14:
                return
            if depth and srv[0] and not state["died"] and r.random() < .08:
                ops.append(dict(op="die"))
                srv[0] = ""
                state["died"] = True
                continue
            if not depth and explicit and not state["died"] and r.random() < .3:
                s = r.choice("AB")
                if r.random() < .6:
                    sp = r.choice(["ok", "ok", "never", "late"])
                    ops.append(dict(op="start", s=s, spawn="ok" if sp == "late" else sp))
                    if not srv[0] and sp != "never":
                        srv[0] = s
                else:
                    ops.append(dict(op="stop", s=s))
                    if srv[0] == s:
                        srv[0] = ""
                continue
            f = r.choice(["plain", "sub", "sub", "rem", "low", "gone"] if r.random() < .5 else ["sub", "plain"])
            api = r.choice(["graph", "graph", "nodes", "ctx"])
            o = dict(op="call", s=r.choice("AB"), f=f, api=api, needs=f in ("sub", "rem", "low"), alone=r.random() < .85,
                     spawn=r.choice(["ok"] * 8 + ["popen", "never", "blocked"]), pre="")
            if o["spawn"] == "ok" and api != "ctx" and r.random() < .15:
                o["pre"] = r.choice(["build", "badstart" if api == "graph" else "badnode"])
            wants = api == "ctx" or o["needs"]
            starts = f != "gone" and wants and o["alone"] and not srv[0]
            still = f == "gone" or (starts and o["spawn"] != "ok") or o["pre"] or (api == "ctx" and not srv[0] and not starts)
            o["still"] = bool(still)
            ops.append(o)
            if still:
                continue
            if starts:
                srv[0] = o["s"]
            mine = srv[0]
            if depth < 4 and r.random() < .6:
                calls(depth + 1)
            hows = ["ok", "error", "fault"] if api == "ctx" else ["ok", "error", "exit", "interrupt"]
            ops.append(dict(op="finish", how=r.choice(hows), lost=bool(starts and srv[0] and r.random() < .1)))
            if starts:
                srv[0] = ""
    calls(0)
    return dict(ops=ops, out=out)


def random_files(r):
    ops = []
    opened = {"A": [], "B": []}   # [h, path]
    made = [0]
    disk = {"plain", "sub", "rem", "low", "base"}
    for _ in range(r.randint(3, 14)):
        s = r.choice("AB")
        k = r.choice(["new", "new", "load", "load", "get", "get", "unload", "mark", "mark", "save", "call"])
        f = r.choice(["plain", "sub", "copy", "copy2", "gone"])
        if k in ("new", "load"):
            o = dict(op=k, s=s, tick=r.random() < .7)
            if k == "load":
                o["f"] = f
            if k == "new" or f in disk:
                made[0] += 1
                opened[s].append([made[0], "untitled.nxt" if k == "new" else f])
        elif k in ("get", "call"):
            o = dict(op="get", s=s, f=f)
            if k == "call":
                f = o["f"] = r.choice(["plain", "sub"])
            if not any(p == f for h, p in opened[s]) and f in disk:
                made[0] += 1
                opened[s].append([made[0], f])
            if k == "call":
                o = dict(op="call", s=s, f=f, api="graph", needs=f == "sub", alone=True, spawn="ok", pre="", still=False)
                ops.append(o)
                o = dict(op="finish", how=r.choice(["ok", "error"]), lost=False)
        elif k == "unload":
            hs = [h for h, p in opened[s]] + [99]
            o = dict(op=k, s=s, h=r.choice(hs))
            opened[s] = [x for x in opened[s] if x[0] != o["h"]]
        elif k == "mark":
            if not opened[s]:
                continue
            o = dict(op=k, s=s, h=r.choice(opened[s])[0], m=r.choice(["m1", "m2", "m3"]))
        else:
            f = r.choice([p for h, p in opened[s]] + ["gone", "copy"])
            if f in ("plain", "sub") and r.random() < .5:
                pass
            to = r.choice([f, "copy", "copy2"]) if f != "untitled.nxt" else r.choice(["copy", "copy2"])
            n = sum(1 for h, p in opened[s] if p == f)
            if n > 1:
                continue
            o = dict(op=k, s=s, f=f, to=to)
            if n:
                disk.add(to)
                for x in opened[s]:
                    if x[1] == f:
                        x[1] = to
        ops.append(o)
    return dict(ops=ops, out=False)


# --------------------------------------------------- with a real server
class RealProc(object):
    def __init__(self, by, p):
        self.by, self.p, self.wait = by, p, 0

    @property
    def alive(self):
        if world.told:  # give it the time to end
            for _ in range(200):
                if self.p.poll() is not None:
                    break
                real_sleep(.05)
        return self.p.poll() is None

    def end(self):
        self.p.kill()


REAL = ["import os, json", "from nxt.remote.client import NxtClient",
        "up = False", "try:", "    up = NxtClient().is_alive()", "except Exception:", "    pass",
        "with open(%r, 'w') as f:", "    json.dump(bool(up), f)"]


def real():
    """The same histories with the servers and remote processes there are."""
    global kill
    note = os.path.join(DIR, "note")

    class Popen(real_popen):
        def __new__(cls, cmd, *a, **kw):
            if "nxt.remote.server" in [str(c) for c in cmd]:
                p = real_popen(cmd, *a, **kw)
                world.procs.append(RealProc(world.spawner, p))
                world.addr = world.procs[-1]
                world.told = False
                return p
            return real_popen(cmd, *a, **kw)
    subprocess.Popen = Popen
    time.sleep = real_sleep
    fake = is_alive, kill, exec_in_headless
    del NxtClient.is_alive, NxtClient.kill, NxtClient.exec_in_headless

    def told(self):
        world.told = True
        return self.__getattr__("kill")()
    NxtClient.kill = told
    nxt.session.RPCServerProcess.STARTUP_TIMEOUT = 60
    C = dict(op="call", s="A", needs=False, alone=True, spawn="ok", pre="", still=False)
    SUB = dict(C, f="sub", api="graph", needs=True)
    REM = dict(C, api="ctx")
    F = dict(op="finish", lost=False)
    runs = [[dict(REM, f="plain"), dict(F, how="ok"), dict(SUB, api="nodes"), dict(F, how="error")],
            [dict(REM, f="bad"), dict(F, how="error")],
            [dict(op="start", s="A", spawn="ok"), dict(SUB, s="B"), dict(F, how="ok"), dict(SUB), dict(F, how="exit"),
             dict(REM, f="plain"), dict(F, how="ok"), dict(op="stop", s="B"), dict(op="stop", s="A")],
            [dict(SUB, api="nodes"), dict(SUB), dict(F, how="interrupt"), dict(F, how="ok")]]
    BASE = dict(ok="ok", error="GraphError", exit="ExitGraph", interrupt="KeyboardInterrupt")
    for ops in runs:
        rec.begin(dict(ops=ops))
        p = Play(ops, False)
        world.told = False
        code = [l % note if "%r" in l else l for l in REAL]
        for name, extra in (("plain", []), ("bad", ["raise ValueError(1)"])):
            with open(os.path.join(DIR, name + ".nxt"), "w") as f:
                json.dump({"version": GRAPH_VERSION.VERSION_STR, "alias": name,
                           "nodes": {"/go": {"start_point": True, "code": code + extra}}}, f)

        def remote_call(o, p=p):
            if os.path.exists(note):
                os.remove(note)
            world.spawner = o["s"]
            st, v = outcome(p.execute, p.sessions[o["s"]], o)
            f = p.ops[p.k]
            p.k += 1
            ran = os.path.exists(note)
            p.look(o, ran=ran, res="" if ran else st)
            if ran:  # as it was while the graph ran
                with open(note) as fh:
                    p.log[-1]["srv"] = (world.addr.by if world.addr else "?") if json.load(fh) else ""
                p.look(f, res=st, ctx=True)

        def do_call(o, p=p):
            return remote_call(o) if o["api"] == "ctx" else Play.do_call(p, o)
        p.do_call = do_call
        st, v = call(p.run, _limit=200)
        for q in world.procs:
            try:
                q.end()
            except OSError:
                pass
        if st != "ok":
            p.log.append(dict(C, f="plain", api="graph", ran=False, res=v, srv="", strays=0, open={"A": [], "B": []}))
        rec.case(p.log, out=False, files=FILES + ["base", "bad"], base=BASE)


def main():
    if args.part == "real":
        real()
        rec.close()
        return
    BASE = base()
    for scn in scenarios():
        case(scn, BASE)
    gens = {"runs": random_runs, "files": random_files}
    for k in range(args.n):
        r = random.Random("%s/%s/%d" % (SEED, args.part, k))
        case(gens[args.part](r), BASE)
    rec.close()


main()
