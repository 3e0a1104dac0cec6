"""Graphs run from outside: command line, sessions, remote runs and nodes of
other graphs; what they are given, how they end and what they leave."""
from lab import *
import copy, subprocess, xmlrpc.client
from nxt import constants
from nxt.constants import GRAPH_VERSION
os.environ[constants.NXT_DCC_ENV_VAR] = constants.STANDALONE
from nxt import cli, nxt_io, nxt_layer, nxt_node, nxt_path
from nxt.remote import contexts, server
from nxt.remote.client import NxtClient
from nxt.session import Session
from nxt.stage import Stage
from progs import *

DIR = os.path.join(WORK, "g")
real_popen, real_sleep = subprocess.Popen, time.sleep
CTX = ["graph_file", "cache_file", "parameters_file", "start_node", "ret"]
contexts.register_context(contexts.RemoteContext("wordy", sys.executable, contexts.PYTHON_CONTEXT.graph, args=["-W", "ignore"]))


# ------------------------------------------------------------ stand-ins
def main(argv):
    """The command line in this process: its exit status."""
    old, env = sys.argv, dict(os.environ)
    sys.argv = ["nxt"] + list(argv)
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            cli.main()
        return 0
    except SystemExit as e:
        return e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except Exception:
        if os.environ.get("VERIF_TB"):
            import traceback
            with open(os.environ["VERIF_TB"], "a") as f:
                traceback.print_exc(file=f)
        return 1
    finally:
        sys.argv = old
        os.environ.clear()
        os.environ.update(env)


class FakeProc(object):
    """The server is always up; a command line is run where it is started."""
    pid = 0

    def __init__(self, args):
        self.args, self.returncode = args, None
        k = [j for j, a in enumerate(args) if str(a).endswith("cli.py")]
        if k:
            self.returncode = main(args[k[0] + 1:])

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        return self.returncode

    def communicate(self, *a, **k):
        return None, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def terminate(self):
        self.returncode = 0
    kill = terminate


class FakePopen(real_popen):
    def __new__(cls, cmd, *a, **kw):
        if isinstance(cmd, (list, tuple)) and any(str(c).endswith("cli.py") or str(c) == "nxt.remote.server" for c in cmd):
            if "nxt.remote.server" in cmd:
                UP[0] = True
            return FakeProc(list(cmd))
        return real_popen(cmd, *a, **kw)


UP = [False]


def need():
    if not UP[0]:
        raise ConnectionRefusedError(111, "Connection refused")
    return True


def kill(self):
    need()
    UP[0] = False


def headless(self, *a):
    need()
    a, _ = xmlrpc.client.loads(xmlrpc.client.dumps(tuple(a), allow_none=True))
    env = dict(os.environ)
    try:
        return server.ServerFunctions.exec_in_headless(*a)
    except Exception as e:
        raise xmlrpc.client.Fault(1, "%s:%s" % (type(e), e))
    finally:
        os.environ.clear()
        os.environ.update(env)


def standin(on):
    UP[0] = False
    subprocess.Popen = FakePopen if on else real_popen
    time.sleep = (lambda s: None) if on else real_sleep
    for n, f in (("is_alive", lambda self: need()), ("kill", kill), ("exec_in_headless", headless)):
        if on:
            setattr(NxtClient, n, f)
        elif n in NxtClient.__dict__:
            delattr(NxtClient, n)


def tidy():
    for h in list(logging.getLogger("nxt").handlers):  # every session adds one
        if isinstance(h, logging.FileHandler):
            logging.getLogger("nxt").removeHandler(h)
            h.close()


# ------------------------------------------------------------ what is left
def attrs_of(node):
    f = []
    for a in sorted(dir(node)):
        if a.startswith("_") or a.endswith("__nxt") or a in IA.PROTECTED:
            continue
        f.append(dict(n=a, v=enc(getattr(node, a))))
    return f


def nodes_of(cache):
    return [dict(n=p, f=attrs_of(n)) for p, n in sorted(cache.nodes.items())]


def keep(cache):
    """The results as they come back from a file."""
    f = os.path.join(WORK, "kept.nxt")
    if os.path.exists(f):
        os.remove(f)
    cache.save(f)
    return nxt_layer.CacheLayer.load_from_filepath(f)


def orders(comp, paths):
    """start -> nodes it runs; "" is not among them: the trace knows the start points."""
    res = []
    for p in paths:
        if p == "/":
            continue
        st, o = call(comp.get_exec_order, p)
        if st == "ok":
            res.append(dict(p=p, nodes=o))
    return res


def tokens(r, c, pool):
    """(arguments behind -p, parameter files there are)"""
    pairs = [[x["p"] + ("." + x["a"] if x["a"] else ""), x["v"]] for x in c["params"]]
    if r.random() < .35:
        pairs += [[r.choice(pool) + "." + r.choice(ATTR), "q%d" % r.randint(0, 9)] for _ in range(r.randint(1, 3))]
    if pairs and r.random() < .3:
        pairs.append([r.choice(pairs)[0], "again%d" % r.randint(0, 9)])
    files = []
    k = r.random()
    if k < .3:
        f = os.path.join(WORK, "p%d.json" % r.randint(0, 2))
        ok = r.random() < .8
        ps = {a: (v if r.random() < .8 else r.randint(0, 99)) for a, v in pairs}
        with open(f, "w") as h:
            h.write(json.dumps(ps) if ok else r.choice(["{", "", "nope", '{"/a.x": }']))
        if r.random() < .15:
            os.remove(f)
            ok = False
        files.append(dict(n=f, ok=ok, ps=[dict(k=a, v=str(v)) for a, v in ps.items()]))
        return [f], files
    flat = [t for q in pairs for t in q]
    if k < .45 and flat:
        j = r.randrange(len(flat))
        m = r.random()
        if m < .4:
            del flat[j]
        elif m < .6:
            flat.insert(j, "extra")
        elif m < .8:
            flat[j // 2 * 2] = r.choice(["a.x", "", "x", "/a", "/a.", ".x", "/"])
        else:
            flat[j // 2 * 2] = flat[j // 2 * 2].lstrip("/")
    return flat, files


def one_start(ls):
    """At most one start point: where several are, any may be chosen."""
    seen = False
    for l in ls:
        for n in l["nodes"]:
            if n["start"] != "none":
                if seen or n["inst"]["k"] != "none" or not n["p"]:
                    n["start"] = "none"
                seen = seen or n["start"] == "true"


def finish(op, events, **kw):
    d = dict(op="end", way=op, ok=False, out="", hassaved=False, saved=[], f=[], later=[])
    d.update(kw)
    return [dict(e) for e in events] + [d]


def flags(start, toks, r):
    s = ["-s", start] if start else []
    p = (["-p"] + toks) if toks or r.random() < .2 else []
    return (p + s) if r.random() < .4 else (s + p)


def run_cli(r, top, start, toks, files, how):
    del EVENTS[:]
    if how == "legacy":
        argv = [top]
    else:
        argv = ["exec", top] + flags(start, toks, r)
        if how == "ctx":
            argv += ["-c", r.choice(["python", "wordy"])]
    try:
        with limit(30):
            ok = main(argv) == 0
    except CallTimeout:
        return finish("cli", EVENTS, out="Timeout")
    return finish("cli", EVENTS, ok=ok)


def run_api(top, start, params, how):
    del EVENTS[:]
    if how == "ctx":
        st, got = call(lambda: Session().execute_graph(top, start or None, params or None, "python"))
        ok = st == "ok"
        return finish("ctx", EVENTS, ok=ok, hassaved=ok, saved=nodes_of(got) if ok else [])
    out, rt, _ = outcome(lambda: Session().execute_graph(top, start or None, params or None))
    kw = dict(ok=out == "done", out=out)
    if rt is not None:
        st, got = call(keep, rt.cache_layer)
        kw.update(hassaved=True, saved=nodes_of(got) if st == "ok" else [dict(n="/" + got, f=[])])
    return finish("api", EVENTS, **kw)


def run_sub(r, top, start, params, own, remote):
    del EVENTS[:]
    cached = os.path.join(WORK, "sub_cache.nxt")
    if os.path.exists(cached):
        os.remove(cached)
    wants = not remote and r.random() < .5
    # the calling node: what it has is its own, its parent's or the world's
    path = r.choice(["/s", "/s", "/p/s"])
    a = {"_graph_path": {"value": top}}
    up, world = {}, {}
    for x in own:
        to = r.choice([a, a, world] if path == "/s" else [a, up, world])
        to[x["n"]] = {"value": x["v"]}
        if to is not a and r.random() < .5:  # nearer ones win
            a[x["n"]], to[x["n"]] = to[x["n"]], {"value": "further"}
    if start:
        a["_start"] = {"value": start, "type": "raw"}
    if params or r.random() < .2:
        a["_parameters"] = {"value": repr(params), "type": "dict"}
    if wants:
        a["_cache_file"] = {"value": cached}
    nodes = {path: dict(instance="/_remote_sub_graph" if remote else "/_sub_graph", start_point=True, attrs=a)}
    if path != "/s":
        nodes["/p"] = dict(attrs=up)
    if world:
        nodes["/"] = dict(attrs=world)
    d = dict(version=GRAPH_VERSION.VERSION_STR, alias="outer",
             references=["$NXT_BUILTINS/" + ("remote_contexts.nxt" if remote else "sub_graphs.nxt")], nodes=nodes)
    f = os.path.join(WORK, "outer.nxt")
    with open(f, "w") as h:
        json.dump(d, h)
    st = Stage.load_from_filepath(f)
    if remote:
        out, rt, _ = outcome(lambda: Session().execute_graph(f, path))
    else:
        out, rt, _ = outcome(lambda: st.execute_nodes([path], st.build_stage()))
    ops = []
    for again in (False, True):
        kw = dict(ok=out == "done", out=out)
        if rt is not None:
            fr = rt.cache_layer.lookup(path)
            kw.update(f=attrs_of(fr), later=[x for x in attrs_of(rt.lookup(path)) if x["n"] in [y["n"] for y in own]])
            if wants:
                s, got = call(nxt_layer.CacheLayer.load_from_filepath, cached)
                kw.update(hassaved=True, saved=nodes_of(got) if s == "ok" else [dict(n="/" + got, f=[])])
        ops += finish("remote" if remote else "sub", EVENTS, **kw)
        # once more, with the values it was given back; not with references, which are the outer graph's
        if again or remote or rt is None or out != "done" or r.random() < .5 or any("$" in x["v"] for x in kw["f"]):
            return ops
        del EVENTS[:]
        ops.append(dict(op="again"))
        out, rt, _ = outcome(lambda: st.execute_nodes([path], rt))


def prepared(ls, progs, refs):
    one_start(ls)
    made = prepare(ls, progs, refs, [], DIR)
    if made is None:
        return None
    stage, comp, paths, graph = made
    return os.path.join(DIR, "l0.nxt"), orders(comp, paths), graph, paths


def one(r, ls, progs, refs, calls):
    rec.begin([ls, progs, calls])
    made = prepared(ls, progs, refs)
    if made is None:
        return
    top, odr, graph, paths = made
    real = [p for p in paths if p != "/"]
    known = {o["p"] for o in odr}
    if set(real) - known:
        return
    ops = [graph]
    for c in calls:
        start = c["start"]
        if not start and real and r.random() < (.25 if any(n["start"] == "true" for l in ls for n in l["nodes"]) else .9):
            start = r.choice(real)
        if r.random() < .08:
            start = r.choice(["/zz", "a", "/a/zz", "/a."])
        way = r.choices(["cli", "api", "sub", "ctx", "clictx", "remote", "legacy"], [5, 4, 4, 1, .6, 1, .4])[0]
        if way in ("cli", "clictx", "legacy"):
            toks, files = tokens(r, c, real or ["/a"])
            if way == "legacy":
                toks, files, start = [], [], ""
            ops.append(dict(op="cli", start=start, args=toks, files=files, orders=odr, hide=CTX if way == "clictx" else []))
            ops += run_cli(r, top, start, toks, files, dict(clictx="ctx").get(way, way))
        else:
            ps = [(x["p"] + ("." + x["a"] if x["a"] else ""), x["v"]) for x in c["params"]]
            ps = list(dict(ps).items())
            op = dict(op="api", start=start, params=[dict(k=k, v=v) for k, v in ps], orders=odr, hide=[])
            if way in ("sub", "remote"):
                op.update(op="sub", own=[dict(n=n, v=r.choice(["o%d", "[%d]", "two words %d"]) % r.randint(10, 99))
                                         for n in ATTR + ["mine"] if r.random() < .4])
                if way == "remote":
                    op["hide"] = CTX
                ops.append(op)
                ops += run_sub(r, top, start, dict(ps), op["own"], way == "remote")
            else:
                if way == "ctx":
                    op["hide"] = CTX
                ops.append(op)
                ops += run_api(top, start, dict(ps), way)
        tidy()
    rec.case(ops)


def one_scn(s):
    """A graph of the model with the ways it is run."""
    rec.begin(s)
    made = prepared(s["layers"], s["progs"], [])
    if made is None:
        return
    top, odr, graph, paths = made
    names = {n: os.path.join(WORK, n) for n in ("p.json", "bad.json")}
    with open(names["p.json"], "w") as f:
        json.dump({"/a.x": "fx", "/a": "fy", "z.x": "fz"}, f)
    files = [dict(n=names["p.json"], ok=True, ps=[dict(k=k, v=v) for k, v in (("/a.x", "fx"), ("/a", "fy"), ("z.x", "fz"))])]
    ops = [graph]
    for c in s["calls"]:
        if c["k"] == "cli":
            toks = [names.get(t, t) for t in c["args"]]
            ops.append(dict(op="cli", start=c["start"], args=toks, files=files, orders=odr, hide=[]))
            ops += run_cli(rng, top, c["start"], toks, files, "cli")
        else:
            ps = {x["p"] + "." + x["a"]: x["v"] for x in c["sub"]}
            own = [dict(n="mine", v="omine"), dict(n="w", v="ow")]
            ops.append(dict(op="sub", start=c["start"], params=[dict(k=k, v=v) for k, v in ps.items()], orders=odr, hide=[], own=own))
            ops += run_sub(rng, top, c["start"], ps, own, False)
        tidy()
    rec.case(ops)


# ------------------------------------------------------------ any values
GOOD = ["5", "-1", "0", "1.5", "True", "False", "''", "'text'", "'a b\\nc'", "'[1]'", "u'\\u00e9'", "[]", "{}", "[1, [2, 'x']]", "[None]",
        "{'k': [1.5, True], 'l': {'m': 'n'}}", "'None'", "'5'", "'$' + '{x}'", "'${' + 'a'", "[[]]", "' '", "10 ** 12"]
BAD = ["object()", "set([1])", "(lambda: 1)", "__import__('sys')", "b'x'", "[object()]", "{'k': set()}", "__import__('vtrace').loop()", "iter([])"]
vtrace.loop = lambda: (lambda x: (x.append(x), x)[1])([])


def canon(v):
    return json.dumps(v, sort_keys=True)


def values(r):
    """Node code leaves values of any kind: those a file can hold come back."""
    names = r.sample(["a", "b", "c", "d"], r.randint(1, 3))
    paths = []
    for n in names:
        paths.append("/" + n)
        if r.random() < .4:
            paths.append("/" + n + "/k")
    nodes, want, worldattrs = {}, [], {}
    for p in paths:
        code, f = [], []
        for a in r.sample(["x", "y", "z", "aa"], r.randint(1, 4)):
            ok = r.random() < .75
            e = r.choice(GOOD if ok else BAD)
            code.append("self.%s = %s" % (a, e))
            f.append(dict(n=a, json=ok, v=canon(eval(e)) if ok else ""))
        own = {}
        if r.random() < .4:
            own["x"] = {"value": "start", "comment": "why"}
            if "x" not in [y["n"] for y in f]:
                f.append(dict(n="x", json=True, v=canon("start")))
        nodes[p] = dict(code=code, attrs=own)
        want.append(dict(n=p, f=f))
    # what a node inherits from those above it depends on what they left there
    for w in want:
        up = w["n"].rpartition("/")[0]
        if up and "x" in nodes[up]["attrs"] and "x" not in [y["n"] for y in w["f"]]:
            del nodes[w["n"]], paths[paths.index(w["n"])]
    want = [w for w in want if w["n"] in nodes]
    rec.begin(nodes)
    d = dict(version=GRAPH_VERSION.VERSION_STR, alias="v", nodes=nodes)
    f = os.path.join(WORK, "values.nxt")
    with open(f, "w") as h:
        json.dump(d, h)

    def go():
        st = Stage.load_from_filepath(f)
        rt = st.execute_nodes(paths, st.build_stage())
        if r.random() < .5:
            return keep(rt.cache_layer)
        return nxt_layer.CacheLayer.load_from_layer_data(json.loads(json.dumps(rt.cache_layer.get_save_data())))
    st, got = call(go)
    back = []
    if st == "ok":
        for p, n in sorted(got.nodes.items()):
            fs = []
            for a in sorted(dir(n)):
                if not a.startswith("_") and not a.endswith("__nxt") and a not in IA.PROTECTED:
                    fs.append(dict(n=a, v=canon(getattr(n, a))))
            back.append(dict(n=p, f=fs))
    rec.case([dict(op="kept", ok=st == "ok", nodes=want, back=back)])


# ------------------------------------------------------------ real processes
def real(r, how):
    """The command line, or a remote run, in processes of their own."""
    ls, progs, refs, calls = rand_case(r)
    made = prepared(ls, progs, refs)
    if made is None:
        return False
    top, odr, graph, paths = made
    starts = [p for p in paths if p != "/"]
    if not starts:
        return False
    start = r.choice(starts)
    trace = os.path.join(WORK, "trace")
    if os.path.exists(trace):
        os.remove(trace)
    env = dict(os.environ, VTRACE=trace)
    ops = [graph]
    c = calls[0]
    if how == "cli":
        toks, files = tokens(r, c, starts)
        ops.append(dict(op="cli", start=start, args=toks, files=files, orders=odr, hide=[]))
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "nxt.cli", "exec", top] + flags(start, toks, r), env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        kw = dict(ok=p.returncode == 0)
        way = "cli"
    else:
        ps = dict((x["p"] + "." + x["a"], x["v"]) for x in c["params"] if x["a"])
        ops.append(dict(op="api", start=start, params=[dict(k=k, v=v) for k, v in ps.items()], orders=odr, hide=CTX))
        os.environ["VTRACE"] = trace
        st, got = call(lambda: Session().execute_graph(top, start, ps or None, "python"), _limit=90)
        del os.environ["VTRACE"]
        kw = dict(ok=st == "ok", hassaved=st == "ok", saved=nodes_of(got) if st == "ok" else [])
        way = "ctx"
    events = []
    if os.path.exists(trace):
        with open(trace) as f:
            events = [json.loads(x) for x in f]
    rec.case(ops + finish(way, events, **kw))
    tidy()
    return True


if args.part.startswith("real"):
    for how in ["cli"] * args.n + ["ctx"] * (args.n // 3):
        for _ in range(20):
            if real(rng, how):
                break
else:
    standin(True)
    for s in scenarios():
        one_scn(s)
    for k in range(args.n):
        if k % 4 == 3:
            values(rng)
        else:
            one(rng, *rand_case(rng))
rec.close()
