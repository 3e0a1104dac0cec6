"""Orchestration shared by every check: scratch space, drivers over the real
code, TLC runs, verdicts, evidence.  Runs under the system python3."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")


class MachineryError(Exception):
    pass


def known_findings():
    """KNOWN-FINDINGS lines: 'known: property=<id> key=<key> | <what fails>'."""
    res = []
    path = os.path.join(VERIF, "KNOWN-FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) \| (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop.lower())
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.undemanding = 0     # cases whose detail the model leaves open
        self.samples = []
        self.fails = []          # dicts: clauses, case, source, ...
        self.parts = {}          # name -> measured numbers
        self.assumptions = []
        self.known_hit = {}
        rdir = os.path.join(EVID, "replay")
        for f in (os.listdir(rdir) if os.path.isdir(rdir) else []):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(rdir, f))
        self.known = {(p, k): d for p, k, d in known_findings()}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------- drivers
    def env(self):
        env = {k: v for k, v in os.environ.items()
               if not k.startswith("NXT_") and k not in ("PYTHONPATH",)}
        user = os.path.join(self.scratch, "user")
        tmp = os.path.join(self.scratch, "tmp")
        os.makedirs(user, exist_ok=True)
        os.makedirs(tmp, exist_ok=True)
        env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONUTF8="1",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONPATH=REPO + ":" + os.path.join(VERIF, "harness"),
                   NXT_USER_DIR=user, TMPDIR=tmp, HOME=user,
                   VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        return env

    def drive(self, driver, name=None, args=(), scenarios=None, timeout=None):
        """Run drivers/<driver>.py over the real code; returns list of cases.
        The driver writes one case per line and notes the case it is in, so a
        call into the code that never returns is attributed to that case."""
        name = name or driver
        timeout = timeout or (3600 if self.thorough else 400)
        out = os.path.join(self.scratch, name + ".ndjson")
        cur = os.path.join(self.scratch, name + ".current")
        log = os.path.join(self.scratch, name + ".log")
        work = os.path.join(self.scratch, "work_" + name)
        os.makedirs(work, exist_ok=True)
        cmd = [PY, "-W", "ignore", os.path.join(VERIF, "harness", "drivers", driver + ".py"),
               "--out", out, "--current", cur, "--work", work] + list(map(str, args))
        if scenarios is not None:
            sc = os.path.join(self.scratch, name + ".scenarios.json")
            with open(sc, "w") as f:
                json.dump(scenarios, f)
            cmd += ["--scenarios", sc]
        t = time.time()
        with open(log, "w") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=self.env(),
                                 cwd=work, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        cases = []
        if os.path.exists(out):
            for line in open(out):
                if line.endswith("\n"):
                    cases.append(json.loads(line))
        if rc is None or rc < 0:
            # killed by us or by a signal (out of memory): the case in flight
            # did not terminate.
            case = {}
            if os.path.exists(cur):
                case = json.load(open(cur))
            self.fail(["CallsTerminate"], dict(driver=name, case=case, rc=rc),
                      source="driver:" + name)
        elif rc != 0:
            tail = open(log).read()[-3000:]
            raise MachineryError("driver %s exited %s:\n%s" % (name, rc, tail))
        self.parts["drive:" + name] = dict(cases=len(cases), wall_s=round(time.time() - t, 2))
        return cases

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, timeout=800, workers=8, args=(), name=None,
            allow_violation=False, heap=None):
        """Run TLC; returns (stdout, stats)."""
        name = name or (cfg or module)
        tmp = os.path.join(self.scratch, "tlc_" + re.sub(r"\W", "_", name))
        os.makedirs(tmp, exist_ok=True)
        e = self.env()
        if env:
            e.update(env)
        cfgp = os.path.join(SPEC, (cfg or module) + ".cfg")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss512m"] + (["-Xmx" + heap] if heap else []) + [
               "-Djava.io.tmpdir=" + tmp, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(tmp, "meta"),
               "-noGenerateSpecTE", "-config", cfgp] + list(args) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC %s did not finish in %ss" % (name, timeout))
        finally:
            shutil.rmtree(os.path.join(tmp, "meta"), ignore_errors=True)
        out = p.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        stats = dict(generated=gen, distinct=dist, wall_s=round(time.time() - t, 2), rc=p.returncode)
        self.parts["tlc:" + name] = stats
        self.states += dist
        self.transitions += gen
        if p.returncode != 0 and not (allow_violation and p.returncode in (12, 13)):
            raise MachineryError("TLC %s exited %s:\n%s" % (name, p.returncode, out[-4000:]))
        return out, stats

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of the model's own invariants.  The model is ours:
        a violation here is an error in the machinery, never a verdict."""
        return self.tlc(module, cfg, **kw)

    @staticmethod
    def printed(out, tag):
        """Values printed by PrintT("@@TAG" \\o ToJson(..))."""
        res = []
        pre = '"@@' + tag
        for line in out.splitlines():
            if line.startswith(pre):
                s = line[len(pre):-1]
                s = s.replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(s))
        return res

    def validate(self, module, cases, cfg=None, name=None, timeout=800, chunk=None, heap=None):
        """Trace validation: TLC steps every recorded case through the
        specification and names the clauses that fail."""
        if not cases:
            raise MachineryError("no cases for " + module)
        name = name or module
        out_fails = 0
        chunk = chunk or len(cases)
        for k in range(0, len(cases), chunk):
            part = cases[k:k + chunk]
            f = os.path.join(self.scratch, "%s.%d.trace.ndjson" % (name, k))
            with open(f, "w") as fh:
                for c in part:
                    fh.write(json.dumps(c) + "\n")
            out, stats = self.tlc(module, cfg, env={"TRACE": f}, timeout=timeout,
                                  name="%s.%d" % (name, k), heap=heap)
            steps = sum(len(c["ops"]) for c in part)
            bad = self.printed(out, "FAIL")
            self.undemanding += len(self.printed(out, "SKIP"))
            badcases = set()
            for b in bad:
                c = part[b["case"] - 1]
                badcases.add(b["case"])
                self.fail(sorted(b["clauses"]),
                          dict(module=module, case=c, at=b["line"], op=c["ops"][b["line"] - 1],
                               info=b.get("info")), source=name)
                out_fails += 1
            if not bad and stats["distinct"] != steps + len(part):
                raise MachineryError("%s: TLC visited %d states, expected %d: trace not fully consumed\n%s"
                                     % (name, stats["distinct"], steps + len(part), out[-2000:]))
            self.traces += len(part) - len(badcases)
            self.events += steps
            if os.environ.get("VERIF_KEEP") is None:
                os.unlink(f)
        if len(self.samples) < 6:
            s = json.dumps(cases[min(len(cases) - 1, 3)])
            self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
        return out_fails

    # ------------------------------------------------------------ verdicts
    def fail(self, clauses, detail, source):
        self.fails.append(dict(clauses=clauses, source=source, detail=detail,
                               key=self.key_of(clauses, detail)))

    @staticmethod
    def key_of(clauses, detail):
        op = detail.get("op") or {}
        case = detail.get("case")
        case = case if isinstance(case, dict) else {}
        k = op.get("key") or case.get("key")
        if k:
            return k
        blob = json.dumps([clauses, case.get("id")], sort_keys=True)
        return hashlib.sha1(blob.encode()).hexdigest()[:10]

    def finish(self, **extra):
        os.makedirs(EVID, exist_ok=True)
        new = []
        for f in self.fails:
            if (self.prop, f["key"]) in self.known:
                self.known_hit[f["key"]] = self.known[(self.prop, f["key"])]
            else:
                new.append(f)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, trace_events=self.events,
                   cases_left_open_by_the_model=self.undemanding,
                   parts=self.parts, samples=self.samples or [{"none": True}])
        cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, d in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        rc = 0
        if new:
            rdir = os.path.join(EVID, "replay")
            os.makedirs(rdir, exist_ok=True)
            for i, f in enumerate(new[:5]):
                path = os.path.join(rdir, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as fh:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, **f), fh, indent=1)
                print("# clauses %s at %s" % (",".join(f["clauses"]), f["source"]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("# %d violations in all" % len(new))
            rc = 1
        else:
            print("ok %s: %d states, %d traces, %.1fs" % (self.prop, self.states, self.traces,
                                                        time.time() - self.t0))
        self.cleanup()
        return rc

    def cleanup(self):
        if os.environ.get("VERIF_KEEP") is None:
            shutil.rmtree(self.scratch, ignore_errors=True)
