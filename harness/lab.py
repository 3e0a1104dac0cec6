"""Shared by the drivers, which run under /repo's interpreter and import the
code under test: case recording, per-call time limits, outcome encoding."""
import argparse, contextlib, io, json, os, random, resource, signal, sys, time, logging

ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--current", required=True)
ap.add_argument("--work", required=True)
ap.add_argument("--scenarios")
ap.add_argument("--part", default="")
ap.add_argument("--n", type=int, default=0)
args = ap.parse_args()
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
WORK = args.work
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
logging.disable(logging.CRITICAL)
rng = random.Random("%s/%s" % (SEED, args.part))


timeouts = 0
wasted = 0.0  # seconds spent in calls that did not come to an end


class CallTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CallTimeout()


signal.signal(signal.SIGALRM, _alarm)


@contextlib.contextmanager
def limit(seconds=20):
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def call(fn, *a, **kw):
    """Outcome of one call into the code: ('ok', value) | ('err', type name).
    'Timeout' is the error of a call that did not return."""
    global timeouts, wasted
    start = time.time()
    secs = kw.pop("_limit", 20)
    try:
        with limit(min(secs, 4) if timeouts else secs):
            return "ok", fn(*a, **kw)
    except CallTimeout:
        timeouts += 1
        wasted += time.time() - start
        return "err", "Timeout"
    except RecursionError:
        wasted += time.time() - start
        return "err", "RecursionError"
    except MemoryError:
        wasted += time.time() - start
        return "err", "MemoryError"
    except Exception as e:
        if os.environ.get("VERIF_TB"):
            import traceback
            with open(os.environ["VERIF_TB"], "a") as f:
                traceback.print_exc(file=f)
        return "err", type(e).__name__


class Recorder(object):
    def __init__(self):
        self.f = open(args.out, "w")
        self.n = 0

    def begin(self, desc):
        with open(args.current, "w") as f:
            json.dump(desc, f)

    def case(self, ops, **kw):
        self.n += 1
        c = dict(id=self.n)
        c.update(kw)
        c["ops"] = ops
        self.f.write(json.dumps(c) + "\n")
        self.f.flush()
        if timeouts >= 8 or wasted > 60:
            # enough calls that did not return are on record
            self.close()
            sys.exit(0)

    def close(self):
        self.f.close()


rec = Recorder()


def scenarios():
    return json.load(open(args.scenarios)) if args.scenarios else []
