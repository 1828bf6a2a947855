"""Bounded exhaustive exploration of the real code.

A check is a list of *spaces*.  A space is a finite set of cases that is enumerated completely: every case is
executed on the real implementation and, after every operation, compared with a reference model (the oracle of
the space).  Nothing is sampled; VERIF_SEED is recorded but there is no random choice to seed.

Cases are JSON values.  gen() yields them in a fixed order, simplest first, so the violation reported is the
earliest in that order; run(case, rec) executes one of them and raises Violation (or any exception) if the
property does not hold.  Worker k of n executes the cases with index = k mod n.
"""
import hashlib, json, os, signal, sys, time, traceback, multiprocessing as mp, itertools, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 60
NPROC = min(8, os.cpu_count() or 1)
TRIAGE = bool(os.environ.get("VERIF_TRIAGE"))   # development aid: report every kind of violation, not just the first


class Violation(Exception):
    pass


class Skip(Exception):
    """The case is outside the domain (an operation of it is not enabled)."""


class Hang(BaseException):
    pass


def require(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def same(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


class Rec:
    """Measured coverage of one worker."""
    __slots__ = ("states", "transitions", "outcomes")

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.outcomes = {}

    def step(self, n=1):
        self.transitions += n

    def state(self, key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1


class Space:
    def __init__(self, name, bounds, gen, run):
        self.name, self.bounds, self.gen, self.run = name, bounds, gen, run


def _alarm(*_):
    raise Hang()


def execute(space, case, rec):
    """Run one case. Returns None, 'skip' or a violation message."""
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            space.run(case, rec)
    except Skip:
        return "skip"
    except Violation as e:
        return "V:" + str(e)
    except Hang:
        return f"V:no answer within {CASE_LIMIT_S} s"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:])
        return f"V:unexpected {type(e).__name__}: {str(e)[:200]} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def _quiet():
    # the library and praatio print progress notes; keep them out of the report
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)


def _worker(space, k, n, q, known):
    _quiet()
    sys.setrecursionlimit(3000)
    signal.signal(signal.SIGALRM, _alarm)
    rec, cases, skipped, bad, samples, hits = Rec(), 0, 0, [], [], []
    t0 = time.time()
    try:
        for i, case in enumerate(space.gen()):
            if i % n != k:
                continue
            r = execute(space, case, rec)
            if r == "skip":
                skipped += 1
                continue
            cases += 1
            if len(samples) < 1:
                samples.append(case)
            if r:
                if json.dumps([space.name, case]) in known:
                    hits.append([space.name, case])
                    continue
                bad.append((i, case, r[2:]))
                if not TRIAGE:
                    break
        q.put((k, cases, skipped, rec.transitions, rec.states, rec.outcomes, bad, samples, hits, None))
    except BaseException:
        q.put((k, cases, skipped, rec.transitions, rec.states, rec.outcomes, bad, samples, hits, traceback.format_exc()))


def explore(space, known=frozenset()):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(space, k, NPROC, q, known), daemon=True) for k in range(NPROC)]
    for p in ps:
        p.start()
    res = []
    while len(res) < len(ps):
        try:
            res.append(q.get(timeout=1))
        except Exception:
            dead = [p for p in ps if p.exitcode not in (None, 0)]
            if dead and len(res) < len(ps):
                # a worker died without reporting (killed)
                time.sleep(1)
                if q.empty():
                    raise RuntimeError(f"worker died: exit codes {[p.exitcode for p in ps]}")
    for p in ps:
        p.join()
    res.sort(key=lambda r: r[0])
    err = [r[9] for r in res if r[9]]
    if err:
        raise RuntimeError("harness error in " + space.name + "\n" + err[0])
    out = {"cases": sum(r[1] for r in res), "skipped": sum(r[2] for r in res),
           "transitions": sum(r[3] for r in res), "states": set().union(*[r[4] for r in res]),
           "outcomes": {}, "violations": sorted([v for r in res for v in r[6]], key=lambda v: v[0]),
           "samples": [s for r in res for s in r[7]][:3], "known_hits": [h for r in res for h in r[8]]}
    for r in res:
        for k, v in r[5].items():
            out["outcomes"][k] = out["outcomes"].get(k, 0) + v
    return out
