"""C20: a serialised copy of a grid is equal and independent."""
import base64, copy, io, itertools, json, os, re, pickle, subprocess, sys
from .core import Space, Skip, Violation, require, same, ROOT
from . import grid as G, machine as M

ASSUMPTIONS = ["serialisation is by cloudpickle, the library the documentation names; plain pickle is documented not to work",
               "copies are loaded in the same process and in a fresh one"]


# ------------------------------------------------------------------ everything observable, as plain values
def where(a, objs, o):
    if o is None: return None
    if o is a: return "grid"
    for k, x in objs.items():
        if x is o: return k
    return "#" if G.edge(o) else "elsewhere"


def deep(a):
    objs = {}
    for gi, g in enumerate(a):
        objs[f"{gi}"] = g
        for ti, t in enumerate(g):
            objs[f"{gi}/{ti}"] = t
            for k, x in enumerate(t): objs[f"{gi}/{ti}/{k}"] = x
    at = {id(o): k for k, o in objs.items()}
    def ref(o):
        if o is None: return None
        if o is a: return "grid"
        return at.get(id(o)) or ("#" if G.edge(o) else "elsewhere")
    cn = lambda c: None if c is None else re.sub(r"^(Top|Bottom)_\d+$", r"\1", c.__name__)
    f = lambda v: None if v is None else float(v)
    out = [["grid", type(a).__name__, f(a.xmin) if len(a) else None, f(a.xmax) if len(a) else None, len(a), [[cn(c) for c in e] for e in a.entry_classes], [ref(g) for g in a.contains], {g.name: ref(getattr(a, g.name, None)) for g in a}]]
    for k, o in objs.items():
        n = k.count("/")
        if n == 0:
            out.append(["group", k, type(o).__name__, o.name, f(o.xmin), f(o.xmax), ref(o.within), o.id, list(o.within_path), [ref(t) for t in o.contains], list(getattr(o, "tier_names", [])), {cn(t.entry_class): ref(getattr(o, cn(t.entry_class), None)) for t in o}])
        elif n == 1:
            out.append(["tier", k, type(o).__name__, o.name, cn(o.entry_class), cn(getattr(o, "superset_class", None)), cn(getattr(o, "subset_class", None)), f(o.xmin), f(o.xmax), ref(o.within), o.id, len(o), [ref(x) for x in o.contains], list(o.labels)])
        else:
            b = ["entry", k, cn(type(o)), o.label, ref(o.prev), ref(o.fol), ref(o.intier), o.tier_index, type(o) is o.intier.entry_class]
            if hasattr(o, "subset_list"):
                b += [f(o.start), f(o.end), ref(o.super_instance), [ref(x) for x in o.subset_list], ref(o.within), [ref(x) for x in o.contains], o.id]
            else:
                b += [f(o.time), ref(o.within), o.id]
            b += [{k: v for k, v in sorted(o.__dict__.items()) if k.startswith("feat_")}]
            for p in ("level", "band", "range_interval", "turning_point", "certainty"):
                v = getattr(o, p, None) if "Levels" in cn(type(o)) or "Turning" in cn(type(o)) else None
                b.append(ref(v) if hasattr(v, "label") else [float(x) for x in v] if hasattr(v, "__len__") and not isinstance(v, str) else v)
            out.append(b)
    return json.loads(json.dumps(out))


def compare(x, y, what):
    same(len(y), len(x), what + ": number of objects")
    for u, v in zip(x, y):
        if u != v: raise Violation(f"{what}: {u!r} became {v!r}")


SERVER = r"""
import sys, json, base64, os, warnings
out = os.fdopen(os.dup(1), "w"); os.dup2(2, 1)
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import pickle
from mc import grid as G
from mc.c20 import deep
for line in sys.stdin:
    d = json.loads(line)
    try:
        a = pickle.loads(base64.b64decode(d["data"]))
        r = {"deep": deep(a)}
        G.check_grid(a, frozenset(d["facets"]), orphans=d["orphans"])
        e = d["edit"]
        if e:
            if e[0] == "interleave": a.interleave_class(name="Other", above=e[1], timing_from="below") if e[2] == "above" else a.interleave_class(name="Other", below=e[1], timing_from="above")
            elif e[0] == "shift": a.shift(0.5)
            r["edited"] = deep(a)
            G.check_grid(a, frozenset(d["facets"]), orphans=d["orphans"])
    except Exception as e:
        import traceback
        r = {"error": f"{type(e).__name__}: {e} {traceback.extract_tb(e.__traceback__)[-1]}"}
    out.write(json.dumps(r) + "\n"); out.flush()
"""
_srv = {}


def fresh(data, facets, orphans, edit=None):
    p = _srv.get(os.getpid())
    if p is None:
        src = next(x for x in sys.path if x.endswith("/src"))
        p = _srv[os.getpid()] = subprocess.Popen([sys.executable, "-c", SERVER, ROOT, src], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    p.stdin.write(json.dumps({"data": base64.b64encode(data).decode(), "facets": sorted(facets), "orphans": orphans, "edit": edit}) + "\n"); p.stdin.flush()
    l = p.stdout.readline()
    if not l:
        _srv.pop(os.getpid())
        raise Violation("loading a copy ended the process it was loaded in")
    r = json.loads(l)
    if "error" in r: raise Violation("loading a copy in a fresh process: " + r["error"])
    return r


def dump(a, how):
    import cloudpickle
    if how == "file":
        p = os.path.join(os.environ["VERIF_SCRATCH"], f"k{os.getpid()}.pickle")
        with open(p, "wb") as f: cloudpickle.dump(a, f)
        with open(p, "rb") as f: return f.read()
    return cloudpickle.dumps(a)


def load(a, ser):
    import copy
    return copy.deepcopy(a) if ser == "deepcopy" else pickle.loads(dump(a, ser))


def prepare(seed, how, ops):
    m = M.Machine(seed, how)
    for op in ops: m.apply(op)
    for g in m.a:          # user features travel with the entries
        for t in g:
            for k, x in enumerate(t):
                if k % 2 == 0: x.feat_k = f"{t.name}{k}"
    return m


def facets(m):
    f = set(G.ALL)
    if not m.tight() or not m.same_extents(): f -= {"tiling"}
    return f


def copy_of(m, ser):
    n = object.__new__(M.Machine)
    import copy
    n.__dict__.update(m.__dict__)
    n.model = copy.deepcopy(m.model); n.cls = dict(m.cls)
    n.a = load(m.a, ser)
    return n


def run_equal(case, rec):
    seed, how, ops, ser = case
    m = prepare(seed, how, ops)
    m.check(G.ALL, True)
    before = deep(m.a)
    s = G.Snap(m.a)
    data = dump(m.a, ser); rec.step()
    s.unchanged("serialising")
    compare(before, deep(m.a), "serialising")
    f, orph = facets(m), not m.tight()
    if ser == "fresh":
        r = fresh(data, f, orph); rec.step()
        compare(before, r["deep"], "loading in a fresh process")
    else:
        c = copy.deepcopy(m.a) if ser == "deepcopy" else pickle.loads(data); rec.step()
        s.unchanged("loading"); compare(before, deep(m.a), "loading")
        compare(before, deep(c), "loading")
        G.check_grid(c, frozenset(f), orphans=orph)
        for r1, r2 in zip(walk(m.a), walk(c)):
            require(r1 is not r2, f"the copy shares {r1!r} with the original")
        c2 = pickle.loads(dump(c, "mem")); rec.step()
        compare(before, deep(c2), "a copy of the copy")
    rec.state((m.canon(), ser))


def walk(a):
    yield a
    for g in a:
        yield g
        for t in g:
            yield t
            yield from t


def run_indep(case, rec):
    seed, how, ops, side, edits, ser = case
    m = prepare(seed, how, ops)
    n = copy_of(m, ser)
    before = deep(m.a)
    e, k = (n, m) if side == "copy" else (m, n)
    s = G.Snap(k.a)
    ref = None
    if side == "copy":
        ref = prepare(seed, how, ops)
    for op in edits:
        e.apply(op); rec.step()
        s.unchanged(f"{op} on the {'copy' if side == 'copy' else 'original'}")
        compare(before, deep(k.a), f"{op} on the {side}: the other grid")
        k.check(G.ALL, True)
        e.check(G.ALL, True)
        if ref is not None:
            ref.apply(op)
            compare(deep(ref.a), deep(e.a), f"{op} on the copy, against {op} on the original")
    for op in edits:       # and the other way round afterwards
        k.apply(op); rec.step()
        k.check(G.ALL, True); e.check(G.ALL, True)
    rec.state((m.canon(), side, edits))


def run_polar(case, rec):
    from . import c19
    li, L, P, op, side, ser = case
    layout = c19.LAYOUTS[li]
    p, ents = c19.build(layout, [[0, 2], [2, 4]], L, P, "int", "tg")
    before = deep(p)
    data = dump(p, "mem"); rec.step()
    if ser == "fresh":
        r = fresh(data, G.ALL - {"names", "tiling"}, False, ["shift"] if op == "shift" else None)
        compare(before, r["deep"], "loading a PoLaR grid in a fresh process")
        if op == "shift":
            p.shift(0.5); compare(deep(p), r["edited"], "shifting the loaded grid")
        return
    c = pickle.loads(data)
    compare(before, deep(c), "loading a PoLaR grid")
    c19.check(c, layout, ents, 0.0, "the copy")
    e, k = (c, p) if side == "copy" else (p, c)
    s = G.Snap(k)
    if op == "shift": e.shift(0.5)
    elif op == "cleanup": e.cleanup()
    elif op == "relabel":
        for x in walk(e):
            if hasattr(x, "label"): x.label = "zz"
    elif op == "level":
        for l in e.Levels: l.turning_point = None
        for t in e.TurningPoints: t.level = None
    rec.step()
    s.unchanged(f"{op} on the {side}")
    compare(before, deep(k), f"{op} on the {side}")
    c19.check(k, layout, ents, 0.0, f"the other grid after {op}")
    rec.state(case)


def spaces(tier):
    q = tier == "quick"
    seeds = list(M.SEEDS)
    nop = lambda s: [o for o in M.menu(s) if o[0] not in ("pickle", "reload")]
    few = lambda s: [o for o in nop(s) if not (o[0] in ("fuse_r", "fuse_l", "tier_pop") and (o[3] or o[0] == "fuse_l"))]
    def g1():
        for s in seeds:
            for h in M.HOWS:
                for ser in ("mem", "file", "fresh", "deepcopy"):
                    yield [s, h, [], ser]
        for s in seeds:
            for op in nop(s):
                for ser in ("mem", "fresh", "deepcopy"):
                    yield [s, "tg", [op], ser]
        for s in M.BIG:
            for op in [None] + few(s):
                if op and op[0] in ("fuse_r", "tier_pop") and op[3] % 5: continue
                for ser in ("mem", "fresh", "deepcopy") if op is None or op[0] in ("interleave", "pop_class", "append_group") else ("mem",):
                    yield [s, "tg", [op] if op else [], ser]
    def g3b():
        for s in M.BIG:
            for side in ("copy", "original"):
                for op in few(s): yield [s, "tg", [], side, [op], "mem"]
    def g2():
        for s in (["one", "pts"] if q else seeds):
            f = few if q else nop
            for ops in itertools.product(f(s), repeat=2):
                yield [s, "tg", list(ops), "mem"]
                if not q: yield [s, "tg", list(ops), "fresh"]
    def g3():
        for s in seeds:
            for h in (["tg"] if q else M.HOWS):
                for side in ("copy", "original"):
                    for op in nop(s):
                        yield [s, h, [], side, [op], "mem"]
                        if h == "tg": yield [s, h, [], side, [op], "deepcopy"]
    def g4():
        for s in (["one", "het", "pts"] if q else seeds):
            for side in ("copy", "original"):
                for o1 in few(s):
                    for o2 in few(s):
                        yield [s, "tg", [o1], side, [o2], "mem"]
    def g5():
        from . import c19
        for li in range(len(c19.LAYOUTS)):
            for L in ([0, 1, 2.5], [], [2]):
                for P in ([0, 2.5], [], [3]):
                    for op in ("shift", "cleanup", "relabel", "level"):
                        for side in ("copy", "original"):
                            yield [li, L, P, op, side, "mem"]
                    yield [li, L, P, "shift", "copy", "fresh"]
    return [Space("equal-1", "every seed grid built in every way, and after every operation, serialised in memory, to a file, and loaded in a fresh process", g1, run_equal),
            Space("equal-2", "after every pair of operations", g2, run_equal),
            Space("independent-1", "every operation on the copy or on the original of a fresh copy", g3, run_indep),
            Space("independent-big", "the same on " + M.BIG_NOTE, g3b, run_indep),
            Space("independent-2", "every operation, then a copy, then every operation on either side", g4, run_indep),
            Space("polar", "PoLaR grids: copies, relations, edits on either side", g5, run_polar)]
