"""C26: looking at a grid changes nothing: not the grid, not later answers; and what is handed out is the user's own."""
import contextlib, io, itertools, os, re, tempfile
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M
from .c18 import class_links

ASSUMPTIONS = ["subset_list, sequence_list, tier_list, tier_groups and contains are the live containers, not copies", "answers are compared by value; entries by class, place and values"]
OUT = (("labels",), ("starts",), ("ends",), ("times",), ("sub_starts",), ("sub_ends",), ("sub_labels",), ("tier_names",), ("entry_classes",), ("within_path",), ("return_tier",), ("return_textgrid",), ("intervals_at",), ("to_df",))
PLACE = re.compile(r"\b(Top|Bottom)_\w+")
OUT = {n for n, in OUT}


def norm(v):
    """An answer as plain values."""
    import numpy as np
    if isinstance(v, str): return PLACE.sub(r"\1", v)       # the ends of a hierarchy are numbered
    if v is None or isinstance(v, (bool, int)): return v
    if isinstance(v, (float, np.floating)): return float(v)
    if isinstance(v, np.integer): return int(v)
    if isinstance(v, type): return ("class", norm(v.__name__))
    if isinstance(v, np.ndarray): return norm(v.tolist())
    if hasattr(v, "tier_groups"): return ("grid", [norm(g) for g in v])
    if hasattr(v, "tier_list"): return ("group", v.name, list(v.tier_names))
    if hasattr(v, "sequence_list"): return ("tier", v.name, v.entry_class.__name__, G.vals(v))
    if hasattr(v, "entry_class") and hasattr(v, "label"): return ("entry", type(v).__name__, v.label, None if v.start is None else v.id, G.show(v))
    if hasattr(v, "rows") and hasattr(v, "columns"): return (list(v.columns), [tuple(map(norm, r)) for r in v.rows()])
    if hasattr(v, "tierNames"): return ("textgrid", [norm(v.getTier(n)) for n in v.tierNames])
    if hasattr(v, "entries") and hasattr(v, "name"): return ("praatio tier", v.name, [tuple(e) for e in v.entries], v.minTimestamp, v.maxTimestamp)
    if isinstance(v, (list, tuple)) or hasattr(v, "__iter__"): return [norm(x) for x in v]
    raise TypeError(f"no plain form of {v!r}")


def shown(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b): f()
    return b.getvalue()


def saved(f, suffix=".TextGrid"):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x" + suffix)
        f(p)
        with open(p, encoding="utf-8", newline="") as h: return h.read()


COMMON = {"repr": repr, "len": len, "name": lambda o: o.name, "within": lambda o: o.within, "within_index": lambda o: o.within_index, "within_path": lambda o: o.within_path, "id": lambda o: o.id,
          "contains": lambda o: o.contains, "iterate": list, "index": lambda o: [o[i] for i in range(len(o))], "back": lambda o: o[-1], "slice": lambda o: o[0:1], "xmin": lambda o: o.xmin, "xmax": lambda o: o.xmax}


def df(o, **k):
    from aligned_textgrid.outputs.to_dataframe import to_df
    return to_df(o, **k)


def at(o): return None if o.xmin is None else o.xmin + 0.3 * (o.xmax - o.xmin)


def kinds(a):
    """Everything that can be looked at: (what it is called, objects, [(observer, how)])."""
    gs = list(a); ts = [t for g in gs for t in g]; xs = [x for t in ts for x in t]
    ig, pg = [g for g in gs if not G.is_points(g)], [g for g in gs if G.is_points(g)]
    it, pt = [t for g in ig for t in g], [t for g in pg for t in g]
    iv, ps = [x for t in it for x in t], [x for t in pt for x in t]
    rest = lambda d, drop=(): [(n, f) for n, f in d.items() if n not in drop]
    inv = [("entry_classes", lambda o: o.entry_classes), ("tier_names", lambda o: o.tier_names)]
    name0 = ts[0].entry_class.__name__
    yield "grid", [a], rest(COMMON, ("within", "within_index", "name", "within_path", "id")) + inv + [("intervals_at", lambda o: o.get_intervals_at_time(at(o))), ("class by name", lambda o: o.get_class_by_name(name0)), ("no class by name", lambda o: o.get_class_by_name("Nobody")),
        ("groups", lambda o: o.tier_groups), ("by name", lambda o: [getattr(o, g.name, None) for g in gs]), ("return_textgrid", lambda o: o.return_textgrid()), ("to_df", df), ("save", lambda o: saved(o.save_textgrid)), ("has", lambda o: [g in o for g in gs])]
    yield "group", ig, rest(COMMON) + inv + [("intervals_at", lambda o: o.get_intervals_at_time(at(o))), ("structure", lambda o: shown(o.show_structure)), ("to_df", df), ("common name", lambda o: o.make_name()), ("has", lambda o: [t in o for t in ts]), ("by class", lambda o: [getattr(o, c.__name__, None) for c in o.entry_classes])]
    yield "points group", pg, rest(COMMON) + inv + [("nearest", lambda o: o.get_nearest_points_index(1.0)), ("to_df", df), ("common name", lambda o: o.make_name()), ("has", lambda o: [t in o for t in ts])]
    tier = [("labels", lambda o: o.labels), ("first", lambda o: o.first), ("last", lambda o: o.last), ("return_tier", lambda o: o.return_tier()), ("named tier", lambda o: o.return_tier("other")), ("to_df", df), ("save", lambda o: saved(o.save_as_tg)), ("sequence_list", lambda o: [str(o.sequence_list), list(o.sequence_list.starts), list(o.sequence_list.ends), list(o.sequence_list.labels)])]
    yield "tier", it, rest(COMMON) + tier + [("starts", lambda o: o.starts), ("ends", lambda o: o.ends), ("interval_at", lambda o: None if o.xmin is None else o.get_interval_at_time(at(o))), ("no interval", lambda o: o.get_interval_at_time(1e6)), ("has", lambda o: [x in o for x in iv[:6]]), ("places", lambda o: [o.index(x) for x in o]), ("classes", lambda o: [o.entry_class, o.superset_class, o.subset_class])]
    yield "point tier", pt, rest(COMMON) + tier + [("times", lambda o: o.times), ("nearest", lambda o: [o.get_nearest_point(1.0), o.get_nearest_point_index(1.0)]), ("has", lambda o: [x in o for x in ps[:6]]), ("places", lambda o: [o.index(x) for x in o])]
    entry = [("repr", repr), ("values", lambda o: [o.start, o.label, o.entry_class]), ("within", lambda o: o.within), ("within_path", lambda o: o.within_path), ("id", lambda o: o.id), ("tier_index", lambda o: o.tier_index), ("tierwise", lambda o: o.get_tierwise(1)), ("beyond", lambda o: o.get_tierwise(-50)),
             ("praatio", lambda o: tuple(o.return_praatio())), ("neighbours", lambda o: [o.fol, o.prev]), ("intier", lambda o: o.intier), ("made anew", lambda o: G.show(type(o)(o)))]
    yield "interval", iv, entry + [("len", len), ("iterate", list), ("back", lambda o: o[-1]), ("first", lambda o: o.first), ("last", lambda o: o.last), ("sub_starts", lambda o: o.sub_starts), ("sub_ends", lambda o: o.sub_ends), ("sub_labels", lambda o: o.sub_labels), ("has", lambda o: [x in o for x in iv[:6]]),
        ("duration", lambda o: o.duration), ("validate", lambda o: bool(o.validate())), ("to_df", df), ("to_df bare", lambda o: df(o, with_subset=False)), ("super", lambda o: o.super_instance), ("children", lambda o: list(o.subset_list)), ("contains", lambda o: list(o.contains)), ("classes", lambda o: [o.superset_class, o.subset_class])]
    yield "point", ps, entry + [("gaps", lambda o: [o.fol_distance, o.prev_distance]), ("distances", lambda o: [o.distance_from(x) for x in xs[:4]]), ("interval at", lambda o: [o.get_interval_at_point(t) for t in it] + [o.get_interval_index_at_time(t) for t in it])]


def answer(f, o):
    try: return f(o)
    except (Violation, AssertionError): raise
    except Exception as e: return e


def plain(v):
    return ("raised", type(v).__name__) if isinstance(v, Exception) else norm(v)


def look(a, rec, watch=None):
    """All answers; `watch` is asked after every observer has been applied to all objects of a kind."""
    out = {}
    for kind, objs, obs in kinds(a):
        for n, f in obs:
            got = [plain(answer(f, o)) for o in objs]
            if n in ("repr", "len", "iterate", "id", "within_path", "labels"):
                for g in got: require(not (isinstance(g, tuple) and g[0] == "raised"), f"{n} of a {kind} raised {g}")
            if n == "repr":
                for o, g in zip(objs, got):
                    for part in ([type(o).__name__, str(o.label)] if hasattr(o, "label") else [o.entry_class.__name__] if hasattr(o, "entry_class") else [t.entry_class.__name__ for k in ([o] if hasattr(o, "tier_list") else o) for t in k]):
                        require(part in g, f"the display of a {kind} does not mention {part!r}: {g}")
            out[kind, n] = got; rec.step(len(objs))
            if watch: watch(f"after looking at {n} of every {kind}")
    return out


def compare(x, y, what):
    same(sorted(x), sorted(y), what + ": what there is to look at")
    for k in x:
        if x[k] != y[k]: raise Violation(f"{what}: {k[1]} of {k[0]}: got {next((p for p, q in zip(x[k], y[k]) if p != q), len(x[k]))!r}, expected {next((q for p, q in zip(x[k], y[k]) if p != q), len(y[k]))!r}")


def spoil(v):
    """Change what was handed out."""
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.size and v.flags.writeable and v.dtype != object: v += 100; v[:] = v[::-1].copy()
    elif isinstance(v, list):
        for x in v:
            if isinstance(x, list): spoil(x)
        v.reverse(); v.append(None); v.pop(0)
    elif hasattr(v, "tierNames"):
        for n in list(v.tierNames)[1:]: v.removeTier(n)
    elif hasattr(v, "entries") and hasattr(v, "deleteEntry"):
        for e in list(v.entries)[:1]: v.deleteEntry(e)
    elif hasattr(v, "rows") and hasattr(v, "columns"):
        c = next(c for c in v.columns if "label" in c)
        if v.height: v[0, c] = "spoilt"


class Watch:
    def __init__(self, a):
        self.a, self.s, self.c = a, G.Snap(a), class_links(a, [])

    def __call__(self, what):
        self.s.unchanged(what)
        now = class_links(self.a, [])
        require(len(now) == len(self.c) and all(u is v or u == v and isinstance(u, str) for x, y in zip(self.c, now) for u, v in zip(x, y)), f"{what}: the class links changed")


NAMES = {"blanks": lambda i: f" t{i} \t", "same": lambda i: "same", "empty": lambda i: "", "quotes": lambda i: f'"{i}" \'é\n'}
LABS = ["", "#", " ", " a ", '"b"', "c\n", "é", "\t", "0"]


def retime(x, s, e):
    if hasattr(x, "end"): x.start, x.end = s, e
    else: x.time = s


def oddly(a, kind, off):
    """Odd names for the tiers and odd labels for the entries; or times set by hand that leave entries out of order."""
    if kind == "times":
        for g in a:
            for t in g:
                xs = list(t)
                if off == 0 and xs: retime(xs[0], 100.0, 101.0)
                elif off == 1:
                    for k, x in enumerate(xs): retime(x, 50.0 - k, 51.0 - k)
                elif off == 2 and len(xs) > 1: retime(xs[-1], 0.25, 0.5)
                elif off == 3 and xs: retime(xs[len(xs) // 2], 0.125, 200.0)
                elif off == 4 and t is g[-1]:
                    for k, x in enumerate(xs): retime(x, (k * 7 % 5) + 0.5, (k * 7 % 5) + 1.0)
                elif off == 5 and t is g[0]:
                    for x in xs: retime(x, 1.0, 2.0)
        return
    for i, t in enumerate(t for g in a for t in g):
        t.name = NAMES[kind](i)
        for k, x in enumerate(t): x.label = LABS[(i + k + off) % len(LABS)]


def run(case, rec):
    seed, how, ops, *odd = case
    m, n = M.Machine(seed, how), M.Machine(seed, how)
    for k in odd: oddly(m.a, *k), oddly(n.a, *k)
    w = Watch(m.a)
    look(m.a, rec, w)
    for op in ops:
        m.apply(op); n.apply(op); rec.step(2)
        if op is not ops[-1]: look(m.a, rec)
    if not len(m.a): raise Skip()
    w = Watch(m.a)
    first = look(m.a, rec, w)
    compare(first, look(n.a, rec), f"after {ops}, having looked before")
    compare(look(m.a, rec), first, "looking again")
    for kind, objs, obs in kinds(m.a):
        for k, f in obs:
            if k in OUT:
                for o in objs: spoil(answer(f, o)); rec.step()
                w(f"after changing the answer to {k} of every {kind}")
    compare(look(m.a, rec), first, "after changing what was handed out")
    rec.state(case)


def run_into(case, rec):
    """Groups looked at before they are put into a grid, and groups not looked at."""
    from aligned_textgrid import AlignedTextGrid, SequenceTier, TierGroup, SequencePointTier, PointsGroup, custom_classes
    names, how = case
    out = []
    for looking in (True, False):
        cs, (P, Q) = custom_classes(["A", "B"]), custom_classes(["P", "Q"], points=[0, 1])
        gs = []
        for i, (n, m) in enumerate(names):
            C = cs if i % 2 == 0 else (P, Q)
            T, Gr = (SequenceTier, TierGroup) if i % 2 == 0 else (SequencePointTier, PointsGroup)
            ts = [T([c((0.0, 1.0, "x") if i % 2 == 0 else (0.5, "x")) for _ in range(1)], c) for c in C]
            ts[0].name, ts[1].name = n, m
            if looking:
                for t in ts: watched(t, rec)
            gs.append(Gr(ts))
            if looking: watched(gs[-1], rec)
        if how == "list": a = AlignedTextGrid(gs)
        else:
            a = AlignedTextGrid(gs[:1])
            for g in gs[1:]:
                if looking: watched(a, rec)
                a.append(g)
        rec.step()
        out.append(look(a, rec))
    compare(out[0], out[1], f"groups of the tiers {names} put into a grid ({how}), having looked before")
    rec.state(case)


def watched(o, rec):
    """Look at what everything has in common."""
    for f in [COMMON[k] for k in COMMON] + [lambda o: o.make_name(), lambda o: o.tier_names, lambda o: o.entry_classes, lambda o: o.return_tier(), lambda o: o.return_textgrid(), df]:
        answer(f, o); rec.step()


def spaces(tier):
    q = tier == "quick"
    S = [Space("edits-1", "everything there is to look at, before and after every edit of every seed grid", lambda: ([s, h, ([o] if o else [])] for s in M.SEEDS for h in (["tg", "append"] if q else M.HOWS) for o in [None] + M.menu(s)), run),
         Space("edits-2", "the same for pairs of edits", lambda: ([s, "tg", [o, p]] for s in (["one"] if q else ["one", "pts", "het"]) for o in M.menu(s) for p in M.menu(s)), run)]
    S.append(Space("odd", "every seed grid with odd labels and four kinds of odd names", lambda: ([s, h, o, [k, f]] for s in M.SEEDS for h in (["tg"] if q else M.HOWS) for o in ([], [["shift", 1.5]]) for k in NAMES for f in (range(len(LABS)) if not o else [0])), run))
    S.append(Space("unordered", "every seed grid with times set by hand in six ways that leave entries out of order, before and after shifting and pickling", lambda: ([s, h, o, ["times", f]] for s in list(M.SEEDS) + (["wide", "deep", "many"] if q else list(M.BIG)) for h in ("tg", "append") for o in ([], [["shift", 1.5]], [["pickle"]]) for f in range(6)), run))
    NM = [("x", "y"), ("a - w", "a - p"), ("a - w", "b"), ("", ""), ("group_0", "group_0"), ("spk", "spk")]
    S.append(Space("into", "one to three groups, with and without common names, looked at or not before they are put into a grid", lambda: ([list(map(list, n)), h] for k in (1, 2, 3) for n in itertools.product(NM, repeat=k) for h in ("list", "append")), run_into))
    if not q: S.append(Space("edits-big", "the same for " + M.BIG_NOTE, lambda: ([s, "tg", ([o] if o else [])] for s in M.BIG for o in [None] + M.menu(s, False)), run))
    return S
