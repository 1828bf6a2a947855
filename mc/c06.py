"""C06: write out, read back, compare."""
from .core import Space, Skip, require, same, Violation
from . import grid as G, machine as M, c05
import itertools, os
ASSUMPTIONS = ["labels have no blanks around them, times are not negative (the file formats of praatio keep neither)",
               "points lie within the extent of the intervals (a file has one extent; blanks are added to reach it)"]
FMTS = ["long_textgrid", "short_textgrid", "json", "textgrid_json"]
F = frozenset("list members classes".split())


def scratch(ext="TextGrid"):
    return os.path.join(os.environ["VERIF_SCRATCH"], f"c06-{os.getpid()}.{ext}")


def expected_names(names, got, what):
    """The first tier of a name keeps it; repeated names are made unique."""
    require(len(got) == len(names), f"{what}: {len(got)} tiers, expected {len(names)}")
    require(len(set(got)) == len(got), f"{what}: tier names are not unique: {got}")
    for i, n in enumerate(names):
        if n not in names[:i]:
            same(got[i], n, f"{what}: name of tier {i} of {names}")
        else:
            require(got[i].startswith(n), f"{what}: repeated name {n} became {got[i]}")


def praatio_keeps(a, fmt):
    """Whether praatio itself reads back what it writes (some labels confuse its parsers)."""
    from praatio.textgrid import openTextgrid
    ts = [(G.is_point_tier(t), f"t{i}", G.vals(t)) for i, t in enumerate(t for g in a for t in g)]
    hi = max(e[-2] for p, _, v in ts for e in v); lo = min(e[0] for p, _, v in ts for e in v)
    tg = G.mk_textgrid([("P" if p else "I", n, v, lo, hi) for p, n, v in ts])
    try:
        tg.save(scratch("ref"), fmt, True)
        back = openTextgrid(scratch("ref"), includeEmptyIntervals=True)
        return all([tuple(e) for e in x.entries] == [tuple(e) for e in y.entries] for x, y in zip(back.tiers, tg.tiers))
    except Exception:
        return False


def check_format(path, fmt):
    """The file is in the format that was asked for."""
    import json
    with open(path, encoding="utf-8") as h: txt = h.read()
    if fmt in ("json", "textgrid_json"):
        try: d = json.loads(txt)
        except ValueError: raise Violation(f"saved as {fmt}: the file is not json: {txt[:60]!r}")
        require(isinstance(d, dict) and ("xmin" in d) == (fmt == "textgrid_json"), f"saved as {fmt}: the file has the keys {sorted(d)}")
    else:
        line = next((l.strip() for l in txt.splitlines()[2:] if l.strip()), "")
        require(("=" in line) == (fmt == "long_textgrid"), f"saved as {fmt}: the third line is {line!r}")


def roundtrip(a, ecs, fmt, rec, group_names=True):
    from aligned_textgrid import AlignedTextGrid
    from praatio.textgrid import openTextgrid
    before = G.obs_grid(a)
    snap = G.Snap(a)
    flat = [t for g in a for t in g]
    names = [t.name for t in flat]
    if fmt == "object":
        tg = a.return_textgrid()
        b_in = tg
    else:
        b_in = scratch()
        a.save_textgrid(b_in) if fmt == "long_textgrid" else a.save_textgrid(b_in, fmt)
        tg = openTextgrid(b_in, includeEmptyIntervals=True, duplicateNamesMode="error")
        check_format(b_in, fmt)
    rec.step()
    snap.unchanged(f"saving as {fmt}")
    expected_names(names, list(tg.tierNames), f"saved as {fmt}")
    for t, p in zip(flat, tg.tiers):
        same(type(p).__name__, "PointTier" if G.is_point_tier(t) else "IntervalTier", f"saved as {fmt}: kind of {t.name}")
        G.want([tuple(e) for e in p.entries], G.vals(t), f"saved as {fmt}: entries of {t.name}")
    for t in [t for t in flat if len(t)]:      # praatio cannot make an empty tier without its extent
        for n in ("", "other", t.name.strip() + "2"):
            p = t.return_tier(n)
            same(p.name, n, f"name of the tier {t.name!r} returned under the name {n!r}")
            G.want([tuple(e) for e in p.entries], G.vals(t), f"entries of the tier {t.name!r} returned under another name")
    snap.unchanged("returning tiers")
    b = AlignedTextGrid(b_in, entry_classes=ecs)
    rec.step()
    after = G.obs_grid(b)
    same(len(after), len(before), f"reloaded from {fmt}: groups")
    for gi, (x, y) in enumerate(zip(before, after)):
        same(y[0], x[0], f"reloaded from {fmt}: kind of group {gi}")
        for ti, (s, t) in enumerate(zip(x[2], y[2])):
            w = f"reloaded from {fmt}: group {gi} tier {ti}"
            same(t[0], s[0], w + " class")
            G.want(t[2], s[2], w + " entries")
            same(t[3], s[3], w + " supersets")
        same(len(y[2]), len(x[2]), f"reloaded from {fmt}: tiers of group {gi}")
    expected_names(names, [t.name for g in b for t in g], f"reloaded from {fmt}")
    if group_names:
        same([g.name for g in b], [g.name for g in a], f"reloaded from {fmt}: group names")
    G.check_grid(b, F)
    rec.state((fmt, G.obs_values(b)))


def user_classes(a):
    """Fresh classes with the hierarchy of the grid."""
    model = [{"k": "P" if G.is_points(g) else "I", "tiers": [[t.entry_class.__name__] for t in g]} for g in a]
    cls = M.class_objects(model)
    return [[cls[t[0]] for t in g["tiers"]] for g in model]


def run_read(case, rec):
    case = dict(case); fmt = case.pop("fmt")
    a, exp = c05.build(how="object", **case)
    if case["scale"] == "neg" and fmt != "object":
        raise Skip()
    iv = [g for g in a if not G.is_points(g)]
    if fmt != "object":
        for g in a:
            if G.is_points(g) and g.xmin is not None and (g.xmin < iv[0].xmin or g.xmax > iv[0].xmax):
                raise Skip()
    if case.get("layout") == "distinct":
        ecs = None
        raise Skip()
    roundtrip(a, user_classes(a), fmt, rec)


def run_edit(case, rec):
    """After an edit of the grid."""
    seed, how, ops, fmt = case
    m = M.Machine(seed, how)
    for op in ops:
        m.apply(op); rec.step()
    if not m.model or not m.tight() or not m.same_extents() or any(m.extent(i)[0] < 0 for i in range(len(m.model))):
        raise Skip()
    iv = [m.extent(gi) for gi, g in enumerate(m.model) if g["k"] == "I"]
    if any(p[0] < iv[0][0] or p[1] > iv[0][1] for p in [m.extent(gi) for gi, g in enumerate(m.model) if g["k"] == "P"] if iv) and fmt != "object":
        raise Skip()
    if any(e[-1] != e[-1].strip() for g in m.model for t in g["tiers"] for e in t[2]):
        for gi, g in enumerate(m.model):
            for ti, t in enumerate(g["tiers"]):
                for k, e in enumerate(t[2]):
                    if e[-1] != e[-1].strip():
                        m.op_relabel(gi, ti, k, e[-1].strip() or "ws")
    roundtrip(m.a, user_classes(m.a), fmt, rec, False)


LABS = ["a", "", 'say "hi"', '"', "é ʃ", "a b", "0.5", "xmin = 3", "item [1]:", "<exists>", "intervals [1]", "'", "1", "IntervalTier", "\\", "a/b;c", "ŋ̊", "{LG}", "sp", "None", "null", "text", "#"]


def run_labels(case, rec):
    from aligned_textgrid import AlignedTextGrid, Word, Phone
    x, y, kind, fmt = case
    from aligned_textgrid import custom_classes
    if kind == "I":
        tg = G.mk_textgrid([("I", "w", [(0, 1, x), (1, 3, y)], 0, 3), ("I", "p", [(0, 1, y), (1, 2, x), (2, 3, "z")], 0, 3)])
        a = AlignedTextGrid(tg, entry_classes=[Word, Phone])
    else:
        P = custom_classes(["P"], points=[0])[0]
        tg = G.mk_textgrid([("I", "w", [(0, 3, "w")], 0, 3), ("P", "p", [(0, x), (1.5, y), (3, "z")], 0, 3)])
        a = AlignedTextGrid(tg, entry_classes=[[Word], [P]])
    if fmt != "object" and not praatio_keeps(a, fmt):
        raise Skip()
    roundtrip(a, user_classes(a), fmt, rec)


NAMES = ["Word", "spk - words", "Word_0", "Word_1", "", "a b", 'q"', "Word_0_1"]
ODD = ["a/b", "a.b", "1", "é ʃ", "q'r", "a b  c", "-", "_", "x" * 60, "None", "a:b;c", "[Word]", "w\\p", "{}", "%s", "Phone", "UPPER", "upper"]


def run_names(case, rec):
    from aligned_textgrid import AlignedTextGrid, Word, Phone, SequencePoint
    names, fmt = case
    ts = [[(0, 1, "a"), (1, 2, "b")], [(0, 2, "c")], [(0, 1, "d"), (1, 2, "e")], [(0, 2, "f")]][:len(names)]
    tg = G.mk_textgrid([("I", f"n{i}", t, 0, 2) for i, t in enumerate(ts)])
    a = AlignedTextGrid(tg, entry_classes=[[Word]] * len(ts))
    for g, n in zip(a, names):
        g[0].name = n
    roundtrip(a, [[Word]] * len(ts), fmt, rec, False)


def run_empty(case, rec):
    """Some of the tiers have no entries."""
    from aligned_textgrid import AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePointTier, Word, Phone, SequencePoint
    from praatio.textgrid import openTextgrid
    groups, fmt = case
    E = {"W": [(0, 1, "a"), (1, 3, "b")], "P": [(0, 1, "c"), (1, 2, "d"), (2, 3, "e")], "X": [(0, "p"), (1.5, "q")], "w": [], "p": [], "x": []}
    C = {"W": Word, "P": Phone, "X": SequencePoint}
    mk = lambda c: (SequencePointTier if c in "xX" else SequenceTier)([C[c.upper()](e) for e in E[c]], C[c.upper()])
    a = AlignedTextGrid([(PointsGroup if g in "xX" else TierGroup)([mk(c) for c in g]) for g in groups])
    flat = [t for g in a for t in g]
    snap = G.Snap(a)
    if fmt == "object":
        tg = b_in = a.return_textgrid()
    else:
        b_in = scratch()
        a.save_textgrid(b_in) if fmt == "long_textgrid" else a.save_textgrid(b_in, fmt)
        tg = openTextgrid(b_in, includeEmptyIntervals=True, duplicateNamesMode="error")
        check_format(b_in, fmt)
    rec.step()
    snap.unchanged(f"saving as {fmt}")
    expected_names([t.name for t in flat], list(tg.tierNames), f"saved as {fmt}")
    lab = lambda es: [tuple(e) for e in es if len(e) == 2 or e[2] != ""]
    for t, p in zip(flat, tg.tiers):
        same(type(p).__name__, "PointTier" if G.is_point_tier(t) else "IntervalTier", f"saved as {fmt}: kind of the tier {t.name}")
        G.want(lab(p.entries), lab(G.vals(t)), f"saved as {fmt}: labelled entries of {t.name}")
    b = AlignedTextGrid(b_in, entry_classes=[[C[c.upper()] for c in g] for g in groups])
    rec.step()
    same([[t.entry_class.__name__ for t in g] for g in b], [[t.entry_class.__name__ for t in g] for g in a], f"reloaded from {fmt}: groups and tiers")
    same([G.is_points(g) for g in b], [G.is_points(g) for g in a], f"reloaded from {fmt}: kinds of groups")
    for g, h in zip(a, b):
        for t, u in zip(g, h):
            G.want(lab(G.vals(u)), lab(G.vals(t)), f"reloaded from {fmt}: labelled entries of {t.name}")
    G.check_grid(b, F)
    rec.state((groups, fmt, G.obs_values(b)))


def run_single(case, rec):
    """One tier on its own, saved with save_as_tg or turned into a praatio tier."""
    from aligned_textgrid import SequenceTier, SequencePointTier, Word, SequencePoint
    from praatio.textgrid import openTextgrid
    kind, ivs, scale, name, how = case
    if kind == "I":
        ents = G.entries([tuple(i) for i in ivs], scale, labels=["a", 'b"c', "", "d e"])
        t = SequenceTier([Word(e) for e in ents], Word)
    else:
        ents = G.points(ivs, scale, labels=("p", "q'r", "s t"))
        t = SequencePointTier([SequencePoint(e) for e in ents], SequencePoint)
    t.name = name
    snap = G.Snap(t)
    if how == "return":
        p = t.return_tier()
        same(p.name, name, "return_tier: name")
    elif how == "renamed":
        p = t.return_tier("other")
        same(p.name, "other", "return_tier: name")
    else:
        t.save_as_tg(scratch())
        tg = openTextgrid(scratch(), includeEmptyIntervals=(how == "save"), duplicateNamesMode="error")
        same(list(tg.tierNames), [name], "save_as_tg: tier names")
        p = tg.tiers[0]
    rec.step()
    snap.unchanged("saving a tier")
    if how == "save" and kind == "I":
        f = G.SCALES[scale]
        exp, pos = [], 0.0 if how == "save" else ents[0][0]
        pos = ents[0][0]
        for e in ents:
            if e[0] > pos + 1e-12: exp.append((pos, e[0], ""))
            exp.append(e); pos = e[1]
        G.want([tuple(e) for e in p.entries], exp, "save_as_tg: intervals in the file")
        t2 = SequenceTier(p, Word)
        G.want(G.vals(t2), exp, "save_as_tg: tier read back")
        same(t2.name, name, "name of the tier read back")
    elif how == "save-noblank" and kind == "I":
        G.want([tuple(e) for e in p.entries], [e for e in ents if e[2] != ""], "save_as_tg: labelled intervals in the file")
    else:
        G.want([tuple(e) for e in p.entries], ents, f"{how}: entries")
    rec.state((kind, how, G.vals(t)))


class Faults:
    """Files opened for writing under a directory fail at the given event (open, write, flush, close); earlier events take place, a failing write is torn at `part`."""
    def __init__(self, root, at=None, part=0.0):
        self.root, self.at, self.part, self.n = root, at, part, 0

    def event(self, before=None):
        k, self.n = self.n, self.n + 1
        if k == self.at:
            if before: before()
            raise OSError(28, "No space left on device (injected)")

    def __enter__(self):
        import builtins, io
        self.real = real = builtins.open
        def opened(file, mode="r", *a, **k):
            mine = isinstance(file, (str, os.PathLike)) and os.path.abspath(os.fspath(file)).startswith(self.root) and any(c in mode for c in "wax+")
            if mine: self.event()
            f = real(file, mode, *a, **k)
            return File(f, self) if mine else f
        builtins.open = io.open = opened
        return self

    def __exit__(self, *e):
        import builtins, io
        builtins.open = io.open = self.real


class File:
    def __init__(self, f, faults): self.__dict__.update(f=f, faults=faults, done=False)
    def __getattr__(self, n): return getattr(self.f, n)
    def __enter__(self): return self
    def __exit__(self, *e): self.close()
    def write(self, s):
        self.faults.event(lambda: self.f.write(s[:int(len(s) * self.faults.part)]))
        return self.f.write(s)
    def writelines(self, ls):
        for l in ls: self.write(l)
    def close(self):
        if self.done: return
        self.__dict__["done"] = True
        self.f.close()
        self.faults.event()


def run_faults(case, rec):
    """A save that fails at some point, and the saves around it."""
    import shutil, tempfile
    seed, how, ops, what, fmt, fault, old = case
    m = M.Machine(seed, how)
    for op in ops: m.apply(op); rec.step()
    if not m.model: raise Skip()
    a = m.a
    t = {"grid": a, "tier": next((t for g in a for t in g if not G.is_point_tier(t) and len(t)), None), "points": next((t for g in a for t in g if G.is_point_tier(t) and len(t)), None)}[what]
    if t is None: raise Skip()
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        save = (lambda p: a.save_textgrid(p, fmt)) if what == "grid" else t.save_as_tg
        ref, out = os.path.join(d, "ref"), os.path.join(d, "out")
        text = lambda p: open(p, encoding="utf-8", newline="").read()
        with Faults(d) as count: save(ref)
        good = text(ref)
        require(len(good) > 0, "the file is empty")
        snap = G.Snap(a)
        if old:
            with open(out, "w") as f: f.write("previous content " * 2000)
        if fault == "nodir": err = attempt(lambda: save(os.path.join(d, "none", "out")))
        elif fault == "isdir":
            os.mkdir(os.path.join(d, "dir")); err = attempt(lambda: save(os.path.join(d, "dir")))
        elif fault == "none": err = attempt(lambda: save(out))
        else:
            if fault[0] >= count.n: raise Skip()
            with Faults(d, *fault): err = attempt(lambda: save(out))
        rec.step(2)
        snap.unchanged(f"a save that failed at {fault}")
        if fault == "none": require(err is None, f"saving raised {err!r}")
        else: require(isinstance(err, OSError), f"the file could not be written ({fault}), but saving {'raised ' + repr(err) if err else 'reported nothing'}")
        save(out); save(out); rec.step(2)
        require(text(out) == good, f"saved after a failure at {fault}: the file differs from the first one")
        snap.unchanged("saving again")
        rec.state(case); rec.outcome(str(fault))
    finally:
        shutil.rmtree(d)


def attempt(f):
    try: f()
    except Exception as e: return e


def spaces(tier):
    q = tier == "quick"
    S = []
    N2, N3 = c05.nested(2, 2), c05.nested(3, 2)
    few = N2 + [[[(0, 1), (2, 3)], [(0, 1)]], [[(1, 3)], [(0, 1), (1, 2)]], [[(0, 3)], [(1, 2)]]]
    P = c05.product
    all5 = ["object"] + FMTS
    S.append(Space("two-tiers", "every pair of nested tiers with gaps on 4 units, as object and in every format",
                   P(kind=["wp"], gs=[[g] for g in c05.nested(4, 2)], scale=["int"] if q else list(G.SCALES), fmt=all5), run_read))
    S.append(Space("scales", "every pair of nested tiers on 3 units at five time scales, as object and in every format",
                   P(kind=["wp"], gs=[[g] for g in N3], scale=list(G.SCALES), fmt=all5), run_read))
    S.append(Space("three-tiers", "every triple of nested tiers on 2 units" if q else "every triple of nested tiers on 3 units",
                   P(kind=["c3"], gs=[[g] for g in c05.nested(2 if q else 3, 3)], scale=["frac"], fmt=all5), run_read))
    S.append(Space("two-groups", "pairs of two-tier groups, equal and unequal numbers of tiers",
                   P(kind=["wp"], gs=[[g, h] for g in few[::3] for h in few[::2]] + [[g, [h[0]]] for g in few[::2] for h in few[::3]], scale=["int"], fmt=all5, layout=["nested"]), run_read))
    S.append(Space("points", "interval groups with point tiers before, after or inside the class list",
                   P(kind=["wp"], gs=[[g] for g in few], scale=["int", "off"], fmt=all5, pts=[[[0]], [[0, 2]], [[1], [0, 2]], [[], [1]]], ptpos=["first", "last", "mixed"], layout=["nested"]), run_read))
    L2, L3 = G.large(2), G.large(3)
    S.append(Space("large", "tiers of 9 and 18 intervals, complete and with intervals missing; three levels; three groups; long point tiers",
                   lambda: itertools.chain(P(kind=["wp"], gs=[[g] for g in L2[::2]], scale=["late"], fmt=all5)(), P(kind=["c3"], gs=[[g] for g in L3[::8]], scale=["frac"], fmt=all5)(),
                                           P(kind=["wp"], gs=[[L2[0], L2[9], L2[20][:1]]], scale=["long"], fmt=all5, layout=["nested"], pts=[[list(range(0, 19)), [3, 4, 11]]], ptpos=["first", "last", "mixed"])()), run_read))
    S.append(Space("huge", "tiers of 128 and 256 intervals, complete and with intervals missing at seven places; with 130 points",
                   lambda: itertools.chain(P(kind=["wp"], gs=[[g] for g in G.huge()[::3]], scale=["frac"], fmt=all5)(), P(kind=["wp"], gs=[[G.huge()[2], L2[3]]], scale=["int"], fmt=all5, layout=["nested"], pts=[[list(range(130)), [3, 4, 11]]], ptpos=["first", "last"])()), run_read))
    seeds = list(M.SEEDS) + list(M.BIG)
    def gen_edit():
        for s in seeds:
            for h in (["tg"] if q else M.HOWS):
                for o in M.menu(s):
                    if o[0] in ("reload",): continue
                    for f in all5:
                        yield [s, h, [list(o)], f]
    S.append(Space("edited", "every grid reached by one edit of a seed grid, as object and in every format", gen_edit, run_edit))
    def gen_labels():
        for f in all5:
            for k in "IP":
                for x in LABS:
                    for y in LABS:
                        if q and x != y and LABS.index(x) > 2 and LABS.index(y) > 2 and (LABS.index(x) + LABS.index(y)) % 3: continue
                        yield [x, y, k, f]
    S.append(Space("labels", f"pairs of {len(LABS)} labels with quotes, unicode, format keywords, numbers", gen_labels, run_labels))
    def gen_names():
        for f in all5:
            for n in ((2, 3) if q else (2, 3, 4)):
                for ns in itertools.product(NAMES, repeat=n):
                    if n >= 3 and len(set(ns)) == n: continue
                    yield [list(ns), f]
            for x in ODD:
                for y in ODD: yield [[x, y], f]
                yield [[x, x, x], f]
    S.append(Space("names", "every combination of tier names with repetitions", gen_names, run_names))
    def gen_empty():
        one = ["W", "w", "WP", "Wp", "wP", "wp", "X", "x"]
        for n in ((1, 2, 3) if q else (1, 2, 3, 4)):
            for gs in itertools.product(one, repeat=n):
                if "WP" in gs or "W" in gs:
                    for f in all5: yield [list(gs), f]
    S.append(Space("empty", "every sequence of up to three groups of one or two tiers some of which are empty", gen_empty, run_empty))
    def gen_single():
        for how in ("return", "renamed", "save", "save-noblank"):
            for nm in ("w", "spk - words", 'n"m'):
                for sc in ("int", "frac", "off"):
                    for ivs in [p for p in G.partial_tilings(4) if p and (len(p) < 4)]:
                        yield ["I", [list(i) for i in ivs], sc, nm, how]
                    for k in (1, 2, 3):
                        for ts in itertools.combinations(range(5), k):
                            yield ["P", list(ts), sc, nm, how]
    S.append(Space("single", "every tier with gaps on 4 units and every set of up to three points, saved alone", gen_single, run_single))
    FA = ["none", "nodir", "isdir"] + [[k, p] for k in range(6) for p in (0.0, 0.5)]
    def gen_faults():
        for s in M.SEEDS:
            for h, ops in [("tg", []), ("append", []), ("tg", [["shift", 1.5]])]:
                for what, fmts in (("grid", FMTS), ("tier", ["-"]), ("points", ["-"])):
                    for fmt in fmts:
                        for f in FA:
                            for old in (False, True): yield [s, h, ops, what, fmt, f, old]
    S.append(Space("faults", "every point at which writing the file can fail (directory missing, opening, each write torn at the start or half-way, closing), with and without a longer previous file, then saved again; every seed, format and kind of save", gen_faults, run_faults))
    return S
