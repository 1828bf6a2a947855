from .core import Space, Skip, require, same
from . import grid as G
import itertools, os, shutil
from pathlib import Path
ASSUMPTIONS = ["intervals of a tier do not overlap and nest in the tiers above or lie outside all of their intervals (disagreeing boundaries: C04)",
               "each class list contains the top class of its hierarchy", "times are far apart compared with the library's closeness tolerance",
               "file input has no negative times (praatio cannot read them)"]
F = frozenset("list members within classes tiling extent".split())


def check_read(a, groups):
    """groups: per group the list of (class, name, entries) from top to bottom."""
    require(len(a) == len(groups), f"number of groups: got {len(a)}, expected {len(groups)}")
    for gi, (g, exp) in enumerate(zip(a, groups)):
        require(len(g) == len(exp), f"group {gi}: got {len(g)} tiers, expected {len(exp)}")
        for ti, (t, (cname, name, ents)) in enumerate(zip(g, exp)):
            w = f"group {gi} tier {ti}"
            G.same(t.entry_class.__name__, cname, w + " class")
            G.same(t.name, name, w + " name")
            got = G.vals(t)
            if G.is_point_tier(t):
                G.want(got, [tuple(e) for e in ents], w + " points")
                continue
            i = 0
            for x in got:       # the given entries in order, plus blanks
                if i < len(ents) and G.close(list(x), list(ents[i])):
                    i += 1
                else:
                    require(x[2] == "", f"{w}: {x} was not in the input {ents}; tier has {got}")
            require(i == len(ents), f"{w}: {ents[i] if i < len(ents) else None} is missing; tier has {got}")
    G.check_grid(a, F)


def wp():
    from aligned_textgrid import Word, Phone
    return [Word, Phone]


def chain(k, names=("Word", "Syl", "Phone", "Sub")):
    from aligned_textgrid import custom_classes
    return custom_classes(list(names[:k]))


FILES = ["x", "x.TextGrid ", " x.TextGrid", "two words.TextGrid", "é ʃ.TextGrid", "e\u0301.TextGrid", "-x.TextGrid", "x.textgrid", "x.json", "x.TextGrid.bak", ".hidden", "x'y\"z.TextGrid", "a;b$c.TextGrid", "100%.TextGrid", "{0}.TextGrid", "UPPER.TEXTGRID", "n" * 200]


def run_paths(case, rec):
    """Files of any name, in directories of any name."""
    name, where, fmt, arg = case
    from aligned_textgrid import AlignedTextGrid, Word, Phone
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"c05 p{os.getpid()}")
    d = base + where; os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    w, ph = [(0.0, 1.0, "a"), (1.0, 2.0, "b")], [(0.0, 0.5, "x"), (0.5, 1.0, "y"), (1.0, 2.0, "z")]
    G.mk_textgrid([("I", "w", w, 0.0, 2.0), ("I", "p", ph, 0.0, 2.0)]).save(p, fmt, includeBlankSpaces=True, reportingMode="silence")
    data = open(p, "rb").read()
    old = os.getcwd()
    try:
        if arg == "relative":
            os.chdir(d); a = AlignedTextGrid(name, [Word, Phone])
        else: a = AlignedTextGrid(textgrid_path=p, entry_classes=[Word, Phone]) if arg == "kw" else AlignedTextGrid(Path(p) if arg == "path" else p, [Word, Phone])
        rec.step()
        same([[G.show(x) for x in t] for g in a for t in g], [w, ph], f"read from {p!r}")
        require(open(p, "rb").read() == data and os.listdir(d) == [name], f"reading {p!r} changed the directory")
        # and saved beside it
        q = os.path.join(d, "2" + name[1:]); a.save_textgrid(name[:0] + "2" + name[1:] if arg == "relative" else q, fmt); rec.step()
        require(sorted(os.listdir(d)) == sorted([name, "2" + name[1:]]) and open(p, "rb").read() == data, f"saving as {q!r}: the directory has {os.listdir(d)}")
        b = AlignedTextGrid(q, [Word, Phone]); rec.step()
        same(G.obs_values(b), G.obs_values(a), f"saved as {q!r} and read back")
    finally:
        os.chdir(old); shutil.rmtree(base)
    rec.state(case)


def build(kind, gs, scale, how, order=None, layout="flat", pts=None, ptpos=None, tnames=None):
    """gs: per group its tiers top to bottom (interval lists). Returns (grid, expectation)."""
    from aligned_textgrid import AlignedTextGrid, custom_classes
    f = G.SCALES[scale]
    sets = []       # class list per group
    base = wp() if kind == "wp" else chain(int(kind[1:]))
    for g in gs:
        sets.append(base[:len(g)])
    if layout in ("distinct", "distinct-mixed"):
        sets[1] = custom_classes(["Foo", "Bar", "Baz"][:len(gs[1])])
    hi = f(max([e for g in gs for t in g for _, e in t] + [1]))
    lo = f(min([s for g in gs for t in g for s, _ in t] + [0]))
    per, exp = [], []
    for gi, (g, cs) in enumerate(zip(gs, sets)):
        o = order if order and len(order) == len(g) else list(range(len(g)))
        ex = [None] * len(g)
        tl = []
        for level in o:
            ents = G.entries(g[level], scale, k=gi + 2 * level)
            nm = f"spk{'ABCDEFGHIJKLMN'[gi]} - {cs[level].__name__.lower()}" if tnames is None else tnames[gi * len(base) + level]
            tl.append(("I", nm, ents, lo, hi, cs[level]))
            ex[level] = (cs[level].__name__, nm, ents)
        per.append(tl); exp.append(ex)
    if pts is not None:
        from aligned_textgrid import custom_classes
        pcs = custom_classes(["Pt", "Qt"][:len(pts)], points=list(range(len(pts))))
        pt = [("P", f"pts - {c.__name__.lower()}", G.points(ts, scale), lo, hi, c) for c, ts in zip(pcs, pts)]
        pe = [(c.__name__, p[1], p[2]) for c, p in zip(pcs, pt)]
        if ptpos == "mixed":        # same class list as the first group
            per[0] = pt[:1] + per[0] + pt[1:]
            exp.insert(1, pe)
        else:
            i = 0 if ptpos == "first" else len(per)
            per.insert(i, pt); exp.insert(i, pe)
    flat = [t for p in per for t in p]
    ec = [[t[5] for t in p] for p in per]
    if layout == "flat" and pts is None and len({len(g) for g in gs}) == 1:
        ec = ec[0]
    elif layout == "tuple":
        ec = tuple(tuple(e) for e in ec)
    elif layout in ("distinct", "repeat"):
        ec = [c for e in ec for c in e]
    elif layout in ("distinct-mixed", "repeat-mixed"):     # level by level instead of group by group
        idx = [(gi, ti) for ti in range(max(len(p) for p in per)) for gi, p in enumerate(per) if ti < len(p)]
        flat = [per[gi][ti] for gi, ti in idx]
        ec = [t[5] for t in flat]
    tg = G.mk_textgrid([t[:5] for t in flat])
    if how == "object":
        a = AlignedTextGrid(tg, entry_classes=ec)
    else:
        p = os.path.join(os.environ["VERIF_SCRATCH"], f"c05-{os.getpid()}.TextGrid")
        fmt, arg = how.split("/")
        tg.save(p, fmt, includeBlankSpaces=(arg != "noblanks"), reportingMode="silence")
        if arg == "kw":
            a = AlignedTextGrid(textgrid_path=p, entry_classes=ec)
        else:
            a = AlignedTextGrid(Path(p) if arg == "path" else p, entry_classes=ec)
    return a, exp


def run(case, rec):
    a, exp = build(**case)
    rec.step()
    check_read(a, exp)
    rec.state(G.obs_values(a))


def filled(t, lo, hi):
    out, pos = [], lo
    for s, e in t:
        if s > pos: out.append((pos, s))
        out.append((s, e)); pos = e
    if pos < hi: out.append((pos, hi))
    return out


def run_file(case, rec):
    """A file has blank intervals over every gap; those must nest, too."""
    if not case["how"].endswith("noblanks"):
        lo = min([0] + [s for g in case["gs"] for t in g for s, _ in t])
        hi = max(e for g in case["gs"] for t in g for _, e in t)
        for g in case["gs"]:
            ts = [filled(t, lo, hi) for t in g]
            if not all(G.nests(u, l) for u, l in itertools.combinations(ts, 2)):
                raise Skip()
    run(case, rec)


def nested(n, k):
    """All k-level nested tiers on [0, n], non-empty."""
    P = [p for p in G.partial_tilings(n) if p]
    out = [[p] for p in P]
    for _ in range(k - 1):
        out = [ts + [p] for ts in out for p in P if all(G.nests(u, p) for u in ts)]
    return out


def product(**kw):
    ks = list(kw)
    def g():
        for v in itertools.product(*[kw[k] for k in ks]):
            yield dict(zip(ks, v))
    return g


def probe_far():
    """9 ms gap at 1000 s in a textgrid object."""
    from aligned_textgrid import AlignedTextGrid, Word
    tg = G.mk_textgrid([("I", "w", [(1000.0, 1000.5, "a"), (1000.509, 1001.0, "b")], 1000.0, 1001.0)])
    t = G.quiet(AlignedTextGrid, tg, [Word])[0][0]
    require(all(x.end == y.start for x, y in zip(t, t[1:])), "a tier read with a 9 ms gap at 1000 s still has it")


PROBES = {"far-gap": ("np.allclose compares with a tolerance relative to the time", probe_far)}


def spaces(tier):
    S = []
    q = tier == "quick"
    N2, N3, N4 = nested(2, 2), nested(3, 2), nested(4, 2)
    W3 = nested(3, 3)
    few = N2 + [[[(0, 1), (2, 3)], [(0, 1)]], [[(1, 3)], [(0, 1), (1, 2)]], [[(0, 3)], [(1, 2)]]]
    scales = list(G.SCALES)
    def one(kind, gs, sc, how=("object",), **kw):
        return product(kind=[kind], gs=[[g] for g in gs], scale=sc, how=how, **kw)
    S.append(Space("two-tiers", "every pair of nested non-empty tiers with gaps on a grid of 4 units, [Word, Phone]", one("wp", N4, ["int"]), run))
    S.append(Space("scales", "the same on 3 units at 5 time scales (negative, offset, hundredths, milliseconds)", one("wp", N3, scales), run))
    S.append(Space("three-tiers", "every triple of nested tiers with gaps on 3 units", one("c3", W3, ["int"] if q else scales), run))
    E = [ts for ts in [[p, r] for p in G.partial_tilings(3) for r in G.partial_tilings(3) if G.nests(p, r)] if any(ts) and not all(ts)]
    E3 = [ts for ts in [[p, r, x] for p in G.partial_tilings(2) for r in G.partial_tilings(2) for x in G.partial_tilings(2) if G.nests(p, r) and G.nests(p, x) and G.nests(r, x)] if any(ts) and not all(ts)]
    S.append(Space("empty-tiers", "pairs on 3 units and triples on 2 units of which some tiers are empty", lambda: itertools.chain(one("wp", E, ["int"])(), one("c3", E3, ["int"])()), run))
    S.append(Space("orders", "three tiers on 3 units given in each of the 6 orders", one("c3", W3[::9] if q else W3, ["int"], order=[list(p) for p in itertools.permutations(range(3))]), run))
    S.append(Space("two-groups", "every pair of two-tier groups on 2 units, plus gap patterns on 3, in every layout of the class list",
                   product(kind=["wp"], gs=[[g, h] for g in few for h in few], scale=["int"], how=["object"],
                           layout=["flat", "nested", "tuple", "distinct", "distinct-mixed", "repeat", "repeat-mixed"]), run))
    het = [[g, [h[0]]] for g in few for h in few[::2]] + [[[h[0]], g] for g in few for h in few[::2]] + [[[t] for t in (g[0], g[1], h[0])] for g in few[::3] for h in few[::3]]
    S.append(Space("uneven", "groups with different numbers of tiers", product(kind=["wp"], gs=het, scale=["int", "frac"], how=["object"], layout=["nested"]), run))
    PT = [[[0]], [[0, 2]], [[1], [0, 3]], [[], [1]], [[0, 1, 2], [1]]]
    S.append(Space("points", "interval groups with point tiers before, after or inside the class list of the first group",
                   product(kind=["wp"], gs=[[g] for g in N3[::3]] + [[g, h] for g in few[::4] for h in few[::5]], scale=["int", "off"], how=["object"], pts=PT, ptpos=["first", "last", "mixed"], layout=["nested"]), run))
    hows = ["long_textgrid/str", "short_textgrid/path", "json/kw", "textgrid_json/str", "long_textgrid/noblanks", "short_textgrid/noblanks"]
    S.append(Space("files", "reading from files of all formats, by string, path or keyword",
                   product(kind=["wp"], gs=[[g] for g in N3[::2 if q else 1]] + [[g, h] for g in few[::4] for h in few[::4]], scale=["int", "frac"], how=hows), run_file))
    S.append(Space("files-points", "reading points and intervals from files",
                   product(kind=["wp"], gs=[[g] for g in few], scale=["int", "off"], how=hows[:4], pts=PT, ptpos=["first", "last"], layout=["nested"]), run_file))
    L2, L3, L4 = G.large(2), G.large(3), G.large(4)
    S.append(Space("large", "tiers of 9 and 18 intervals (three levels: 9, 12, 18; four: 4 to 18), complete and with each interval, its children, or both missing; also as second and third of three groups, with points, and from files",
                   lambda: itertools.chain(one("wp", L2, ["late", "frac"])(), one("c3", L3, ["long"], order=[[0, 1, 2], [2, 0, 1]])(), one("c4", L4, ["int"], order=[[0, 1, 2, 3], [3, 1, 0, 2]])(),
                                           product(kind=["wp"], gs=[[L2[0], g, L2[i % 7]] for i, g in enumerate(L2)], scale=["frac"], how=["object"], layout=["nested", "repeat-mixed"])(),
                                           product(kind=["wp"], gs=[[g[:1], L2[0], g] for g in L2[::4]], scale=["frac"], how=["object"], layout=["nested"])(),
                                           product(kind=["wp"], gs=[[g] for g in L2[::3]], scale=["late"], how=["object"], layout=["nested"], pts=[[[0, 1, 4, 7, 9, 13, 17, 18], list(range(1, 19, 2))]], ptpos=["first", "last", "mixed"])()), run))
    H2, H3 = G.huge(2), G.huge(3)
    S.append(Space("huge", "tiers of 128 and 256 intervals, complete and with intervals or children missing at seven places; three levels; as the second group; with 130 points",
                   lambda: itertools.chain(one("wp", H2, ["frac"])(), one("c3", H3[::3], ["long"], order=[[0, 1, 2], [2, 0, 1]])(),
                                           product(kind=["wp"], gs=[[few[3], g] for g in H2[::5]] + [[g, few[3]] for g in H2[1::5]], scale=["int"], how=["object"], layout=["nested"], pts=[None, [list(range(130)), [0, 7]]], ptpos=["first", "last"])()), run))
    S.append(Space("huge-files", "the same from files", product(kind=["wp"], gs=[[g] for g in H2[:8]], scale=["frac"], how=hows[:4]), run_file))
    S.append(Space("large-files", "the same from files", product(kind=["wp"], gs=[[g] for g in L2[::2 if q else 1]], scale=["frac"], how=hows), run_file))
    many = [[(few + L2[:6])[(i + k) % (len(few) + 6)] for i in range(k)] for k in range(3, 13)] + [[few[j]] * (k - 1) + [few[i]] for k in (3, 4, 6, 9) for i, j in ((0, 5), (5, 0), (7, 2))]
    S.append(Space("many-groups", "three to twelve groups, in every layout of the class list, from objects and files",
                   lambda: itertools.chain(product(kind=["wp"], gs=many, scale=["int", "frac"], how=["object"], layout=["flat", "nested", "tuple", "repeat", "repeat-mixed"])(),
                                           product(kind=["wp"], gs=[[h[:1] if i % 3 == 2 else h for i, h in enumerate(g)] for g in many], scale=["int"], how=["object"], layout=["nested"], pts=[None, [[0, 2], [1]]], ptpos=["first", "last"])(),
                                           product(kind=["c3"], gs=[[W3[(7 * i + k) % len(W3)] for i in range(k)] for k in range(3, 10)], scale=["off"], how=["object"], layout=["flat", "nested", "repeat"], order=[[0, 1, 2], [2, 0, 1]])(),
                                           product(kind=["wp"], gs=many, scale=["int"], how=["long_textgrid/noblanks", "short_textgrid/noblanks"], layout=["flat", "nested"])()), run))
    S.append(Space("one-class", "one class for one to fourteen tiers, given as a flat or nested list, from objects and files",
                   lambda: itertools.chain(product(kind=["wp"], gs=[[[few[(i + j) % len(few)][0]] for i in range(k)] for k in range(1, 15) for j in (0, 5)], scale=["int", "mix"], how=["object"], layout=["flat", "nested", "tuple", "repeat"])(),
                                           product(kind=["c3"], gs=[[[few[(i + k) % len(few)][0]] for i in range(k)] for k in range(1, 15)], scale=["frac"], how=["object", "json/kw", "long_textgrid/noblanks"], layout=["flat"])()), run))
    odd = ["a/b", "a.b", "x - y - z", "Word", "Phone", "word", "1", "0.5", "é ʃ", "q'r", "a b  c", "UPPER", "tier_1", "_", "-", "spk_words", "ŋ̊", "x" * 60, "None", "(w)", "a:b;c", "[Word]", "w\\p", "{}", "%s"]
    quoted = [' w', 'w ', '  both  ', 'say "hi"', 'tab\tbed']
    S.append(Space("names", f"every pair of {len(odd)} tier names with slashes, dots, unicode, digits, class names, from objects and files; names with outer blanks and quotes from objects; two groups",
                   lambda: itertools.chain(product(kind=["wp"], gs=[[few[-1]]], scale=["int"], how=["object", "long_textgrid/str", "short_textgrid/path"], tnames=[[x, y] for x in odd for y in odd if x != y])(),
                                           product(kind=["wp"], gs=[[few[-1]]], scale=["int"], how=["object"], order=[[0, 1], [1, 0]], layout=["flat", "nested", "tuple"], tnames=[[x, y] for x in odd[:6] + quoted for y in odd[:6] + quoted if x != y])(),
                                           product(kind=["wp"], gs=[[few[-1], few[3]]], scale=["int"], how=["object", "long_textgrid/noblanks"], layout=["flat", "nested", "repeat"], tnames=[[odd[(i + k * j) % len(odd)] for j in range(4)] for i in range(len(odd)) for k in (1, 2, 3, 7)])()), run))
    S.append(Space("paths", f"{len(FILES)} file names (blanks, accents, quotes, other or no extensions) in directories with blanks and accents, every format, absolute, relative, as path and by keyword; read, saved beside it and read back",
                   lambda: ([n, d, f, a] for n in FILES for d in ("", "/a b", "/é.d/x") for f in ("long_textgrid", "short_textgrid", "json", "textgrid_json") for a in ("str", "path", "kw", "relative")), run_paths))
    if not q:
        S.append(Space("two-tiers-5", "every pair of nested tiers on 5 units", one("wp", nested(5, 2), ["int"]), run))
        S.append(Space("three-tiers-4", "every triple of nested tiers on 4 units", one("c3", nested(4, 3), ["int"]), run))
        S.append(Space("two-groups-3", "every pair of two-tier groups on 3 units", product(kind=["wp"], gs=[[g, h] for g in N3 for h in N3], scale=["int"], how=["object"], layout=["flat"]), run))
        S.append(Space("four-tiers", "every four nested tiers on 2 units", one("c4", nested(2, 4), scales), run))
    return S
