"""C22: validation."""
from .core import Space, Skip, require, same, Violation
from . import grid as G
import itertools, warnings
ASSUMPTIONS = ["boundaries that differ do so by more than the library's closeness tolerance (1e-8 + 1e-5 of the time; see the known finding)", "an interval without times validates"]
SC = dict(G.SCALES, far=lambda x: 100.0 + 0.05 * x, near=lambda x: 1.7 + x)


def expect(lo, hi, kids):
    if not kids: return True
    return lo == kids[0][0] and hi == kids[-1][1] and all(a[1] == b[0] for a, b in zip(kids, kids[1:]))


def run(case, rec):
    from aligned_textgrid import custom_classes, Word, Phone
    lo, hi, kids, scale, classes = case
    f = SC[scale]
    A, B = (Word, Phone) if classes == "wp" else custom_classes(["A", "B", "C"])[:2] if classes == "c" else custom_classes(["Z", "A", "B"])[1:]
    x = A((f(lo), f(hi), "x"))
    x.set_subset_list([B((f(s), f(e), f"k{i}")) for i, (s, e) in enumerate(kids)])
    require(len(x) == len(kids), "building the interval")
    snap = G.Snap(x)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always"); warnings.simplefilter("ignore", DeprecationWarning)
        r = x.validate()
    rec.step()
    exp = expect(lo, hi, kids)
    w = f"validate {(f(lo), f(hi))} with children {[(f(s), f(e)) for s, e in kids]}"
    require(isinstance(r, bool) or str(type(r)).find("bool") >= 0, f"{w}: answered {r!r}")
    same(bool(r), exp, w)
    same(len(ws) > 0, not exp, f"{w}: warnings {[str(v.message) for v in ws]}")
    snap.unchanged(w)
    rec.state((exp, lo, hi, kids))


def run_deep(case, rec):
    """Only the interval's own children matter."""
    from aligned_textgrid import custom_classes
    kids, grand, scale = case
    f = SC[scale]
    A, B, C = custom_classes(["A", "B", "C"])
    x = A((f(0), f(3), "x"))
    ks = [B((f(s), f(e), "k")) for s, e in kids]
    for k in ks: x.append(k)
    for k, g in zip(ks, grand):
        for s, e in g: k.append(C((f(s), f(e), "g")))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always"); warnings.simplefilter("ignore", DeprecationWarning)
        r = x.validate(); n = len(ws)
        rs = [k.validate() for k in ks]
    rec.step(1 + len(ks))
    same(bool(r), expect(0, 3, kids), "validate of the upper interval")
    same(n > 0, not r, "warning")
    for k, g, v, (s, e) in zip(ks, grand, rs, kids):
        same(bool(v), expect(s, e, g), f"validate of {(s, e)} with {g}")
    rec.state((kids, grand))


def run_edited(case, rec):
    """Children whose times are set by hand after they were added: they stay in the order they have."""
    from aligned_textgrid import Word, Phone
    lo, hi, kids, scale, own = case
    f = SC[scale]
    x = Word((f(0), f(len(kids)), "x"))
    ks = [Phone((f(i), f(i + 1), f"k{i}")) for i in range(len(kids))]
    for k in ks: x.append(k)
    if own: x.start, x.end = f(lo), f(hi)
    for k, (s, e) in zip(ks, kids): k.start, k.end = f(s), f(e)
    require(G.is_seq(list(x), ks), "setting times by hand reorders the children")
    snap = G.Snap(x)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always"); warnings.simplefilter("ignore", DeprecationWarning)
        r = x.validate()
    rec.step()
    exp = expect(lo, hi, kids)
    w = f"validate {(f(lo), f(hi))} with children {[(f(s), f(e)) for s, e in kids]} in this order"
    same(bool(r), exp, w)
    same(len(ws) > 0, not exp, w + ": warnings")
    snap.unchanged(w)
    rec.state((exp, lo, hi, kids))


def run_blank(case, rec):
    from aligned_textgrid import Word, Phone
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always"); warnings.simplefilter("ignore", DeprecationWarning)
        require(Word().validate() and Phone((0, 1, "a")).validate(), "an interval without children does not validate")
    rec.step(2)
    require(not ws, "validating an interval without children warns")


def probe_far():
    """9 ms gap at 1000 s."""
    from aligned_textgrid import Word, Phone
    x = Word((1000.0, 1001.0, "x"))
    x.append(Phone((1000.0, 1000.5, "a"))); x.append(Phone((1000.509, 1001.0, "b")))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        require(not x.validate(), "children 9 ms apart at 1000 s validate")


PROBES = {"far-gap": ("np.allclose compares with a tolerance relative to the time", probe_far)}


def kidsets(lo, hi, k):
    """up to k children with non-decreasing starts, anywhere from lo to hi, overlaps allowed."""
    ivs = [(s, e) for s in range(lo, hi) for e in range(s + 1, hi + 1)]
    for n in range(0, k + 1):
        for c in itertools.combinations(ivs, n):
            if all(a[0] < b[0] for a, b in zip(c, c[1:])):
                yield list(c)


def spaces(tier):
    q = tier == "quick"
    def g(n, k, scales):
        def f():
            for sc in scales:
                for cl in ("wp", "c", "low") if sc == "int" else ("wp",):
                    for lo in range(0, 2):
                        for hi in range(n - 1, n + 1):
                            for ks in kidsets(0, n, k):
                                yield [lo, hi, ks, sc, cl]
        return f
    S = [Space("children-4", "up to four children anywhere on 4 units, inside, overlapping or reaching out", g(4, 4, list(SC)), run),
         Space("children-5", "up to three children on 5 units", g(5, 3, ["int", "milli", "far"]), run),
         Space("deep", "children and grandchildren on 3 units", lambda: ([ks, gr, sc] for ks in kidsets(0, 3, 2) for gr in itertools.product(list(kidsets(0, 3, 2)), repeat=len(ks)) for sc in (("int",) if len(ks) > 1 else ("int", "frac"))), run_deep),
         Space("none", "intervals without times or children", lambda: iter([[0]]), run_blank)]
    def g_large():
        """12 children that tile, and one boundary of one of them moved."""
        for sc in ("int", "frac", "late", "long", "milli"):
            for cl in ("wp", "low"):
                base = G.tile([2] * 12)
                yield [0, 24, base, sc, cl]
                for i in range(12):
                    yield [0, 24, base[:i] + base[i + 1:], sc, cl]
                    for side in (0, 1):
                        for d in (-1, 1):
                            ks = [list(k) for k in base]; ks[i][side] += d
                            yield [0, 24, ks, sc, cl]
                for lo, hi in ((0, 23), (1, 24), (-1, 24), (0, 25), (1, 23)): yield [lo, hi, base, sc, cl]
    S.append(Space("large", "twelve children, complete, with each one missing or each boundary off", g_large, run))
    def g_edited():
        for n in (2, 3) if q else (2, 3, 4):
            ivs = [(s, e) for s in range(n) for e in range(s + 1, n + 1)]
            for ks in itertools.product(ivs, repeat=n):
                for sc in ("int", "off", "neg"):
                    yield [0, n, [list(k) for k in ks], sc, False]
                    for lo, hi in ((ks[0][0], ks[-1][1]), (0, n - 1), (1, n)):
                        yield [lo, hi, [list(k) for k in ks], sc, True]
        T6 = G.tile([1] * 6)
        for p in itertools.permutations(range(6)):
            yield [0, 6, [T6[i] for i in p], "frac", False]
    S.append(Space("edited", "two or three children whose times are set by hand to anything, in any order; every order of six", g_edited, run_edited))
    def g_huge():
        for sc, cl in (("int", "wp"), ("off", "low")):
            base = G.tile([2] * 130)
            yield [0, 260, base, sc, cl]
            for i in (0, 1, 2, 63, 64, 98, 99, 100, 101, 127, 128, 129):
                yield [0, 260, base[:i] + base[i + 1:], sc, cl]
                for side in (0, 1):
                    for d in (-1, 1):
                        ks = [list(k) for k in base]; ks[i][side] += d
                        yield [0, 260, ks, sc, cl]
            for lo, hi in ((0, 259), (1, 260), (-1, 260), (0, 261)): yield [lo, hi, base, sc, cl]
    S.append(Space("huge", "130 children, complete, with one of twelve missing or one of its boundaries off", g_huge, run))
    def g_near():
        """Tiling children with one boundary off by a fraction of a millisecond, or the interval's own edge off."""
        for cl in ("wp", "c", "low"):
            for base in (G.tile([1]), G.tile([1, 1]), G.tile([0.5, 0.25, 1]), G.tile([0.3, 0.2, 0.1, 0.4])):
                base = [[round(s, 9), round(e, 9)] for s, e in base]
                lo, hi = 0, base[-1][1]
                for sc in ("int", "near", "neg"):
                    yield [lo, hi, base, sc, cl]
                    for d in (0.0001, 0.0004, 0.001, 0.004, 0.02):
                        for sg in (d, -d):
                            yield [lo + sg, hi, base, sc, cl]; yield [lo, hi + sg, base, sc, cl]
                            for i in range(len(base)):
                                for side in (0, 1):
                                    ks = [list(k) for k in base]; ks[i][side] += sg
                                    yield [lo, hi, ks, sc, cl]
    S.append(Space("near", "boundaries off by 0.1 to 20 ms below 4 s", g_near, run))
    if not q:
        S.append(Space("children-6", "up to four children on 6 units", g(6, 4, ["int"]), run))
    return S
