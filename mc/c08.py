"""C08: fusing."""
from .core import Space, Skip, require, same, Violation
from . import grid as G, machine as M
import itertools
ASSUMPTIONS = ["no two entries of a tier have the same times and label"]
F = frozenset("list members links within intier features".split())
FUNS = {"default": None, "plus": lambda x, y: f"{x}+{y}", "left": lambda x, y: x, "right": lambda x, y: y, "empty": lambda x, y: "", "len": lambda x, y: str(len(x)) + str(len(y))}


class FM(M.Machine):
    def op_f(self, gi, ti, k, d, fun, alias):
        self.fuse(gi, ti, k, d, FUNS[fun], alias)


def model_of(ts, two):
    m = [M.g_i(["Word", "Syl", "Phone"][:len(ts)] if len(ts) != 2 else M.WP, ts)]
    if two:
        m.append(M.g_i(M.WP if len(ts) == 2 else ["Word", "Syl", "Phone"][:len(ts)], [[(0, 2), (2, 4)]] * len(ts), "spkB", 1))
        m.append(M.g_p(["Pt"], [[0, 2]]))
    return m


def run(case, rec):
    seed, how, ops = case
    m = FM(seed if isinstance(seed, str) else model_of(*seed), how)
    for op in ops:
        try:
            m.apply(op)
        except (Skip, Violation):
            raise
        rec.step()
        try:
            m.check(F, False)
        except Violation as e:
            raise Violation(f"after {op}: {e}")
        rec.state(m.canon())


def fuses(ts, funs=("default",), alias=(False,)):
    for ti, t in enumerate(ts):
        for k in range(len(t)):
            for d in (1, -1):
                for f in funs:
                    for al in alias:
                        yield ["f", 0, ti, k, d, f, al]


def tight(n, k):
    T = G.tilings(n)
    out = [[t] for t in T]
    for _ in range(k - 1):
        out = [ts + [t] for ts in out for t in T if G.nests(ts[-1], t)]
    return out


# ---- without a grid: children of one superset, a standalone tier, or a bare chain

def run_bare(case, rec):
    from aligned_textgrid import custom_classes, SequenceTier
    mode, ivs, sub, ops, scale = case
    A, B, C = custom_classes(["A", "B", "C"])
    ents = [list(e) for e in G.entries([tuple(i) for i in ivs], scale)]
    top = None
    if mode == "children":
        top = A((ents[0][0], ents[-1][1], "top"))
        xs = [B(tuple(e)) for e in ents]
        for x in xs: top.append(x)
        K = C
    elif mode == "top-tier":
        xs = [A(tuple(e)) for e in ents]
        K = B
    elif mode == "low-tier":
        xs = [B(tuple(e)) for e in ents]
        K = C
    elif mode == "chain":
        xs = [B(tuple(e)) for e in ents]
        K = C
        for x, y in zip(xs, xs[1:]): x.set_fol(y)
    kids = {}
    for i, x in enumerate(xs):
        kids[id(x)] = []
        n = sub[i % len(sub)]
        for j in range(n):
            k = K((x.start + (x.end - x.start) * j / n, x.start + (x.end - x.start) * (j + 1) / n, f"k{i}{j}"))
            x.append(k); kids[id(x)].append(k)
    tier = SequenceTier(list(xs)) if mode.endswith("tier") else None
    marks = [(x, i if i % 2 else None) for i, x in enumerate(xs)]
    for x, v in marks:
        if v is not None: x.set_feature("mark", v)
    allkids = [k for x in xs for k in kids[id(x)]]
    kv = [G.show(k) for k in allkids]
    for k, d, fn in ops:
        if k >= len(xs): raise Skip()
        x, o = xs[k], k + d
        nm = "fuse_rightwards" if d > 0 else "fuse_leftwards"
        fun = FUNS[fn]
        roots = [r for r in [top, tier] + xs if r is not None]
        if not 0 <= o < len(xs):
            snap = G.Snap(*roots)
            try:
                getattr(x, nm)()
            except Exception:
                snap.unchanged(f"{nm} at an edge was refused")
                rec.step(); continue
            raise Violation(f"{nm} of {G.show(x)} at an edge was not refused")
        y = xs[o]
        l, r = (x, y) if d > 0 else (y, x)
        exp = (l.start, r.end, (fun or (lambda p, q: p + " " + q))(l.label, r.label))
        getattr(x, nm)(*(() if fun is None else (fun,)))
        rec.step()
        same(G.show(x), exp, f"{nm}: the fused interval")
        for z, v in marks: require(getattr(z, "mark", None) == v, f"{nm}: the feature of {G.show(z)} is {getattr(z, 'mark', None)!r}, expected {v!r}")
        kids[id(x)] = kids[id(l)] + kids[id(r)]
        xs.remove(y) if False else xs.__delitem__(o)
        w = f"after {nm} of {k}"
        for z in xs:
            require(G.is_seq(list(z.subset_list), kids[id(z)]), f"{w}: children of {G.show(z)} are {[G.show(q) for q in z.subset_list]}, expected {[G.show(q) for q in kids[id(z)]]}")
            for q in kids[id(z)]:
                require(q.super_instance is z and q.within is z, f"{w}: a child does not know its superset")
            G.check_chain(kids[id(z)], w + ": children")
        require(len(y.subset_list) == 0 or not any(q.super_instance is y for q in y.subset_list), f"{w}: the neighbour kept children")
        same([G.show(q) for q in allkids], kv, f"{w}: times or labels of children")
        if top is not None:
            require(G.is_seq(list(top.subset_list), xs), f"{w}: the superset has {top.sub_labels}")
            require(y.super_instance is None, f"{w}: the neighbour still has a superset")
            require(all(z.super_instance is top for z in xs), f"{w}: an interval lost its superset")
        if tier is not None:
            require(G.is_seq(list(tier), xs), f"{w}: the tier has {tier.labels}")
            G.check_standalone(tier, frozenset({"list", "intier", "links"}), w)
        G.check_chain(xs, w)
        rec.state((mode, [(G.show(z), [G.show(q) for q in z.subset_list]) for z in xs]))


def spaces(tier):
    q = tier == "quick"
    S = []
    T1, T2, T3 = tight(4, 1), tight(4, 2), tight(3 if q else 4, 3)
    def g1():
        for ts in T1 + T2 + T3:
            for how in ("tg", "append") if q else M.HOWS:
                for f in fuses(ts, FUNS if len(ts) == 2 and how == "tg" else ("default", "plus"), (False, True) if how == "tg" else (False,)):
                    yield [[ts, how == "append"], how, [f]]
    S.append(Space("fuse-1", "every fusion, label function and method name on every gap-free group of one, two or three nested tiers on 4 (three tiers: 3) units", g1, run))
    def g2(sets, n):
        def g():
            for ts in sets:
                for ops in itertools.product(list(fuses(ts)), repeat=n):
                    yield [[ts, False], "tg", list(ops)]
        return g
    S.append(Space("fuse-2", "every pair of fusions on every gap-free two-tier group on 3 units" if q else "every pair of fusions on gap-free groups on 4 units", g2(tight(3, 2) + tight(3, 1) if q else T2 + T3, 2), run))
    S.append(Space("fuse-3", "every triple of fusions on the finest two- and three-tier groups on 3 units", g2([[[(0, 1), (1, 2), (2, 3)]] * 2, [[(0, 3)], [(0, 1), (1, 2), (2, 3)]]] + ([] if q else [[[(0, 3)], [(0, 2), (2, 3)], [(0, 1), (1, 2), (2, 3)]]]), 3), run))
    def g_mixed():
        for s in ("two", "wsp", "pts", "het", "two-wsp", "deep", "many"):
            if q and s == "two-wsp": continue
            if s in M.BIG:
                for f in M.menu(s):
                    if f[0] in ("fuse_r", "fuse_l"):
                        for o in (["cleanup"], ["shift", -0.125], ["pickle"], ["interleave", "New", "above", "Word", "below", True]):
                            yield [s, "tg", [o, f]]
                continue
            fs = [o for o in M.menu(s) if o[0] in ("fuse_r", "fuse_l")]
            os_ = [o for o in M.menu(s) if o[0] not in ("fuse_r", "fuse_l", "reload")]
            for o in os_:
                for f in fs:
                    yield [s, "tg", [o, f]]
    S.append(Space("after-edits", "every fusion after every other edit of the seed grids", g_mixed, run))
    def g_large():
        for s in M.BIG:
            fs = [o for o in M.menu(s) if o[0] in ("fuse_r", "fuse_l")]
            for h in ("tg", "append") if q else M.HOWS:
                for f in fs: yield [s, h, [f]]
            for f in fs:                # and a second fusion of the same interval
                yield [s, "tg", [f, f]]
                yield [s, "tg", [f, [("fuse_l" if f[0] == "fuse_r" else "fuse_r")] + f[1:]]]
    S.append(Space("fuse-big", "every fusion, once and twice in either direction, on " + M.BIG_NOTE, g_large, run))
    gapless = [[(0, 1), (1, 2), (2, 3)], [(0, 2), (2, 3)], [(0, 1), (1, 3), (3, 4), (4, 5)]]
    gappy = [[(0, 1), (2, 3), (3, 4)], [(0, 1), (1, 2), (4, 5)]]
    def g_bare():
        for mode in ("children", "top-tier", "low-tier", "chain"):
            for ivs in gapless + gappy:
                for sub in ((0,), (1,), (2, 0), (0, 2, 1)):
                    for sc in ("int", "neg", "frac"):
                        al = [[k, d, f] for k in range(len(ivs)) for d in (1, -1) for f in ("default", "plus")]
                        for op in al:
                            yield [mode, ivs, sub, [op], sc]
                        if sc == "int" or not q:
                            base = [o for o in al if o[2] == "default"]
                            for n in (2, 3):
                                for ops in itertools.product(base, repeat=n):
                                    if n == 3 and len(ivs) > 3: continue
                                    yield [mode, ivs, sub, [list(o) for o in ops], sc]
    S.append(Space("bare", "up to three fusions among children of a superset, on standalone tiers and in bare chains, with and without children and gaps", g_bare, run_bare))
    return S
