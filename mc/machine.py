"""An abstract machine of a grid, executed in lock-step with the real one.

The model of a grid is a list of groups; a group has tiers (class name, tier name, entries). Relations are a function
of the times: the parent of an entry is the entry of the tier above that overlaps it most. Every operation is applied
to the model and to the real grid, and everything observable is compared."""
import copy, itertools, os, warnings
from .core import Violation, Skip, require, same
from . import grid as G


def g_i(cls, tiers, prefix="spkA", lab=0):
    return {"k": "I", "name": prefix, "tiers": [[c, f"{prefix} - {c.lower()}", [list(e) for e in G.entries(t, "int", k=lab + 2 * i)]] for i, (c, t) in enumerate(zip(cls, tiers))]}


def h_i(cls, tiers, prefix="spkA"):
    g = g_i(cls, tiers, prefix)
    for i, t in enumerate(g["tiers"]):
        for k, e in enumerate(t[2]):
            if (i + k) % 2: e[2] = "#"
    return g


def g_p(cls, tiers, prefix="pts", **kw):
    return {"k": "P", "name": prefix, "tiers": [[c, f"{prefix} - {c.lower()}", [list(e) for e in G.points(t, **kw)]] for c, t in zip(cls, tiers)]}


def named(name, gs):
    """All tiers have one name (possible only without a file)."""
    for g in gs:
        g["name"] = name
        for t in g["tiers"]: t[1] = name
    return gs


WP = ["Word", "Phone"]
SEEDS = {
    "one": [g_i(WP, [[(0, 2), (2, 3)], [(0, 1), (1, 2), (2, 3)]])],
    "two": [g_i(WP, [[(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)]]), g_i(WP, [[(0, 3)], [(0, 2), (2, 3)]], "spkB", 1)],
    "wsp": [g_i(["Word", "Syl", "Phone"], [[(0, 3), (3, 4)], [(0, 1), (1, 3), (3, 4)], [(0, 1), (1, 2), (2, 3), (3, 4)]])],
    "pts": [g_i(WP, [[(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)]]), g_p(["Pt", "Qt"], [[0, 2], [1]])],
    "het": [g_i(WP, [[(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)]]), g_i(["Word"], [[(0, 2), (2, 3)]], "spkB", 1)],
    "hash": [h_i(WP, [[(0, 1), (1, 2), (2, 4)], [(0, 1), (1, 2), (2, 3), (3, 4)]]), g_p(["Pt"], [[0, 2, 3]], labels=("#", "p", "#"))],
    "w": [g_i(["Word"], [[(0, 1), (1, 3)]])],
    "dup": named("xx", [g_i(WP, [[(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)]]), g_p(["Pt", "Qt"], [[0, 2], [1]])]),
    "two-wsp": [g_i(["Word", "Syl", "Phone"], [[(0, 2), (2, 3)], [(0, 1), (1, 2), (2, 3)], [(0, 1), (1, 2), (2, 3)]]),
                g_i(["Word", "Syl", "Phone"], [[(0, 3)], [(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)]], "spkB", 1)],
}


def _big():
    """Larger grids: long tiers late in a recording, a deep hierarchy, many groups."""
    def group(cls, counts, prefix, t0, step, labs):
        """counts[i]: how many parts each interval of the tier above is cut into, cyclically."""
        tiers, cur = [], [(0, 120)]
        for n, c in zip(counts, cls):
            nxt, k = [], 0
            for a, b in cur:
                m = n[k % len(n)]; k += 1
                w = (b - a) // m
                nxt += [(a + i * w, a + (i + 1) * w if i < m - 1 else b) for i in range(m)]
            cur = nxt
            tiers.append([c, f"{prefix} - {c.lower()}", [[t0 + step * a, t0 + step * b, labs[(i * 7 + len(c)) % len(labs)] + (str(i) if i % 3 else "")] for i, (a, b) in enumerate(cur)]])
        return {"k": "I", "name": prefix, "tiers": tiers}
    labs = ["the", "don't", "", "ÀÉ ñ", "AH0", "#", "x\"y", "a-b_c", "語", "{LG}"]
    L5 = ["Utt", "Word", "Syl", "Part", "Phone"]
    def run_of(n, d, c, prefix, labs=labs):
        return [c, f"{prefix} - {c.lower()}", [[10 + d * i, 10 + d * (i + 1), labs[(i * 7 + n) % len(labs)] + (str(i) if i % 3 else "")] for i in range(n)]]
    huge = [{"k": "I", "name": "spkA", "tiers": [run_of(128, 0.5, "Word", "spkA"), run_of(256, 0.25, "Phone", "spkA")]},
            {"k": "P", "name": "pts", "tiers": [["Pt", "pts - pt", [[10.125 + 0.25 * i, f"p{i % 9}"] for i in range(130)]]]}]
    return {"huge": huge, "wide": [group(WP, [[15], [1, 3, 2, 4]], "spkA", 1234.5, 0.0125, labs)],
            "deep": [group(L5, [[2], [2, 1], [1, 2], [2, 1, 1], [1, 2]], "spkA", 0.25, 0.01, labs)],
            "many": [group(WP, [[4], [2, 1]], "spkA", 0.3, 0.0005, labs), g_p(["Pt", "Qt", "St"], [[0.3005, 0.31, 0.3105, 0.325, 0.34, 0.355, 0.36], [0.305, 0.35], [0.3005, 0.3306, 0.3307]]), group(WP, [[3], [1, 2, 3]], "spkB", 0.3, 0.0005, labs), g_p(["Rt"], [[0.325, 0.3255]], "qqs"), group(["Word"], [[5]], "mm C", 0.3, 0.0005, labs)],
            "crowd": [group(WP[:1 + (i in (3, 10))], [[2], [2, 1]], f"s{i:02}", 0.0, 0.05, labs) if i != 7 else g_p(["Pt"], [[0.25, 1.0, 6.0]]) for i in range(12)]}


BIG = _big()
BIG_NOTE = "a grid of 128 words, 256 phones and 130 points (entries 0, 1, the middle, 99, 100 and the last two edited), a 15-word tier late in a recording, a five-level hierarchy, a grid of five groups with times a fraction of a millisecond apart, a grid of twelve groups"


def seed_model(seed):
    return SEEDS[seed] if seed in SEEDS else BIG[seed]


def class_objects(model):
    """User classes for all class names of a model, in one hierarchy (the longest chain), plus point classes."""
    from aligned_textgrid import Word, Phone, custom_classes
    chain = max(([t[0] for t in g["tiers"]] for g in model if g["k"] == "I"), key=len, default=[])
    out = {}
    if chain and set(chain) <= {"Word", "Phone"} and chain != ["Phone"]:
        out = {"Word": Word, "Phone": Phone}
    elif chain:
        out = dict(zip(chain, custom_classes(list(chain))))
    for p in sorted({t[0] for g in model if g["k"] == "P" for t in g["tiers"]}):
        out[p] = custom_classes([p], points=[0])[0]
    return out


def textgrid_of(model, scale=None):
    if len({t[1] for g in model for t in g["tiers"]}) < sum(len(g["tiers"]) for g in model): raise Skip()      # praatio wants different names
    f = scale or (lambda x: x)
    ends = [f(e[1] if len(e) == 3 else e[0]) for g in model for t in g["tiers"] for e in t[2]]
    starts = [f(e[0]) for g in model for t in g["tiers"] for e in t[2]]
    lo, hi = min(starts, default=0.0), max(ends, default=1.0)
    return G.mk_textgrid([(g["k"], t[1], [tuple([f(x) for x in e[:-1]] + [e[-1]]) for e in t[2]], lo, hi) for g in model for t in g["tiers"]])


def loose_group(g, cls):
    """A group of the library built from entries, without a grid."""
    from aligned_textgrid import SequenceTier, TierGroup, SequencePointTier, PointsGroup
    T, GR = (SequenceTier, TierGroup) if g["k"] == "I" else (SequencePointTier, PointsGroup)
    ts = []
    for c, name, ents in g["tiers"]:
        t = T([cls[c](tuple(e)) for e in ents], cls[c])
        t.name = name
        ts.append(t)
    return GR(ts)


class Machine:
    def __init__(self, seed, how="tg", cls=None):
        from aligned_textgrid import AlignedTextGrid
        self.model = copy.deepcopy(seed_model(seed) if isinstance(seed, str) else seed)
        self.cls = dict(cls) if cls else class_objects(self.model)
        self.n = 0
        ecs = [[self.cls[t[0]] for t in g["tiers"]] for g in self.model]
        if how == "tg":
            self.a = AlignedTextGrid(textgrid_of(self.model), entry_classes=ecs)
        elif how == "file":
            p = os.path.join(os.environ["VERIF_SCRATCH"], f"m{os.getpid()}.TextGrid")
            textgrid_of(self.model).save(p, "long_textgrid", True)
            self.a = AlignedTextGrid(p, entry_classes=ecs)
        elif how == "groups":
            self.a = AlignedTextGrid([loose_group(g, self.cls) for g in self.model])
        elif how == "append":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.a = AlignedTextGrid()
                for g in self.model:
                    self.a.append(loose_group(g, self.cls))
        else:
            raise AssertionError(how)
        self.marks = []          # every other entry has a feature of its own
        for t in [t for g in self.a for t in g]:
            for k, x in enumerate(t):
                self.marks.append((x, k if k % 2 == 0 else None))
                if k % 2 == 0:
                    x.set_feature("mark", k) if hasattr(x, "set_feature") else setattr(x, "mark", k)
        self.orphans = False
        self.edited = False      # a class was interleaved or popped

    def need_tight(self):
        if not self.tight():
            raise Skip()         # regrouping fills gaps: covered by the checks of C04 and C07

    # ------------------------------------------------------------ model helpers
    def parents(self, gi, ti):
        up = self.model[gi]["tiers"][ti - 1][2]
        out = []
        for s, e, _ in self.model[gi]["tiers"][ti][2]:
            ov = [min(e, y[1]) - max(s, y[0]) for y in up]
            b = max(range(len(up)), key=lambda i: ov[i], default=None)
            out.append(b if b is not None and ov[b] > 1e-12 else None)
        return out

    def extent(self, gi):
        es = [e for t in self.model[gi]["tiers"] for e in t[2]]
        return (min(e[0] for e in es), max(e[1] if len(e) == 3 else e[0] for e in es))

    def tier(self, gi, ti):
        return self.a[gi][ti]

    def gidx(self, gi):
        if gi >= len(self.model):
            raise Skip()
        return self.model[gi]

    # ------------------------------------------------------------ operations
    def apply(self, op):
        return getattr(self, "op_" + op[0])(*op[1:])

    def fuse_target(self, gi, ti, k, d):
        g = self.gidx(gi)
        if g["k"] != "I" or ti >= len(g["tiers"]) or k >= len(g["tiers"][ti][2]):
            raise Skip()
        ents = g["tiers"][ti][2]
        o = k + d
        ok = 0 <= o < len(ents)
        if ok and ti:
            p = self.parents(gi, ti)
            ok = p[k] == p[o]
        return ents, (o if ok else None)

    def fuse(self, gi, ti, k, d, fun=None, alias=False):
        ents, o = self.fuse_target(gi, ti, k, d)
        x = self.tier(gi, ti)[k]
        nm = ("fuse_rightward" if d > 0 else "fuse_leftward") + ("" if alias else "s")
        args = () if fun is None else (fun,)
        if o is None:
            snap = G.Snap(self.a)
            try:
                getattr(x, nm)(*args)
            except Exception:
                snap.unchanged(f"{nm} of {G.show(x)} at an edge was refused")
                return
            raise Violation(f"{nm} of {G.show(x)} at an edge was not refused")
        y = self.tier(gi, ti)[o]
        kids = list(x) + list(y) if d > 0 else list(y) + list(x)
        old = [[list(t) for t in g] for g in self.a]
        lab = []
        if fun is not None:
            args = (lambda p, q: (lab.append((p, q)), fun(p, q))[1],)
        left, right = (x.label, y.label) if d > 0 else (y.label, x.label)
        getattr(x, nm)(*args)
        if fun is not None:
            require(lab and all(v == (left, right) for v in lab), f"{nm}: the label function got {lab}, expected {(left, right)}")
        old[gi][ti] = [z for z in old[gi][ti] if z is not y]
        for og, g in zip(old, self.a):
            self.same_entries(og, [list(t) for t in g], nm)
        require(y.super_instance is None, f"{nm}: the neighbour still has a superset")
        a, b = (k, o) if d > 0 else (o, k)
        f = fun or (lambda p, q: p + " " + q)
        ents[a] = [ents[a][0], ents[b][1], f(ents[a][2], ents[b][2])]
        del ents[b]
        require(self.tier(gi, ti)[a] is x, f"{nm}: the fused interval is not at its place on the tier")
        require(not any(z is y for z in self.tier(gi, ti)), f"{nm}: the neighbour is still on the tier")
        require(G.is_seq(list(x), kids), f"{nm}: children of the fused interval are {[G.show(z) for z in x]}, expected {[G.show(z) for z in kids]}")

    def op_fuse_r(self, gi, ti, k): self.fuse(gi, ti, k, 1)
    def op_fuse_l(self, gi, ti, k): self.fuse(gi, ti, k, -1)
    def op_fuse_rf(self, gi, ti, k): self.fuse(gi, ti, k, 1, lambda x, y: f"{x}+{y}", True)
    def op_fuse_lf(self, gi, ti, k): self.fuse(gi, ti, k, -1, lambda x, y: f"{x}+{y}", True)

    def op_shift(self, inc):
        self.a.shift(inc)
        for gi in range(len(self.model)):
            self.m_shift(gi, inc)

    def op_shift_g(self, gi, inc):
        self.gidx(gi)
        self.a[gi].shift(inc)
        self.m_shift(gi, inc)

    def m_shift(self, gi, inc):
        for t in self.model[gi]["tiers"]:
            for e in t[2]:
                for i in range(len(e) - 1):
                    e[i] += inc

    def interleave_plan(self, where, ref, timing):
        """Per group: (position, index of the tier to copy), or Skip if there is nothing to copy from."""
        plan, hit = {}, False
        for gi, g in enumerate(self.model):
            cs = [t[0] for t in g["tiers"]]
            if g["k"] != "I" or ref not in cs:
                continue
            i = cs.index(ref)
            pos = i if where == "above" else i + 1
            src = pos if timing == "below" else pos - 1
            if not 0 <= src < len(cs):
                raise Skip()
            plan[gi] = (pos, src)
            hit = True
        if not hit:
            raise Skip()
        return plan

    def op_interleave(self, name, where, ref, timing, copy_labels, by="name"):
        if any(name == t[0] for g in self.model for t in g["tiers"]):
            raise Skip()
        plan = self.interleave_plan(where, ref, timing)
        self.need_tight()
        self.edited = True
        r = ref if by == "name" else self.cls.get(ref)
        if r is None:
            raise Skip()
        old = [[list(t) for t in g] for g in self.a]
        kw = dict(timing_from=timing, copy_labels=copy_labels)
        if by == "name":                # what is the default is left out
            if timing == "below": del kw["timing_from"]
            if copy_labels: del kw["copy_labels"]
        self.a.interleave_class(name, **{where: r}, **kw)
        for gi, g in enumerate(self.model):
            keep = list(self.a[gi])
            if gi in plan:
                pos, src = plan[gi]
                ents = [[s, e, l if copy_labels else ""] for s, e, l in g["tiers"][src][2]]
                g["tiers"].insert(pos, [name, name, ents])
                keep = keep[:pos] + keep[pos + 1:]
            self.same_entries(old[gi], [list(t) for t in keep], f"interleaving {name}: group {gi}")

    def same_entries(self, old, new, what):
        require(len(old) == len(new), f"{what}: number of tiers changed")
        for i, (x, y) in enumerate(zip(old, new)):
            require(G.is_seq(x, y), f"{what}: entries of tier {i} were replaced: {[G.show(z) for z in x]} became {[G.show(z) for z in y]}")

    def op_pop_class(self, name, by="name"):
        hit = [gi for gi, g in enumerate(self.model) if g["k"] == "I" and name in [t[0] for t in g["tiers"]]]
        if not hit:
            raise Skip()
        self.need_tight()
        self.edited = True
        r = name if by == "name" else self.cls.get(name)
        if r is None:
            raise Skip()
        keep = []
        for gi, g in enumerate(self.model):
            g["tiers_"] = [list(t) for mt, t in zip(g["tiers"], self.a[gi]) if mt[0] != name]
            g["tiers"] = [t for t in g["tiers"] if t[0] != name]
            if g["tiers"]:
                keep.append(g)
        self.a.pop_class(r)
        self.model = keep
        require(len(self.a) == len(self.model), f"popping {name}: {len(self.a)} groups, expected {len(self.model)}")
        for gi, g in enumerate(self.model):
            self.same_entries(g.pop("tiers_"), [list(t) for t in self.a[gi]], f"popping {name}: group {gi}")

    def new_top(self, gi, parts=2):
        """A top interval after the end of the group, with descendants on every lower tier: (tree, real interval)."""
        g = self.model[gi]
        hi = self.extent(gi)[1]
        self.n += 1
        levels = []
        for ti, t in enumerate(g["tiers"]):
            k = 1 if ti == 0 else parts * (2 if ti > 1 else 1)
            levels.append([[hi + i * 1.0 / k, hi + (i + 1) * 1.0 / k, f"n{self.n}{t[0][0]}{i}"] for i in range(k)])
        objs = []
        for ti, es in enumerate(levels):
            c = self.cls.get(g["tiers"][ti][0]) or self.a[gi][ti].entry_class
            objs.append([c(tuple(e)) for e in es])
        return levels, objs

    def op_append_top(self, gi, order="built"):
        g = self.gidx(gi)
        if g["k"] != "I":
            raise Skip()
        self.need_tight()
        for t, real in zip(g["tiers"], self.a[gi]):
            if t[0] not in self.cls and len(g["tiers"]) > 1:
                raise Skip()     # classes interleaved later exist only in the grid
        chain = [self.cls.get(t[0]) for t in g["tiers"]]
        for x, y in zip(chain, chain[1:]):
            if x is None or y is None or x.subset_class is not y:
                raise Skip()
        levels, objs = self.new_top(gi)
        for up, ups, lows, los in zip(levels, objs, levels[1:], objs[1:]):
            for u, U in zip(up, ups):
                for l, L in zip(lows, los):
                    if u[0] - 1e-9 <= l[0] and l[1] <= u[1] + 1e-9:
                        U.append(L)
        self.tier(gi, 0).append(objs[0][0])
        for ti, (t, es) in enumerate(zip(g["tiers"], levels)):
            t[2] += es
            real = list(self.a[gi][ti])
            require(G.is_seq(real[-len(es):], objs[ti]), f"appending: the objects appended are not the ones on tier {ti}")

    def op_append_group(self, which):
        g = copy.deepcopy(GROUPS[which])
        if self.edited and g["k"] == "I":
            raise Skip()         # may not fit the edited hierarchy: covered by the checks of C17 and C18
        self.need_tight()
        if not all(t[0] in self.cls or t[0] in ("Word", "Phone") or g["k"] == "P" for t in g["tiers"]):
            raise Skip()
        cls = dict(self.cls)
        from aligned_textgrid import Word, Phone, custom_classes
        if g["k"] == "I":
            have = [t[0] for gg in self.model if gg["k"] == "I" for t in gg["tiers"]]
            want = [t[0] for t in g["tiers"]]
            # a group whose classes are neighbours in the grid, or a grid without intervals
            for gg in self.model:
                if gg["k"] == "I":
                    cs = [t[0] for t in gg["tiers"]]
                    if want == cs[:len(want)] or cs == want[:len(cs)]:
                        continue
                    raise Skip()
            cls.setdefault("Word", Word); cls.setdefault("Phone", Phone)
            if any(cls[x].subset_class is not cls[y] for x, y in zip(want, want[1:])):
                raise Skip()
        for t in g["tiers"]:
            if g["k"] == "P" and t[0] not in cls:
                cls[t[0]] = custom_classes([t[0]], points=[0])[0]
        self.cls = {**self.cls, **{t[0]: cls[t[0]] for t in g["tiers"]}}
        if any(gg["name"] == g["name"] for gg in self.model):
            g["name"] += "x"
            for t in g["tiers"]:
                t[1] = t[1].replace(" - ", "x - ")
        real = loose_group(g, cls)
        ents = [list(t) for t in real]
        self.a.append(real)
        require(self.a[len(self.a) - 1] is real, "appending a group: the group appended is not the last group")
        self.same_entries(ents, [list(t) for t in real], "appending a group")
        self.model.append(g)

    def op_append_tier(self, gi, cname="Phone"):
        g = self.gidx(gi)
        cs = [t[0] for t in g["tiers"]]
        if self.edited or not self.tight():
            raise Skip()
        if g["k"] != "I" or cname in cs or cname not in self.cls or self.cls[cname].superset_class is not self.cls.get(cs[-1]):
            raise Skip()
        if any(cname in [t[0] for t in h["tiers"]] and [t[0] for t in h["tiers"]][:len(cs)] != cs for h in self.model):
            raise Skip()
        from aligned_textgrid import SequenceTier
        ents = [[s, (s + e) / 2, "p"] for s, e, _ in g["tiers"][-1][2]] + [[(s + e) / 2, e, "q"] for s, e, _ in g["tiers"][-1][2]]
        ents.sort()
        t = SequenceTier([self.cls[cname](tuple(e)) for e in ents], self.cls[cname])
        t.name = f"{g['name']} - {cname.lower()}"
        objs = list(t)
        self.a[gi].append(t)
        require(self.a[gi][len(cs)] is t, "appending a tier: the tier is not in the group")
        self.same_entries([objs], [list(t)], "appending a tier")
        g["tiers"].append([cname, t.name, ents])

    def op_cleanup(self):
        before = [[list(t) for t in g] for g in self.a]
        self.a.cleanup()
        lo = min((self.extent(gi)[0] for gi, g in enumerate(self.model) if g["k"] == "I"), default=None)
        hi = max((self.extent(gi)[1] for gi, g in enumerate(self.model) if g["k"] == "I"), default=None)
        require(len(self.a) == len(self.model), "cleanup changed the number of groups")
        for gi, g in enumerate(self.model):
            require(len(self.a[gi]) == len(g["tiers"]), f"cleanup changed the number of tiers of group {gi}")
            for ti, t in enumerate(g["tiers"]):
                real = list(self.a[gi][ti])
                old = before[gi][ti]
                ids = {id(x) for x in old}
                require(G.is_seq([x for x in real if id(x) in ids], old), f"cleanup: entries of group {gi} tier {ti} went or moved")
                for x, e in zip(old, t[2]):
                    G.want(list(G.show(x)), list(e), "cleanup: an entry changed")
                new = [x for x in real if id(x) not in ids]
                require(g["k"] == "I" or not new, "cleanup added points")
                for x in new:
                    same(x.label, "", "cleanup: label of an added interval")
                    require(not any(min(x.end, y.end) > max(x.start, y.start) + 1e-9 for y in real if y is not x), f"cleanup: the added interval {G.show(x)} overlaps another one")
                    require(lo - 1e-9 <= x.start and x.end <= hi + 1e-9, f"cleanup: the added interval {G.show(x)} is outside the extent")
        self.resync()
        self.orphans = False

    def resync(self):
        for gi, g in enumerate(self.model):
            for ti, t in enumerate(g["tiers"]):
                t[2] = [list(v) for v in G.vals(self.a[gi][ti])]

    def op_relabel(self, gi, ti, k, lab):
        g = self.gidx(gi)
        if ti >= len(g["tiers"]) or k >= len(g["tiers"][ti][2]):
            raise Skip()
        self.tier(gi, ti)[k].label = lab
        g["tiers"][ti][2][k][-1] = lab

    def op_tier_pop(self, gi, ti, k):
        g = self.gidx(gi)
        if g["k"] != "I" or ti >= len(g["tiers"]) or k >= len(g["tiers"][ti][2]) or len(g["tiers"][ti][2]) < 2:
            raise Skip()
        x = self.tier(gi, ti)[k]
        if ti + 1 < len(g["tiers"]):
            raise Skip()      # what becomes of the children of a popped superset is not specified
        self.tier(gi, ti).pop(x)
        del g["tiers"][ti][2][k]
        require(x.super_instance is None, "pop: the popped interval still has a superset")

    def op_twin(self, gi, ti, k):
        """An interval of the lowest tier, or a point, gives way to another of the same values."""
        g = self.gidx(gi)
        if ti != len(g["tiers"]) - 1 or k >= len(g["tiers"][ti][2]):
            raise Skip()
        t = self.tier(gi, ti)
        x = t[k]
        new = t.entry_class(tuple(g["tiers"][ti][2][k]))
        if g["k"] == "I":
            self.need_tight()
            if g["tiers"][ti][2][k][2] == "" or ti and len(x.super_instance) < 2:
                raise Skip()
            t.pop(x)
            t.append(new)
        else:
            t.sequence_list = [new if y is x else y for y in t]
        require(t[k] is new, "replacing an entry: the new one is not in its place")

    def op_reorder(self, by):
        if len(self.model) < 2:
            raise Skip()
        n = len(self.model)
        order = list(range(n))[::-1] if by == "reverse" else [(i + 1) % n for i in range(n)]
        gs = [self.a[i] for i in order]
        self.a.tier_groups = gs
        require(G.is_seq(list(self.a), gs) and G.is_seq(list(self.a.tier_groups), gs), "setting the tier groups in another order: the groups are not as set")
        self.model = [self.model[i] for i in order]

    def op_re_relate(self, gi):
        self.gidx(gi)
        if not self.tight():
            raise Skip()
        self.a[gi].re_relate()

    def op_point_append(self, gi, ti, time, lab):
        g = self.gidx(gi)
        if g["k"] != "P" or ti >= len(g["tiers"]):
            raise Skip()
        if any(e[0] == time for e in g["tiers"][ti][2]):
            raise Skip()
        c = self.cls.get(g["tiers"][ti][0]) or self.tier(gi, ti).entry_class
        p = c((float(time), lab))
        self.tier(gi, ti).append(p)
        g["tiers"][ti][2].append([float(time), lab])
        g["tiers"][ti][2].sort()
        require(any(q is p for q in self.tier(gi, ti)), "the appended point is not on the tier")

    def op_pickle(self, how="cloudpickle"):
        import cloudpickle, pickle
        self.a = pickle.loads(cloudpickle.dumps(self.a))
        self.cls = {}

    def op_reload(self, fmt):
        from aligned_textgrid import AlignedTextGrid
        cls = class_objects(self.model)
        if not self.model or not self.same_extents():
            raise Skip()
        if len({t[1] for g in self.model for t in g["tiers"]}) < sum(len(g["tiers"]) for g in self.model):
            raise Skip()
        if any(t != t.strip() for g in self.model for _, _, es in g["tiers"] for t in [e[-1] for e in es]):
            raise Skip()      # the file formats do not keep blanks around a label
        if not self.tight() or min(self.extent(gi)[0] for gi in range(len(self.model))) < 0:
            raise Skip()
        ecs = [[cls[t[0]] for t in g["tiers"]] for g in self.model]
        iv = [self.extent(gi) for gi, g in enumerate(self.model) if g["k"] == "I"]
        if fmt != "object" and any(p[0] < iv[0][0] or p[1] > iv[0][1] for p in [self.extent(gi) for gi, g in enumerate(self.model) if g["k"] == "P"] if iv):
            raise Skip()      # a file has one extent for all tiers: blanks are added to reach it
        if fmt == "object":
            self.a = AlignedTextGrid(self.a.return_textgrid(), entry_classes=ecs)
        else:
            p = os.path.join(os.environ["VERIF_SCRATCH"], f"r{os.getpid()}.TextGrid")
            self.a.save_textgrid(p, fmt)
            self.a = AlignedTextGrid(p, entry_classes=ecs)
        self.cls = cls
        self.edited = False

    def tight(self):
        for g in self.model:
            if g["k"] != "I":
                continue
            es = [t[2] for t in g["tiers"]]
            if not all(es):
                return False
            for t in es:
                if any(abs(x[1] - y[0]) > 1e-9 for x, y in zip(t, t[1:])) or abs(t[0][0] - es[0][0][0]) > 1e-9 or abs(t[-1][1] - es[0][-1][1]) > 1e-9:
                    return False
        return True

    def same_extents(self):
        xs = [self.extent(gi) for gi, g in enumerate(self.model) if g["k"] == "I"]
        return all(abs(x[0] - xs[0][0]) < 1e-9 and abs(x[1] - xs[0][1]) < 1e-9 for x in xs)

    # ------------------------------------------------------------ comparison
    def check(self, F=G.ALL, names=True):
        a = self.a
        if "features" in F:
            for x, v in self.marks:
                require(getattr(x, "mark", None) == v, f"the feature of {G.show(x)} is {getattr(x, 'mark', None)!r}, expected {v!r}")
        require(len(a) == len(self.model), f"{len(a)} groups, expected {len(self.model)}")
        for gi, g in enumerate(self.model):
            R = a[gi]
            require(len(R) == len(g["tiers"]), f"group {gi}: {len(R)} tiers, expected {len(g['tiers'])}")
            same([t.entry_class.__name__ for t in R], [t[0] for t in g["tiers"]], f"group {gi}: classes")
            if names and "names" in F:
                same([t.name for t in R], [t[1] for t in g["tiers"]], f"group {gi}: tier names")
            for ti, t in enumerate(g["tiers"]):
                G.want(G.vals(R[ti]), [tuple(e) for e in t[2]], f"group {gi} tier {ti}: entries")
                if ti and g["k"] == "I":
                    up = list(R[ti - 1])
                    got = [next((j for j, u in enumerate(up) if u is x.super_instance), None if x.super_instance is None else "elsewhere") for x in R[ti]]
                    same(got, self.parents(gi, ti), f"group {gi} tier {ti}: supersets")
        f = set(F)
        if not self.tight() or not self.same_extents():
            f -= {"tiling"}
        G.check_grid(a, frozenset(f), orphans=not self.tight())

    def canon(self):
        return [[g["k"], [[t[0], t[1], [[round(v, 6) if isinstance(v, float) else v for v in e] for e in t[2]]] for t in g["tiers"]]] for g in self.model]


GROUPS = {
    "wp": g_i(WP, [[(0, 2), (2, 4)], [(0, 1), (1, 2), (2, 4)]], "spkC", 2),
    "wp-late": g_i(WP, [[(1, 2)], [(1, 2)]], "spkD", 3),
    "w": g_i(["Word"], [[(0, 1), (1, 3)]], "spkE", 1),
    "pt": g_p(["Pt"], [[1, 3]], "ptx"),
    "rt": g_p(["Rt"], [[0, 5]], "pty"),
}


def run_machine(case, rec, F=G.ALL, names=True, extra=None):
    seed, how, ops = case
    m = Machine(seed, how)
    m.check(F, names)
    rec.state(m.canon())
    for op in ops:
        try:
            m.apply(op)
        except (Skip, Violation):
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f"{op} raised {type(e).__name__}: {e} [{os.path.basename(tb.filename)}:{tb.lineno}]")
        rec.step()
        try:
            m.check(F, names)
            if extra:
                extra(m)
        except Violation as e:
            raise Violation(f"after {op}: {e}")
        rec.state(m.canon())


def menu(seed, fuses=True):
    """The operations that make sense on a seed (those not enabled in a state are skipped there)."""
    M = []
    model = seed_model(seed)
    places = lambda n: range(n) if n < 100 else [0, 1, n // 2, 99, 100, n - 2, n - 1]
    for gi, g in enumerate(model):
        if g["k"] == "I":
            for ti, t in enumerate(g["tiers"]):
                for k in places(len(t[2])):
                    if fuses:
                        M += [["fuse_r", gi, ti, k], ["fuse_l", gi, ti, k]]
                if ti == len(g["tiers"]) - 1:
                    M += [["tier_pop", gi, ti, k] for k in places(len(t[2]))]
                    M += [["twin", gi, ti, k] for k in sorted({0, 1, len(t[2]) - 1}) if k < len(t[2])]
            M += [["append_top", gi], ["shift_g", gi, 0.5], ["re_relate", gi], ["append_tier", gi]]
            M += [["relabel", gi, len(g["tiers"]) - 1, 0, "zz"]]
        else:
            M += [["point_append", gi, ti, t, "n"] for ti in range(len(g["tiers"])) for t in (0.5, 7)]
            M += [["shift_g", gi, -0.25]]
            M += [["twin", gi, len(g["tiers"]) - 1, k] for k in (0, 1) if k < len(g["tiers"][-1][2])]
    cs = sorted({t[0] for g in model for t in g["tiers"] if g["k"] == "I"})
    M += [["shift", 1.5], ["shift", -0.5], ["cleanup"]]
    for c in cs:
        for w in ("above", "below"):
            for tm in ("above", "below"):
                M.append(["interleave", "New", w, c, tm, tm == "below"])
        M.append(["pop_class", c])
    M.append(["pop_class", "New"])
    M += [["append_group", k] for k in GROUPS]
    if len(model) > 1:
        M += [["reorder", "reverse"], ["reorder", "rotate"]]
    M += [["pickle"], ["reload", "object"], ["reload", "short_textgrid"]]
    return M


def gen_machine(seeds, hows, depth, menu_of=menu):
    def g():
        for d in range(0, depth + 1):
            for s in seeds:
                for h in hows:
                    for ops in itertools.product(menu_of(s), repeat=d):
                        yield [s, h, [list(o) for o in ops]]
    return g


HOWS = ["tg", "file", "groups", "append"]


def edit_spaces(tier, F, names=False, extra=None, seeds=None, hows=HOWS, menu_of=menu, depth2=None):
    """The standard spaces: every operation, and every pair of operations, on the seed grids."""
    from .core import Space
    seeds = seeds or list(SEEDS)
    run = lambda case, rec: run_machine(case, rec, F, names, extra)
    S = [Space("edits-1", f"every operation of the grid menu from {len(seeds)} seed grids built in {len(hows)} ways", gen_machine(seeds, hows, 1, menu_of), run),
         Space("edits-big", f"every operation of the grid menu on {BIG_NOTE}", gen_machine(list(BIG), ["tg"] if tier == "quick" else hows, 1, menu_of), run)]
    if tier == "quick":
        s2 = depth2 or ["one", "pts", "het"]
        S.append(Space("edits-2", f"every pair of operations of the grid menu from the seeds {s2}", gen_machine(s2, ["tg"], 2, menu_of), run))
    else:
        S.append(Space("edits-2", f"every pair of operations of the grid menu from {len(seeds)} seeds, read or appended", gen_machine(seeds, ["tg", "append"], 2, menu_of), run))
        S.append(Space("edits-3", "every triple of operations of the grid menu (fusions at even positions only) from the seed 'one' and 'het'",
                       gen_machine(["one", "het"], ["tg"], 3, lambda s: [o for o in menu_of(s) if not (o[0] in ("fuse_r", "fuse_l", "tier_pop") and o[3] % 2)]), run))
    return S
