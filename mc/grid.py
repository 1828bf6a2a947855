"""Small textgrids, how to build them through the public API, and what must hold of any structure (the oracle)."""
import itertools, math, warnings
from .core import Violation, require, same

TOL = 1e-9

# ---------------------------------------------------------------- enumeration of small tiers

def partial_tilings(n):
    """All sets of disjoint intervals with integer bounds in [0, n] (gaps allowed), fewest boundaries first."""
    out = []
    def go(pos, acc):
        if pos == n:
            out.append(tuple(acc)); return
        go(pos + 1, acc)
        for e in range(pos + 1, n + 1):
            go(e, acc + [(pos, e)])
    go(0, [])
    return sorted(set(out), key=lambda t: (len(t), t))


def tilings(n):
    """All exact tilings of [0, n]."""
    return [t for t in partial_tilings(n) if t and t[0][0] == 0 and t[-1][1] == n and all(a[1] == b[0] for a, b in zip(t, t[1:]))]


def nests(upper, lower):
    """Each lower interval lies inside one upper interval or overlaps none."""
    for s, e in lower:
        hit = [u for u in upper if min(u[1], e) > max(u[0], s)]
        if hit and not (len(hit) == 1 and hit[0][0] <= s and e <= hit[0][1]):
            return False
    return True


SCALES = {"int": lambda x: float(x), "whole": lambda x: x if isinstance(x, int) else float(x), "neg": lambda x: float(x) - 2.0, "off": lambda x: 1.5 + 0.25 * x,
          "frac": lambda x: 3.0712345678 + 0.00071234567 * x, "milli": lambda x: round(12.3 + 0.001 * x, 6)}
SCALES_BIG = {"late": lambda x: round(1834.07 + 0.05 * x, 6), "long": lambda x: round(7.3 * x, 6)}
NEAR = {"near": lambda x: 1.7 + x}
SCALES.update(SCALES_BIG)
SCALES["mix"] = lambda x: x // 2 if isinstance(x, int) and x % 2 == 0 else 0.5 * x      # whole numbers and fractions
LEFT = {"neg3": lambda x: float(x) - 3.0, "neg9": lambda x: float(x) - 9.0, "negf": lambda x: 0.1 * x - 7.31}      # ends at or before 0
LABELS = ["a", "b", "b", "", "", "a", "#"]


def entries(ivs, scale="int", labels=LABELS, k=0):
    f = SCALES.get(scale) or LEFT[scale]
    return [(f(s), f(e), labels[(i + k) % len(labels)]) for i, (s, e) in enumerate(ivs)]


def points(ts, scale="int", labels=("p", "q", "p", "r")):
    f = SCALES.get(scale) or LEFT[scale]
    return [(f(t), labels[i % len(labels)]) for i, t in enumerate(ts)]


UP = [3, 1, 2, 1, 4, 1, 1, 2, 3]          # lengths of the upper intervals of the large configurations (18 units)


def tile(lengths, at=0):
    out = []
    for n in lengths:
        out.append((at, at + n)); at += n
    return out


def large(levels=2):
    """Nested tiers of 9 and 18 intervals (and levels in between): complete, and with every single interval, every
    interval with its children, the children of every interval, and every neighbouring pair of lower intervals missing."""
    up, low = tile(UP), tile([1] * 18)
    mid = [[up, low], [up, tile([1, 2, 1, 2, 1, 2, 2, 1, 1, 2, 1, 2]), low], [tile([6, 1, 5, 6]), up, tile([1, 2, 1, 2, 1, 2, 2, 1, 1, 2, 1, 2]), low]][levels - 2]
    def without(ts, drop):
        return [[i for i in t if not drop(k, i)] for k, t in enumerate(ts)]
    out = [mid]
    n = len(mid)
    for k in range(n):
        for i in mid[k]:
            out.append(without(mid, lambda kk, ii: kk == k and ii == i))
            out.append(without(mid, lambda kk, ii: kk >= k and i[0] <= ii[0] and ii[1] <= i[1]))
            out.append(without(mid, lambda kk, ii: kk > k and i[0] <= ii[0] and ii[1] <= i[1]))
            out.append(without(mid, lambda kk, ii: kk == n - 1 and i[1] <= ii[0] < i[1] + 2))
    out.append(without(mid, lambda kk, ii: kk == n - 1 and ii[0] % 2))
    out.append(without(mid, lambda kk, ii: kk == n - 1 and ii[0] >= 12))
    out.append(without(mid, lambda kk, ii: kk == n - 2 and ii[0] < 9))
    seen, res = set(), []
    for ts in out:
        key = repr(ts)
        if key not in seen and all(ts):
            seen.add(key); res.append([list(t) for t in ts])
    return res


HUGE = (0, 1, 64, 99, 100, 126, 127)      # places at which the huge configurations differ


def huge(levels=2, places=HUGE):
    """Nested tiers of 128 and 256 intervals (and 160 in between): complete, and with the interval at some places,
    its children, or both missing; and with one upper interval that has all the rest."""
    up, low = tile([1, 3, 2, 2] * 32), tile([1] * 256)
    mid = [[up, low], [up, tile([1, 1, 2, 1, 1, 2] * 32), low]][levels - 2]
    n = len(mid)
    out = [mid]
    for p in places:
        s, e = up[p]
        out.append([[i for i in t if not (k == 0 and i == (s, e))] for k, t in enumerate(mid)])
        out.append([[i for i in t if not (k > 0 and s <= i[0] and i[1] <= e)] for k, t in enumerate(mid)])
        out.append([[i for i in t if not (s <= i[0] and i[1] <= e)] for t in mid])
        out.append([[i for i in t if not (k == n - 1 and i[0] == 2 * p)] for k, t in enumerate(mid)])
    out.append([[(0, 1), (1, 255), (255, 256)]] * (n - 1) + [low])
    return [[list(t) for t in ts] for ts in out]


# ---------------------------------------------------------------- building

def mk_textgrid(tiers):
    """tiers: list of (kind 'I'|'P', name, entries, xmin, xmax)."""
    from praatio.data_classes.textgrid import Textgrid
    from praatio.data_classes.interval_tier import IntervalTier
    from praatio.data_classes.point_tier import PointTier
    tg = Textgrid()
    for kind, name, ents, lo, hi in tiers:
        cls = IntervalTier if kind == "I" else PointTier
        tg.addTier(cls(name, [tuple(e) for e in ents], lo, hi), reportingMode="silence")
    return tg


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ---------------------------------------------------------------- observation

def vals(tier):
    return [((float(x.start), float(x.end), x.label) if hasattr(x, "end") else (float(x.time), x.label)) for x in tier]


def obs_group(g):
    tiers = []
    for i, t in enumerate(g):
        par = None
        if i and hasattr(t, "subset_class"):
            up = list(g[i - 1])
            par = [next((j for j, u in enumerate(up) if u is x.super_instance), None) for x in t]
        tiers.append((t.entry_class.__name__, t.name, vals(t), par))
    return tiers


def obs_grid(a):
    return [(type(g).__name__, g.name, obs_group(g)) for g in a]


def obs_values(a):
    """tiers, times, labels and relations; no names."""
    return [[(t[0], t[2], t[3]) for t in obs_group(g)] for g in a]


def close(a, b, tol=TOL):
    if isinstance(a, float) and isinstance(b, (float, int)) or isinstance(b, float) and isinstance(a, int):
        return abs(a - b) <= tol
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def want(got, exp, what, tol=TOL):
    if not close(got, exp, tol):
        raise Violation(f"{what}: got {got!r}, expected {exp!r}")


# ---------------------------------------------------------------- structural oracle
#
# What must hold of a structure is split into facets, so that a check asserts only what its property says:
#   list     tiers are complete, sorted, single-class, and all their views agree
#   intier   entries know their tier and their index in it
#   links    prev / fol links, tierwise navigation
#   members  superset / subset lists are reciprocal
#   within   within / contains / within_index
#   classes  the classes of neighbouring tiers lead to each other; one class per name
#   names    tiers and groups are reachable by name
#   extent   xmin / xmax of groups and grids
#   tiling   tiers are gap-free, children tile their superset, interval groups span the same extent
#   ids      within paths and ids
ALL = frozenset("list intier links members within classes names extent tiling ids features".split())
LOOSE = ALL - {"tiling"}


def is_seq(xs, ys):
    return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


def edge(o):
    """A boundary: labelled '#', without a time."""
    return getattr(o, "label", None) == "#" and getattr(o, "start", getattr(o, "time", None)) is None


def show(x):
    if x is None:
        return None
    return (x.start, x.end, x.label) if hasattr(x, "end") else (x.time, x.label)


def check_chain(xs, what):
    n = len(xs)
    for i, x in enumerate(xs):
        p, f = x.prev, x.fol
        if i == 0:
            require(edge(p), f"{what}: the first entry {show(x)} is preceded by {show(p)}, expected a '#' boundary")
        else:
            require(p is xs[i - 1], f"{what}: entry {i} {show(x)} is preceded by {show(p)}, expected its left neighbour")
        if i == n - 1:
            require(edge(f), f"{what}: the last entry {show(x)} is followed by {show(f)}, expected a '#' boundary")
        else:
            require(f is xs[i + 1], f"{what}: entry {i} {show(x)} is followed by {show(f)}, expected its right neighbour")


def is_point_tier(t):
    return hasattr(t, "times")


def check_tier(t, F=ALL, what="tier"):
    xs = list(t)
    pt = is_point_tier(t)
    keys = [float(x.time if pt else x.start) for x in xs]
    if "list" in F:
        same(len(t), len(xs), what + ": len")
        require(is_seq([t[i] for i in range(len(xs))], xs), what + ": indexing and iteration differ")
        require(is_seq(list(t.sequence_list), xs), what + ": sequence_list and iteration differ")
        if pt:
            same([float(v) for v in t.times], keys, what + ": times")
        else:
            same([float(v) for v in t.starts], keys, what + ": starts")
            same([float(v) for v in t.ends], [float(x.end) for x in xs], what + ": ends")
        same([float(v) for v in t.sequence_list.starts], keys, what + ": sequence_list.starts")
        same(list(t.labels), [x.label for x in xs], what + ": labels")
        require(keys == sorted(keys), f"{what} is not in time order: {keys}")
        require(len({id(x) for x in xs}) == len(xs), what + ": an entry occurs twice")
        if xs:
            require(t.first is xs[0] and t.last is xs[-1], what + ": first/last")
        for i, x in enumerate(xs):
            require(type(x) is t.entry_class, f"{what}: entry {i} {show(x)} is a {type(x)!r}, not of the tier's entry class {t.entry_class!r}")
            require(x in t, f"{what}: entry {i} {show(x)} is not found in its tier")
    if "extent" in F or "list" in F:
        if xs:
            same(float(t.xmin), min(keys), what + ": xmin")
            same(float(t.xmax), max(keys) if pt else max(float(x.end) for x in xs), what + ": xmax")
        else:
            require(t.xmin is None and t.xmax is None, what + ": an empty tier has an extent")
    if "classes" in F:
        for i, x in enumerate(xs):
            require(type(x) is t.entry_class, f"{what}: entry {i} {show(x)} is a {type(x)!r}, not of the tier's entry class {t.entry_class!r}")
    if "intier" in F:
        for i, x in enumerate(xs):
            require(x.intier is t, f"{what}: entry {i} {show(x)} does not know its tier (intier={x.intier!r})")
            same(x.tier_index, i, f"{what}: tier_index of entry {i}")
    if "links" in F:
        for i, x in enumerate(xs):
            for d in (0, 1, 2, -1):
                if 0 <= i + d < len(xs):
                    require((x.get_tierwise(d) if d else x.get_tierwise()) is xs[i + d], f"{what}: get_tierwise({d or ''}) of entry {i}")
                    if d == -1: require(x.get_tierwise(idx=d) is xs[i + d], f"{what}: get_tierwise(idx={d}) of entry {i}")
                elif d < 2:
                    try:
                        y = x.get_tierwise(d)
                    except IndexError:
                        continue
                    raise Violation(f"{what}: get_tierwise({d}) of entry {i} of {len(xs)} is {show(y)}, expected an IndexError")
        if pt:
            check_chain(xs, what)
    if "within" in F and pt:
        require(is_seq(list(t.contains), xs), what + ": contains")
        for i, x in enumerate(xs):
            require(x.within is t, f"{what}: point {i} is not within its tier")
    return xs


def check_standalone(t, F=ALL, what="tier"):
    """A tier that is in no group: its entries form one chain."""
    xs = check_tier(t, F, what)
    if "links" in F:
        check_chain(xs, what)


def check_group(g, F=ALL, orphans=False, what="group"):
    """orphans: intervals of lower tiers without a superset are allowed."""
    from aligned_textgrid.sequences.sequences import Top, Bottom
    ts = list(g)
    if "list" in F:
        same(len(g), len(ts), what + ": len")
        require(is_seq([g[i] for i in range(len(ts))], ts), what + ": indexing and iteration differ")
        require(is_seq(list(g.tier_list), ts), what + ": tier_list and iteration differ")
        require(is_seq(list(g.entry_classes), [t.entry_class for t in ts]), what + ": entry_classes")
    if "within" in F:
        require(is_seq(list(g.contains), ts), what + ": contains and tiers differ")
        for i, t in enumerate(ts):
            require(t.within is g, f"{what}: tier {i} is not within the group")
            same(t.within_index, i, f"{what}: within_index of tier {i}")
    if "names" in F:
        same(list(g.tier_names), [t.name for t in ts], what + ": tier_names")
        for i, t in enumerate(ts):
            require(getattr(g, t.entry_class.__name__, None) is t, f"{what}: .{t.entry_class.__name__} is not tier {i}")
    ent = [check_tier(t, F, f"{what} tier {i}") for i, t in enumerate(ts)]
    if "classes" in F:
        for i, t in enumerate(ts):
            require(t.superset_class is t.entry_class.superset_class, f"{what}: superset_class of tier {i} differs from that of its entry class")
            require(t.subset_class is t.entry_class.subset_class, f"{what}: subset_class of tier {i} differs from that of its entry class")
        require(issubclass(ts[0].entry_class.superset_class, Top), what + ": the first tier's class is not at the top of the hierarchy")
        for i in range(1, len(ts)):
            require(ts[i - 1].entry_class.subset_class is ts[i].entry_class, f"{what}: subset class of tier {i-1} is not the class of tier {i}")
            require(ts[i].entry_class.superset_class is ts[i - 1].entry_class, f"{what}: superset class of tier {i} is not the class of tier {i-1}")
    if "extent" in F:
        full = [t for t in ts if len(t)]
        if full:
            same(float(g.xmin), min(float(t.xmin) for t in full), what + ": xmin")
            same(float(g.xmax), max(float(t.xmax) for t in full), what + ": xmax")
    if "links" in F:
        check_chain(ent[0], what + " tier 0")
    if "within" in F:
        require(is_seq(list(ts[0].contains), ent[0]), what + ": contains of the top tier")
        for x in ent[0]:
            require(x.within is ts[0], what + ": an interval of the top tier is not within its tier")
    if "members" in F:
        for x in ent[0]:
            require(x.super_instance is None, what + ": an interval of the top tier has a super instance")
    for i in range(1, len(ts)):
        byid = {id(u): [] for u in ent[i - 1]}
        for x in ent[i]:
            s = x.super_instance
            if s is None:
                require(orphans or "members" not in F and "tiling" not in F, f"{what}: {show(x)} of tier {i} has no superset")
                if "within" in F:
                    require(x.within is None, f"{what}: {show(x)} of tier {i} has no superset but is within {x.within!r}")
                if "links" in F:
                    require(edge(x.prev) or x.prev.super_instance is None, f"{what}: {show(x)} of tier {i} has no superset but is preceded by {show(x.prev)}, which has one")
                    require(edge(x.fol) or x.fol.super_instance is None, f"{what}: {show(x)} of tier {i} has no superset but is followed by {show(x.fol)}, which has one")
                continue
            if "members" in F or "tiling" in F:
                require(id(s) in byid, f"{what}: the superset of {show(x)} of tier {i} is not on tier {i-1}")
            byid.setdefault(id(s), []).append(x)
            if "within" in F:
                require(x.within is s, f"{what}: {show(x)} of tier {i} is not within its superset")
        for j, u in enumerate(ent[i - 1]):
            kids = byid[id(u)]
            w = f"{what}: children of {show(u)}, tier {i-1}"
            if "members" in F:
                require(is_seq(list(u.subset_list), kids), f"{w}: subset list has {u.sub_labels}, tier {i} has {[k.label for k in kids]}")
                require(is_seq([k for k in u], kids) and len(u) == len(kids), f"{w}: iteration")
                require(sum(1 for _ in u for _ in u) == len(kids) ** 2, f"{w}: a loop within a loop over the same interval")
                same(list(u.sub_labels), [k.label for k in kids], w + ": sub_labels")
                same([float(v) for v in u.sub_starts], [float(k.start) for k in kids], w + ": sub_starts")
                same([float(v) for v in u.sub_ends], [float(k.end) for k in kids], w + ": sub_ends")
                for n, k in enumerate(kids):
                    same(u.index(k), n, f"{w}: index of child {n}")
                    require(k in u, f"{w}: child {n} not in superset")
            if "within" in F:
                require(is_seq(list(u.contains), kids), f"{w}: contains has {[show(k) for k in u.contains]}")
                for n, k in enumerate(kids):
                    same(k.within_index, n, f"{w}: within_index of child {n}")
            if "links" in F:
                check_chain(kids, w)
    for x in ent[-1]:
        if "members" in F:
            require(len(x.subset_list) == 0, f"{what}: {show(x)} of the last tier has children")
        if "within" in F:
            require(len(x.contains) == 0, f"{what}: {show(x)} of the last tier contains something")
    if "tiling" in F:
        check_tiling(g, what)


def check_tiling(g, what="group"):
    lo, hi = None, None
    for i, t in enumerate(g):
        v = vals(t)
        require(len(v) > 0, f"{what}: tier {i} is empty")
        for a in v:
            require(a[1] > a[0] + TOL, f"{what}: tier {i} has an interval without duration: {a}")
        for a, b in zip(v, v[1:]):
            require(abs(a[1] - b[0]) <= TOL, f"{what}: tier {i} does not join up: {a} then {b}")
        if i == 0:
            lo, hi = v[0][0], v[-1][1]
        want([v[0][0], v[-1][1]], [lo, hi], f"{what}: extent of tier {i} against tier 0")
        for x in t:
            if i:
                require(x.super_instance is not None, f"{what}: {show(x)} of tier {i} has no superset")
            if i + 1 < len(g):
                require(len(x) > 0, f"{what}: {show(x)} of tier {i} has no children")
                want([float(x.first.start), float(x.last.end)], [float(x.start), float(x.end)], f"{what}: children of {show(x)} of tier {i} against its extent")
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                ok = x.validate()
            require(bool(ok), f"{what}: {show(x)} of tier {i} does not validate")


def check_points_group(g, F=ALL, what="points group"):
    ts = list(g)
    if "list" in F:
        same(len(g), len(ts), what + ": len")
        require(is_seq(list(g.tier_list), ts), what + ": tier_list")
    if "within" in F:
        require(is_seq(list(g.contains), ts), what + ": contains")
        for i, t in enumerate(ts):
            require(t.within is g, f"{what}: tier {i} is not within the group")
            same(t.within_index, i, f"{what}: within_index of tier {i}")
    for i, t in enumerate(ts):
        if "names" in F and len({c.__name__ for c in g.entry_classes}) == len(ts):
            require(getattr(g, t.entry_class.__name__, None) is t, f"{what}: .{t.entry_class.__name__} is not tier {i}")
        check_tier(t, F, f"{what} tier {i}")
    if "extent" in F:
        full = [t for t in ts if len(t)]
        if full:
            same(float(g.xmin), min(float(t.xmin) for t in full), what + ": xmin")
            same(float(g.xmax), max(float(t.xmax) for t in full), what + ": xmax")


def is_points(g):
    return not hasattr(g[0], "subset_class")


def check_grid(a, F=ALL, orphans=False):
    gs = list(a)
    if "list" in F:
        same(len(a), len(gs), "grid: len")
        require(is_seq([a[i] for i in range(len(gs))], gs), "grid: indexing and iteration differ")
        require(is_seq(list(a.tier_groups), gs), "grid: tier_groups and iteration differ")
        same([[c.__name__ for c in ecs] for ecs in a.entry_classes], [[t.entry_class.__name__ for t in g] for g in gs], "grid: entry_classes")
    if "within" in F:
        require(is_seq(list(a.contains), gs), "grid: contains and groups differ")
        for i, g in enumerate(gs):
            require(g.within is a, f"grid: group {i} is not within the grid")
            same(g.within_index, i, f"grid: within_index of group {i}")
    byname = {}
    for i, g in enumerate(gs):
        if is_points(g):
            check_points_group(g, F, f"group {i}")
        else:
            check_group(g, F, orphans, f"group {i}")
        if "classes" in F:
            for t in g:
                c = byname.setdefault(t.entry_class.__name__, t.entry_class)
                require(c is t.entry_class, f"grid: two classes named {t.entry_class.__name__}")
                require(a.get_class_by_name(t.entry_class.__name__) is t.entry_class, f"grid: get_class_by_name({t.entry_class.__name__})")
    if "names" in F:
        gn = [g.name for g in gs]
        if len(set(gn)) == len(gn):
            for g in gs:
                require(getattr(a, g.name, None) is g, f"grid: .{g.name} is not the group of that name")
        else:
            for n in set(gn):
                require(not hasattr(a, n), f"grid: group names are duplicated, but .{n} is available")
    if "extent" in F:
        xs = [g for g in gs if g.xmin is not None]
        if xs:
            same(float(a.xmin), min(float(g.xmin) for g in xs), "grid: xmin")
            same(float(a.xmax), max(float(g.xmax) for g in xs), "grid: xmax")
    if "tiling" in F:
        ig = [g for g in gs if not is_points(g)]
        for g in ig[1:]:
            want([float(g.xmin), float(g.xmax)], [float(ig[0].xmin), float(ig[0].xmax)], "grid: extents of interval groups")
    if "ids" in F:
        check_ids(a, orphans)


def check_ids(a, orphans=False):
    seen = {}
    def visit(obj, path, what):
        same(list(obj.within_path), path, f"within_path of {what}")
        same(obj.id, "-".join(str(p) for p in path), f"id of {what}")
        require(obj.id not in seen, f"id {obj.id} names both {what} and {seen.get(obj.id)}")
        seen[obj.id] = what
        cur = a
        for p in path:
            cur = cur.contains[p]
        require(cur is obj, f"following the path {path} through contains does not lead to {what}")
        cur = a
        for p in path:
            cur = cur[p]
        require(cur is obj, f"following the path {path} by indexing does not lead to {what}")
    def down(x, path):
        for i, k in enumerate(x.contains):
            require(k.within is x, "an object's contents do not know their container")
            visit(k, path + [i], f"interval {show(k)}")
            down(k, path + [i])
    for gi, g in enumerate(a):
        visit(g, [gi], f"group {gi}")
        for ti, t in enumerate(g):
            visit(t, [gi, ti], f"tier {gi},{ti}")
            if ti == 0 or is_points(g):
                for k, x in enumerate(t):
                    visit(x, [gi, ti, k], f"entry {show(x)}")
                    if not is_points(g):
                        down(x, [gi, ti, k])
            else:
                require(len(t.contains) == 0, "a tier below the top directly contains intervals")
                for x in t:
                    up = x
                    while up.super_instance is not None: up = up.super_instance
                    if not (orphans and type(up) is not g[0].entry_class):
                        require(x.id in seen, f"interval {show(x)} of a lower tier is not reached from the top")


# ---------------------------------------------------------------- snapshots (identity level)

class Snap:
    """Everything observable about a set of roots (intervals, tiers, groups, grids), by identity; used to show that
    something did not change."""
    def __init__(self, *roots, times=True):
        self.roots, self.times = roots, times
        self.objs = []
        for r in roots:
            self._collect(r)
        self.data = [self._one(o) for o in self.objs]

    def _collect(self, r):
        if any(r is o for o in self.objs):
            return
        self.objs.append(r)
        if hasattr(r, "tier_groups"):
            for g in r: self._collect(g)
        elif hasattr(r, "tier_list"):
            for t in r: self._collect(t)
        elif hasattr(r, "sequence_list"):
            for x in r: self._collect(x)
        elif hasattr(r, "subset_list"):
            for x in r.subset_list: self._collect(x)

    def _ref(self, o):
        if o is None: return None
        for i, x in enumerate(self.objs):
            if x is o: return i
        return "#" if edge(o) else ("ext", id(o))

    def _one(self, o):
        if hasattr(o, "tier_groups"):
            return ("grid", [self._ref(g) for g in o])
        if hasattr(o, "tier_list"):
            return ("group", o.name, [self._ref(t) for t in o], self._ref(o.within))
        if hasattr(o, "sequence_list"):
            return ("tier", o.name, o.entry_class, getattr(o, "superset_class", None), getattr(o, "subset_class", None), [self._ref(x) for x in o], self._ref(o.within))
        base = (type(o), o.label, self._ref(o.prev), self._ref(o.fol), self._ref(o.intier))
        if hasattr(o, "subset_list"):
            return ("interval", o.start if self.times else None, o.end if self.times else None, base, self._ref(o.super_instance), [self._ref(x) for x in o.subset_list], self._ref(o.within), [self._ref(x) for x in o.contains])
        return ("point", o.time if self.times else None, base, self._ref(o.within) if hasattr(o, "within") else None)

    def unchanged(self, what):
        now = Snap(*self.roots, times=self.times)
        require(is_seq(now.objs, self.objs), f"{what}: the set of entries changed")
        for i, (x, y) in enumerate(zip(self.data, now.data)):
            if x != y:
                raise Violation(f"{what}: {x!r} became {y!r}")
