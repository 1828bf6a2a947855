"""C17: appending piece by piece equals building at once."""
import itertools
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M, c05

ASSUMPTIONS = ["lower intervals lie inside one upper interval or overlap none (disagreeing boundaries: C04)", "no two entries of a tier have the same start",
               "a tier is appended next to a tier already in the group (others are refused: C18)",
               "before cleanup only invariants of relations and order are compared in intermediate states; the final state is compared in full"]
F = G.ALL - {"tiling"}
NAMES = ["A", "B", "C", "D"]


def labelled(ts, scale, blanks=False):
    """Entries with distinct labels (or with some blanks)."""
    f = G.SCALES[scale]
    return [[(f(s), f(e), "" if blanks and (i + j) % 3 == 1 else f"{NAMES[j].lower()}{i}") for i, (s, e) in enumerate(t)] for j, t in enumerate(ts)]


def at_once(cs, ents, where):
    from aligned_textgrid import SequenceTier, TierGroup, AlignedTextGrid
    g = TierGroup([SequenceTier([c(e) for e in es], c) for c, es in zip(cs, ents)])
    if where == "grid":
        AlignedTextGrid([g])
    return g


def empty_group(cs, where, n=None):
    from aligned_textgrid import SequenceTier, TierGroup, AlignedTextGrid
    g = TierGroup([SequenceTier(entry_class=c) for c in cs])
    a = None
    if where == "grid":
        a = AlignedTextGrid(); a.append(g)
        require(a[0] is g, "the group appended to an empty grid is not its group")
    return g, a


def compare(g, cs, ents, objs, where, clean, what):
    """The group against the one built at once, and against the pieces."""
    ref = at_once(cs, ents, where)
    if clean:
        g.cleanup(); ref.cleanup()
    exp = [(c, v, p) for c, _, v, p in G.obs_group(ref)]
    got = [(c, v, p) for c, _, v, p in G.obs_group(g)]
    G.want(got, exp, what + ": tiers, entries and relations against the same built at once")
    given(g, ents, objs, what)
    G.check_group(g, F, orphans=not clean, what=what)


def given(g, ents, objs, what):
    for i, (es, os_) in enumerate(zip(ents, objs)):
        xs = list(g[i])
        for e, o in zip(es, os_):
            if e[2] == "" and any(G.close(list(G.show(x)), list(e)) for x in xs): continue     # an equal blank interval was there already
            require(sum(x is o for x in xs) == 1, f"{what}: the interval appended as {e} is not on tier {i}: {G.vals(g[i])}")
            G.want(list(G.show(o)), list(e), f"{what}: times and label of an appended interval")
        ids = {id(o) for o in os_}
        for x in xs:
            if id(x) not in ids: require(x.label == "", f"{what}: {G.show(x)} on tier {i} was never appended")


def step_ok(g, what, F=F):
    G.check_group(g, F, orphans=True, what=what)


def run_entries(case, rec):
    """Every entry by itself, to its tier."""
    from aligned_textgrid import custom_classes
    ts, scale, blanks, where, order = case
    cs = custom_classes(NAMES[:len(ts)])
    ents = labelled(ts, scale, blanks)
    objs = [[c(e) for e in es] for c, es in zip(cs, ents)]
    pieces = [(i, k) for i, t in enumerate(ts) for k in range(len(t))]
    g, a = empty_group(cs, where)
    for n in order:
        i, k = pieces[n]
        g[i].append(objs[i][k]); rec.step()
        step_ok(g, f"after appending {ents[i][k]}")
        require(any(x is objs[i][k] or ents[i][k][2] == "" and G.close(list(G.show(x)), list(ents[i][k])) for x in g[i]), f"after appending {ents[i][k]}: it is not on its tier")
        rec.state([G.vals(t) for t in g])
    w = f"{ents} appended in the order {[ents[pieces[n][0]][pieces[n][1]][2] for n in order]}"
    compare(g, cs, ents, objs, where, False, w)
    compare(g, cs, ents, objs, where, True, w + ", cleaned up")
    if a is not None: G.check_grid(a, G.ALL, orphans=False)


def parents(ents):
    out = []
    for up, low in zip(ents, ents[1:]):
        out.append([next((j for j, u in enumerate(up) if u[0] - 1e-9 <= l[0] and l[1] <= u[1] + 1e-9), None) for l in low])
    return out


def run_trees(case, rec):
    """Trees of intervals, appended through one of their intervals, or top first and children one by one."""
    from aligned_textgrid import custom_classes
    ts, scale, where, order, vias, have = case
    cs = custom_classes(NAMES[:len(ts)])
    bl = scale.endswith("+b")       # some labels are blank; the trees are then told apart by their times
    scale = scale.removesuffix("+b")
    ents = labelled(ts, scale, bl)
    par = parents(ents)
    objs = [[c(e) for e in es] for c, es in zip(cs, ents)]
    def descend(i, k):
        yield i, k
        if i + 1 < len(ents):
            for n, p in enumerate(par[i]):
                if p == k: yield from descend(i + 1, n)
    trees = [list(descend(0, k)) for k in range(len(ents[0]))]
    if sum(len(t) for t in trees) != sum(len(e) for e in ents): raise Skip()
    def link(tree):
        for i, k in tree:
            if i: objs[i - 1][par[i - 1][k]].append(objs[i][k])
    if have:       # the first tree is there from the beginning
        from aligned_textgrid import SequenceTier, TierGroup, AlignedTextGrid
        link(trees[0])
        g = TierGroup([SequenceTier([objs[i][k] for i, k in trees[0] if i == j], c) for j, c in enumerate(cs)])
        a = AlignedTextGrid([g]) if where == "grid" else None
        order = [n for n in order if n != 0]
    else:
        g, a = empty_group(cs, where)
    w = f"{ents} appended by trees in the order {order} via {vias}"
    for n in order:
        tree, via = trees[n], vias[n]
        if via == "children":
            g[0].append(objs[0][n]); rec.step(); step_ok(g, w)
            for i, k in tree[1:]:
                if i == 1 and len(ents) > 2:
                    for j, m in tree[1:]:
                        if j == 2 and par[1][m] == k: objs[1][k].append(objs[2][m])
                if i == 1:
                    if ents[1][k][2] == "" and any(G.close(list(G.show(x)), list(ents[1][k])) for x in g[1]): raise Skip()      # the same blank interval fills the gap already
                    objs[0][n].append(objs[1][k]); rec.step(); step_ok(g, w)
                    require(objs[1][k].super_instance is objs[0][n], w + ": the child appended does not have that superset")
                    require(any(x is objs[1][k] for x in g[1]), w + ": the child appended to an interval is not on the lower tier")
        else:
            link(tree)
            i, k = tree[{"top": 0, "second": min(1, len(tree) - 1), "last": len(tree) - 1}[via]]
            g[i].append(objs[i][k]); rec.step(); step_ok(g, w)
        for i, k in tree:
            require(any(x is objs[i][k] for x in g[i]), f"{w}: {ents[i][k]} is not on tier {i}")
            if i: require(objs[i][k].super_instance is objs[i - 1][par[i - 1][k]], f"{w}: the superset of {ents[i][k]} is {G.show(objs[i][k].super_instance)}")
        rec.state([G.vals(t) for t in g])
    compare(g, cs, ents, objs, where, True, w + ", cleaned up")
    if a is not None: G.check_grid(a, G.ALL, orphans=False)


def run_outer(case, rec):
    """The group has only the upper levels; what is appended has children below the lowest tier."""
    from aligned_textgrid import custom_classes
    ts, scale, where, order, vias, depth = case
    cs = custom_classes(NAMES[:len(ts)])
    ents = labelled(ts, scale)
    par = parents(ents)
    if any(p is None for ps in par for p in ps): raise Skip()
    objs = [[c(e) for e in es] for c, es in zip(cs, ents)]
    for i in range(1, len(ts)):
        for k, p in enumerate(par[i - 1]): objs[i - 1][p].append(objs[i][k])
    g, a = empty_group(cs[:depth], where)
    w = f"{ents} appended to {depth} tiers in the order {order} via {vias}"
    for n in order:
        i = min(vias[n], depth - 1)
        k = n
        for j in range(i):       # the first child, or the interval itself where there is none
            nxt = [m for m, p in enumerate(par[j]) if p == k]
            if not nxt: i = j; break
            k = nxt[-1]
        g[i].append(objs[i][k]); rec.step(); step_ok(g, w, frozenset(("list", "links", "intier")))
        for i in range(1, len(ts)):
            for k, p in enumerate(par[i - 1]):
                if i < depth and not any(x is objs[i][k] for x in g[i]): continue
                require(objs[i][k].super_instance is objs[i - 1][p], f"{w}: the superset of {ents[i][k]} is {G.show(objs[i][k].super_instance)}")
                require(sum(x is objs[i][k] for x in objs[i - 1][p].subset_list) == 1, f"{w}: {ents[i][k]} is not among the children of {ents[i - 1][p]}")
    given(g, ents[:depth], objs[:depth], w)
    rec.state([G.vals(t) for t in g])


def run_tiers(case, rec):
    """Tiers appended to a group of one tier."""
    from aligned_textgrid import SequenceTier, TierGroup, AlignedTextGrid, custom_classes
    ts, scale, where, order = case
    cs = custom_classes(NAMES[:len(ts)])
    ents = labelled(ts, scale)
    objs = [[c(e) for e in es] for c, es in zip(cs, ents)]
    tiers = [SequenceTier(list(o), c) for o, c in zip(objs, cs)]
    for i, t in enumerate(tiers): t.name = f"spk - {NAMES[i]}"
    g = TierGroup([tiers[order[0]]])
    a = AlignedTextGrid([g]) if where == "grid" else None
    for n in order[1:]:
        g.append(tiers[n]); rec.step()
        step_ok(g, f"after appending tier {n} of {ents}", F - (frozenset() if 0 in order[:order.index(n) + 1] else {"classes", "within"}))
    w = f"the tiers of {ents} appended in the order {order}"
    require(G.is_seq(list(g), tiers), w + ": the tiers appended are not the ones in the group")
    same([t.name for t in g], [f"spk - {NAMES[i]}" for i in range(len(ts))], w + ": tier names")
    compare(g, cs, ents, objs, where, False, w)
    compare(g, cs, ents, objs, where, True, w + ", cleaned up")
    if a is not None: G.check_grid(a, G.ALL, orphans=False)
    rec.state([G.vals(t) for t in g])


GRP = {
    "wp": M.g_i(M.WP, [[(0, 2), (2, 3)], [(0, 1), (1, 2), (2, 3)]], "spkA"),
    "wp2": M.g_i(M.WP, [[(0, 3)], [(0, 2), (2, 3)]], "spkB", 1),
    "wp-short": M.g_i(M.WP, [[(1, 2)], [(1, 2)]], "spkC", 2),
    "wp-gap": M.g_i(M.WP, [[(0, 1), (2, 3)], [(0, 1), (2, 3)]], "spkG", 2),
    "w": M.g_i(["Word"], [[(0, 1), (1, 3)]], "spkD", 1),
    "pt": M.g_p(["Pt"], [[1, 3]], "pta"),
    "pq": M.g_p(["Pt", "Qt"], [[0, 2], [1]], "ptb"),
}


def run_grid(case, rec):
    from aligned_textgrid import AlignedTextGrid
    keys, split = case
    model = [GRP[k] for k in keys]
    cls = M.class_objects([GRP["wp"], GRP["pq"]])
    mk = lambda: [M.loose_group(g, cls) for g in model]
    A = mk()
    objs = [[list(t) for t in g] for g in A]
    tiers = [list(g) for g in A]
    ref = AlignedTextGrid(mk())
    a = AlignedTextGrid(A[:split]) if split else AlignedTextGrid()
    for i, g in enumerate(A[split:], split):
        a.append(g); rec.step()
        same(len(a), i + 1, f"number of groups after appending {i - split + 1}")
        G.check_grid(a, F, orphans=True)
    w = f"groups {keys} with {split} at once and the others appended"
    require(G.is_seq(list(a), A), w + ": the groups of the grid are not the ones appended")
    for g, ts, os_ in zip(a, tiers, objs):
        require(G.is_seq(list(g), ts), w + ": the tiers are not the ones of the groups appended")
        for t, o in zip(g, os_): require(G.is_seq(list(t), o), w + ": the entries are not the ones of the groups appended")
    same(G.obs_grid(a), G.obs_grid(ref), w + ", against the grid built at once")
    a.cleanup(); ref.cleanup(); rec.step()
    same(G.obs_grid(a), G.obs_grid(ref), w + ", cleaned up, against the grid built at once")
    G.check_grid(a, G.ALL)
    rec.state(G.obs_grid(a))


def orders(k):
    """Orders in which every tier after the first is next to one already there."""
    out = []
    for p in itertools.permutations(range(k)):
        if all(min(abs(x - y) for y in p[:i]) == 1 for i, x in enumerate(p) if i): out.append(list(p))
    return out


def spaces(tier):
    q = tier == "quick"
    lim = 5 if q else 6
    N2 = [g for g in c05.nested(3, 2)]
    N2q = [g for g in c05.nested(2, 2)]
    N3 = [g for g in c05.nested(2, 3)]
    def size(g): return sum(len(t) for t in g)
    X = [[[[0, 2], [2, 5]], [[0, 1], [1, 2], [2, 3]]], [[[0, 1], [1, 2], [2, 3]], [[0, 1], [2, 3]]], [[[0, 3]], [[0, 1], [1, 2], [2, 3]]]]
    def g1():
        for wh in ("bare", "grid"):
            for sc in ("int", "frac", "whole"):
                for bl in (False, True):
                    src = (N2 if wh == "bare" and not bl else N2q) + N3 + X
                    for g in src:
                        if not g[0] or size(g) > (lim if sc == "int" else lim - 1) or q and bl and sc != "int" or size(g) > 4 and wh == "grid" and q: continue
                        for p in itertools.permutations(range(size(g))):
                            yield [g, sc, bl, wh, list(p)]
    def g2():
        T = [g for g in N2 + N3 if g[0]] + [[[[0, 2], [2, 3], [3, 4]], [[0, 1], [1, 2], [2, 3], [3, 4]]], [[[0, 2], [3, 5]], [[0, 2], [3, 5]], [[0, 1], [1, 2], [3, 4], [4, 5]]],
             [[[0, 3], [3, 4]], [[0, 2], [2, 3], [3, 4]], [[0, 1], [1, 2], [2, 3], [3, 4]]]]
        for wh in ("bare", "grid"):
            for have in (0, 1):
                for g in T:
                    n = len(g[0])
                    for o in itertools.permutations(range(n)):
                        for v in itertools.product(("top", "second", "last", "children"), repeat=n):
                            if q and n > 2 and (wh == "grid") == bool(have): continue
                            yield [g, "int", wh, list(o), list(v), have]
                            if n < 3 and not (q and wh == "grid"): yield [g, "frac", wh, list(o), list(v), have]
                            if n < 3: yield [g, "int+b", wh, list(o), list(v), have]
    def g3():
        N4 = [[[[0, 3], [3, 4]], [[0, 1], [1, 3], [3, 4]], [[0, 1], [1, 2], [2, 3], [3, 4]], [[0, 1], [1, 2], [2, 3], [3, 4]]], [[[0, 4]], [[0, 2], [3, 4]], [[0, 1], [3, 4]], [[0, 1]]]]
        for wh in ("bare", "grid"):
            for sc in ("int", "frac", "whole"):
                for k, src in ((2, N2), (3, c05.nested(3, 3) if not q else N3), (4, N4)):
                    for g in src:
                        if not g[0]: continue
                        for o in orders(k):
                            if wh == "bare" or o[0] == 0: yield [g, sc, wh, o]
    def g4():
        for n in (1, 2, 3):
            for ks in itertools.permutations(list(GRP), n):
                if n == 3 and q and "wp-gap" in ks: continue
                for sp in range(0, n): yield [list(ks), sp]
    def zig(n, m):       # several orders of n pieces of which the first m are of the first tier
        al = list(range(n))
        return [al, al[::-1], al[m:] + al[:m], al[m:][::-1] + al[:m], al[::2] + al[1::2], al[n // 2:] + al[:n // 2]]
    def g5():
        for k in (2, 3):
            for i, g in enumerate(G.large(k)):
                if k == 3 and q and i % 4: continue
                for j, o in enumerate(zig(size(g), len(g[0]))):
                    if q and (i + j) % 3: continue
                    yield [g, ("frac", "long")[i % 2], i % 4 == 3, ("bare", "grid")[j % 2], o]
    def g6():
        for k in (2, 3):
            for i, g in enumerate(G.large(k)):
                n = len(g[0])
                for j, o in enumerate(zig(n, 3)):
                    if q and (i + j) % 3: continue
                    V = ("top", "second", "last", "children")
                    yield [g, "frac", ("bare", "grid")[i % 2], o, [V[(m + i + j) % 4] for m in range(n)], (i // 2) % 2]
    def g7():
        for k in (2, 3, 4):
            for i, g in enumerate(G.large(k)):
                for o in orders(k):
                    if o[0] == 0 or i % 2 == 0: yield [g, ("frac", "long")[i % 2], "grid" if o[0] == 0 else "bare", o]
    def g10():
        for i, g in enumerate(G.huge()[::9]):
            for j, o in enumerate(zig(size(g), len(g[0]))[:4]):
                if (i + j) % 2 == 0: yield [g, "frac", False, ("bare", "grid")[i % 2], o]
    def g11():
        for i, g in enumerate(G.huge()[::6]):
            n = len(g[0])
            for j, o in enumerate(zig(n, 3)[:4]):
                if (i + j) % 2 == 0: yield [g, "frac", ("bare", "grid")[i % 2], o, [("top", "second", "last", "children")[(m + i + j) % 4] for m in range(n)], (i // 2) % 2]
    def g12():
        for k in (2, 3):
            for i, g in enumerate(G.huge(k)[::2]):
                for o in orders(k):
                    if (o[0] + i) % 2 == 0: yield [g, ("frac", "long")[i % 2], "grid" if o[0] == 0 else "bare", o]
    def g8():
        al = list(GRP)
        for n in (5, 6, 7):
            for r in range(7):
                ks = (al[r:] + al[:r])[:n]
                for sp in (0, 1, n - 1): yield [ks, sp]; yield [ks[::-1], sp]
    def g9():
        T = [g for g in N2 + N3 if g[0] and g[1]] + [[[[0, 2], [2, 3], [3, 4]], [[0, 1], [1, 2], [2, 3], [3, 4]]], [[[0, 2], [3, 5]], [[0, 2], [3, 5]], [[0, 1], [1, 2], [3, 4], [4, 5]]]]
        for wh in ("bare", "grid"):
            for g in T:
                for d in range(1, len(g)):
                    for o in itertools.permutations(range(len(g[0]))):
                        for v in itertools.product(range(d), repeat=len(g[0])): yield [g, "int", wh, list(o), list(v), d]
    return [Space("outer", "every order of appending trees to a group that lacks their lowest levels", g9, run_outer),
            Space("large-entries", "the entries of tiers of 9 and 18 intervals (three levels: 9, 12, 18), complete and with intervals missing, appended one by one in six orders", g5, run_entries),
            Space("large-trees", "nine trees of intervals appended in six orders", g6, run_trees), Space("large-tiers", "two, three or four tiers of up to 18 intervals appended in every order", g7, run_tiers),
            Space("huge-entries", "the entries of tiers of 128 and 256 intervals appended one by one in four orders", g10, run_entries),
            Space("huge-trees", "128 trees of intervals appended in four orders", g11, run_trees), Space("huge-tiers", "two or three tiers of up to 256 intervals appended in every order", g12, run_tiers),
            Space("many-groups", "five to seven groups appended one by one", g8, run_grid),
            Space("entries", f"every order of appending the entries of every nested configuration of 2 and 3 tiers with up to {lim} entries, one by one, to the empty tiers of a group, bare or in a grid", g1, run_entries),
            Space("trees", "every order of appending trees of intervals, each through its top, a child or its last descendant, or the top first and then its children; to an empty group or one that has the first tree", g2, run_trees),
            Space("tiers", "every order of appending the tiers of every nested configuration to a group", g3, run_tiers),
            Space("groups", "every selection and order of up to three groups, every split between building at once and appending", g4, run_grid)]
