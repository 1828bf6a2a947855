"""Histories of relation operations on loose intervals: a reference model and lock-step execution.

Universe: two or three upper intervals, three lower intervals. In the 'mid' universe the lower intervals are in the
middle of a three-level hierarchy and own children of their own, which no operation may disturb.
The model is a dict upper -> list of lowers ordered by start."""
import itertools
from . import grid as G
from .core import Violation, Skip, require, same

TIMES = {
    "zero": lambda i: (float(i), float(i + 1)),
    "neg": lambda i: (float(i - 2), float(i - 1)),
    "frac": lambda i: (3.0712345678 + 0.00071234567 * i, 3.0712345678 + 0.00071234567 * (i + 1)),
}
LABELS = ["a", "#", "a", ""]


class World:
    def __init__(self, universe, scale, n_up=2, n_low=3):
        from aligned_textgrid import Word, Phone, custom_classes
        self.alike = scale.endswith("=")           # all uppers have the same times and label
        T = TIMES[scale.rstrip("=")]
        self.kids = {}
        if universe == "wp":
            Up, Low, Sub = Word, Phone, None
        else:
            Up, Low, Sub = custom_classes(["Up", "Mid", "Sub"])
            if universe == "low":
                Up, Low, Sub = Low, Sub, None
        self.Up, self.Low = Up, Low
        per = (n_low + n_up - 1) // n_up
        self.up = [Up((T(per * i)[0], T(per * (i + 1))[0], LABELS[i % 4])) for i in range(n_up)]
        if self.alike:
            self.up = [Up((T(0)[0], T(n_low)[0], LABELS[0])) for i in range(n_up)]
        self.low = [Low(T(i) + (LABELS[i % 4],)) for i in range(n_low)]
        self.low_vals = [T(i) + (LABELS[i % 4],) for i in range(n_low)]
        if Sub is not None:
            for i in range(0, n_low, 2):
                s, e = T(i)
                m = (s + e) / 2
                ks = [Sub((s, m, "x")), Sub((m, e, "y"))]
                self.low[i].set_subset_list(ks)
                self.kids[i] = ks
        self.model = {u: [] for u in range(n_up)}      # indices of lowers, sorted
        self.up_vals = [(x.start, x.end, x.label) for x in self.up]
        for a, b in zip(self.up, self.up[1:]):
            a.set_fol(b)
        self.chain = list(range(n_up))                 # uppers alive, in order
        self.dead = set()                              # lowers fused away
        self.aliased = False
        self.gone = []                                 # lowers replaced by others

    # ---- model
    def parent(self, l):
        for u, ls in self.model.items():
            if l in ls:
                return u
        return None

    def m_remove(self, l):
        for ls in self.model.values():
            if l in ls:
                ls.remove(l)

    def m_put(self, u, l):
        if l in self.model[u]:
            return
        self.m_remove(l)
        self.model[u].append(l)
        self.model[u].sort(key=lambda i: self.low_vals[i][0])

    def m_set(self, u, ls):
        for l in list(self.model[u]):
            self.m_remove(l)
        for l in ls:
            self.m_put(u, l)

    # ---- operations: apply to implementation and model
    def apply(self, op):
        k = op[0]
        up, low = self.up, self.low
        if k == "twin":                # a child gives way to another of the same times and label
            _, u, l, how = op
            if u not in self.model or l not in self.model[u] or self.aliased:
                raise Skip()
            old, new = low[l], self.Low(self.low_vals[l])
            if how == "append":
                up[u].remove_from_subset_list(old)
                up[u].append(new)
            elif how == "super":
                old.remove_superset()
                new.set_super_instance(up[u])
            else:
                want = [new if i == l else low[i] for i in self.model[u]]
                if how == "assign":
                    up[u].subset_list = want
                else:
                    up[u].set_subset_list(want[::-1])
            low[l] = new
            self.kids.pop(l, None)
            self.gone.append(old)
            return
        if k in ("fuse_up_r", "fuse_up_l"):
            if self.aliased or self.alike or op[1] not in self.chain:
                raise Skip()
            i = self.chain.index(op[1]) + (1 if k == "fuse_up_r" else -1)
            if not 0 <= i < len(self.chain):
                raise Skip()        # fusing at an edge is refused: covered by C08
            o = self.chain[i]
            getattr(up[op[1]], "fuse_rightwards" if k == "fuse_up_r" else "fuse_leftwards")()
            a, b = (op[1], o) if k == "fuse_up_r" else (o, op[1])
            self.up_vals[op[1]] = (self.up_vals[a][0], self.up_vals[b][1], self.up_vals[a][2] + " " + self.up_vals[b][2])
            for l in self.model.pop(o):
                self.model[op[1]].append(l)
            self.model[op[1]].sort(key=lambda i: self.low_vals[i][0])
            self.chain.remove(o)
            return
        if k in ("fuse_low_r", "fuse_low_l"):
            p = self.parent(op[1])
            if op[1] in self.dead or p is None:
                raise Skip()
            i = self.model[p].index(op[1]) + (1 if k == "fuse_low_r" else -1)
            if not 0 <= i < len(self.model[p]):
                raise Skip()
            o = self.model[p][i]
            getattr(low[op[1]], "fuse_rightwards" if k == "fuse_low_r" else "fuse_leftwards")()
            a, b = (op[1], o) if k == "fuse_low_r" else (o, op[1])
            self.low_vals[op[1]] = (self.low_vals[a][0], self.low_vals[b][1], self.low_vals[a][2] + " " + self.low_vals[b][2])
            kids = self.kids.pop(a, []) + self.kids.pop(b, [])
            if kids:
                self.kids[op[1]] = kids
            self.model[p].remove(o)
            self.dead.add(o)
            return
        if k == "remove_superset":
            used = [op[1]]
        elif k in ("take_all", "assign_all"):
            used = []
            if op[2] not in self.model:
                raise Skip()
        else:
            used = op[2] if isinstance(op[2], list) else [op[2]]
        if any(l in self.dead for l in used) or (k != "remove_superset" and op[1] not in self.model):
            raise Skip()
        if k in ("add", "radd"):
            self.aliased = True
        if k == "append":
            up[op[1]].append(low[op[2]]); self.m_put(op[1], op[2])
        elif k == "append_subset_list":
            up[op[1]].append_subset_list(low[op[2]]); self.m_put(op[1], op[2])
        elif k == "set_super":
            if self.parent(op[2]) == op[1]:
                raise Skip()        # re-setting the same superset is refused or ignored: covered by C18
            low[op[2]].set_super_instance(up[op[1]]); self.m_put(op[1], op[2])
        elif k == "set_word":
            if self.parent(op[2]) == op[1]:
                raise Skip()
            low[op[2]].set_word(up[op[1]]); self.m_put(op[1], op[2])
        elif k == "set_subset_list":
            up[op[1]].set_subset_list([low[i] for i in op[2]]); self.m_set(op[1], op[2])
        elif k == "set_phones":
            up[op[1]].set_phones([low[i] for i in op[2]]); self.m_set(op[1], op[2])
        elif k == "assign":
            up[op[1]].subset_list = [low[i] for i in op[2]]; self.m_set(op[1], op[2])
        elif k == "take_all":          # hand over the live list of another superset
            ls = list(self.model[op[2]])
            up[op[1]].set_subset_list(up[op[2]].subset_list)
            self.m_set(op[1], ls)
        elif k == "assign_all":
            ls = list(self.model[op[2]])
            up[op[1]].subset_list = up[op[2]].subset_list
            self.m_set(op[1], ls)
        elif k == "iadd":
            ls = [i for i in op[2]]
            up[op[1]].subset_list += [low[i] for i in ls]
            for i in ls:
                self.m_put(op[1], i)
        elif k == "remove_superset":
            low[op[1]].remove_superset(); self.m_remove(op[1])
        elif k == "remove_from":
            up[op[1]].remove_from_subset_list(low[op[2]])
            if op[2] in self.model[op[1]]:
                self.m_remove(op[2])
        elif k == "pop":
            up[op[1]].pop(low[op[2]])
            if op[2] in self.model[op[1]]:
                self.m_remove(op[2])
        elif k == "add":               # the documented idiom: the sum replaces the superset
            up[op[1]] = up[op[1]] + low[op[2]]; self.m_put(op[1], op[2])
        elif k == "radd":
            if self.parent(op[2]) == op[1]:
                raise Skip()        # '+' makes an alias; adding what is already there is outside the domain
            low[op[2]] = low[op[2]] + up[op[1]]; self.m_put(op[1], op[2])
        else:
            raise AssertionError(k)

    # ---- observations
    def check_membership(self):
        for u, ls in self.model.items():
            U = self.up[u]
            want = [self.low[l] for l in ls]
            got = list(U.subset_list)
            if not (len(got) == len(want) and all(g is w for g, w in zip(got, want))):
                raise Violation(f"subset list of upper {u}: got {self.names(got)}, expected lowers {ls}")
            same(len(U), len(want), f"len of upper {u}")
            same(sum(1 for _ in U for _ in U), len(want) ** 2, f"steps of a loop within a loop over upper {u}")
            for how, seq in (("iteration", [x for x in U]), ("indexing", [U[i] for i in range(len(want))]), ("contains", list(U.contains))):
                if not (len(seq) == len(want) and all(g is w for g, w in zip(seq, want))):
                    raise Violation(f"{how} of upper {u}: got {self.names(seq)}, expected lowers {ls}")
            same([float(x) for x in U.sub_starts], [self.low_vals[l][0] for l in ls], f"sub_starts of upper {u}")
            same([float(x) for x in U.sub_ends], [self.low_vals[l][1] for l in ls], f"sub_ends of upper {u}")
            same(list(U.sub_labels), [self.low_vals[l][2] for l in ls], f"sub_labels of upper {u}")
            if want:
                require(U.first is want[0] and U.last is want[-1], f"first/last of upper {u}")
            require(U.super_instance is None, f"upper {u} got a super instance")
            for l, x in enumerate(self.low):
                if l in self.dead:
                    continue
                same(x in U, l in ls, f"lower {l} in upper {u}")
                if l in ls:
                    same(U.index(x), ls.index(l), f"index of lower {l} in upper {u}")
        for u in self.chain:
            U = self.up[u]
            same((U.start, U.end, U.label), self.up_vals[u], f"values of upper {u}")
        for l, x in enumerate(self.low):
            if l in self.dead:
                require(x.super_instance is None and x.within is None, f"fused-away lower {l} still has a superset")
                continue
            p = self.parent(l)
            want = None if p is None else self.up[p]
            require(x.super_instance is want, f"super instance of lower {l}: got {x.super_instance!r}, expected upper {p}")
            require(x.within is want, f"within of lower {l}: got {x.within!r}, expected upper {p}")
            same(x.within_index, None if p is None else self.model[p].index(l), f"within_index of lower {l}")
            if hasattr(x, "inword"):
                require(x.inword is want, f"inword of lower {l}")
            same((x.start, x.end, x.label), self.low_vals[l], f"values of lower {l}")
            kids = self.kids.get(l, [])
            got = list(x.subset_list)
            require(len(got) == len(kids) and all(g is w for g, w in zip(got, kids)), f"children of lower {l} changed")
            require(all(k.super_instance is x for k in kids), f"super instance of the children of lower {l} changed")
            if not self.aliased:
                require(all(k.within is x for k in kids), f"within of the children of lower {l} changed")

        for x in self.gone:
            require(x.super_instance is None and x.within is None, "a replaced child still has a superset")

    def check_links(self):
        for x in self.gone:
            require(G.edge(x.prev) and G.edge(x.fol), "a replaced child still has neighbours")
        for u, ls in self.model.items():
            xs = [self.low[l] for l in ls]
            check_chain(xs, f"children of upper {u}")
        if not self.aliased:
            check_chain([self.up[u] for u in self.chain], "linked uppers")
        for l in range(len(self.low)):
            if l in self.dead:
                continue
            if self.parent(l) is None:
                for side in ("prev", "fol"):
                    n = getattr(self.low[l], side)
                    require(G.edge(n), f"lower {l} has no superset but its {side} is {n!r}")
            if l in self.kids:
                check_chain(self.kids[l], f"children of lower {l}")

    def names(self, xs):
        return [next((i for i, x in enumerate(self.low) if x is y), repr(y)) for y in xs]

    def canon(self):
        return (tuple((u, tuple(v)) for u, v in self.model.items()), tuple(self.low_vals), tuple(sorted(self.dead)))


def check_chain(xs, what):
    for i, x in enumerate(xs):
        p, f = x.prev, x.fol
        if i == 0:
            require(G.edge(p), f"{what}: first entry is preceded by {p!r}, expected a '#' boundary")
        else:
            require(p is xs[i - 1], f"{what}: entry {i} is preceded by {p!r}, expected entry {i-1}")
        if i == len(xs) - 1:
            require(G.edge(f), f"{what}: last entry is followed by {f!r}, expected a '#' boundary")
        else:
            require(f is xs[i + 1], f"{what}: entry {i} is followed by {f!r}, expected entry {i+1}")


def subsets(n, orders=True):
    out = []
    for r in range(n + 1):
        for c in itertools.combinations(range(n), r):
            out.append(list(c))
            if orders and r == n:
                out += [list(p) for p in itertools.permutations(c) if list(p) != list(c)]
            elif orders and r == 2:
                out.append(list(c)[::-1])
    return out


def full_menu(universe, n_up=2, n_low=3):
    m = []
    pairs = [(u, l) for u in range(n_up) for l in range(n_low)]
    for k in ("append", "set_super", "append_subset_list", "remove_from", "pop"):
        m += [[k, u, l] for u, l in pairs]
    m += [["remove_superset", l] for l in range(n_low)]
    for k in ("set_subset_list", "assign"):
        m += [[k, u, s] for u in range(n_up) for s in subsets(n_low)]
    m += [["iadd", u, s] for u in range(n_up) for s in subsets(n_low, False) if len(s) > 1]
    m += [[k, u, v] for k in ("take_all", "assign_all") for u in range(n_up) for v in range(n_up) if u != v]
    m += [["add", u, l] for u, l in pairs] + [["radd", u, l] for u, l in pairs]
    m += [[k, u] for k in ("fuse_up_r", "fuse_up_l") for u in range(n_up)]
    m += [[k, l] for k in ("fuse_low_r", "fuse_low_l") for l in range(n_low)]
    if universe == "wp":
        m += [["set_word", u, l] for u, l in pairs] + [["set_phones", u, s] for u in range(n_up) for s in subsets(n_low, False)]
    return m


def core_menu(n_up=2, n_low=3):
    m = []
    pairs = [(u, l) for u in range(n_up) for l in range(n_low)]
    m += [["append", u, l] for u, l in pairs]
    m += [["set_super", u, l] for u, l in pairs]
    m += [["remove_superset", l] for l in range(n_low)]
    m += [["pop", u, l] for u, l in pairs]
    m += [["assign", u, s] for u in range(n_up) for s in ([2, 0], [1])]
    m += [["add", u, 1] for u in range(n_up)] + [["take_all", 0, 1], ["take_all", 1, 0]]
    m += [["fuse_up_r", 0], ["fuse_up_l", 1], ["fuse_low_r", 0], ["fuse_low_l", 2]]
    return m


def twin_space(tier, run):
    from .core import Space
    tw = [["twin", u, l, how] for u in (0, 1) for l in (0, 1, 2) for how in ("append", "super", "assign", "set")]
    def g():
        for un in ("wp", "mid", "low"):
            for init in initial_assignments():
                for t in tw:
                    if init[t[2]] == t[1]:
                        yield [un, "zero", 2, 3, list(init), [t]]
                        for t2 in tw: yield [un, "zero", 2, 3, list(init), [t, t2]]
                        if un == "low": continue
                        for o in core_menu():
                            yield [un, "zero", 2, 3, list(init), [t, o]]
                for o in core_menu():
                    if un == "mid" or tier == "thorough":
                        for t in tw: yield [un, "zero", 2, 3, list(init), [o, t]]
    return Space("replaced", "every replacement of a child by another of the same times and label, in four ways, from each of the 27 assignments, before and after every operation of the core menu", g, run)


def alike_space(tier, run):
    from .core import Space
    def g():
        for un in ("wp", "mid", "low"):
            menu = [o for o in full_menu(un) if not o[0].startswith("fuse_up")]
            for init in initial_assignments():
                for o in menu:
                    yield [un, "zero=", 2, 3, list(init), [o]]
                if un == "low" and tier == "quick": continue
                for o in core_menu():
                    for p in core_menu():
                        if o[0].startswith("fuse_up") or p[0].startswith("fuse_up"): continue
                        if tier == "quick" and sum(init) % 2: continue
                        yield [un, "zero=", 2, 3, list(init), [o, p]]
    return Space("alike", "two supersets of the same times and label: every operation from each of the 27 assignments, and pairs of operations of the core menu", g, run)


def initial_assignments(n_up=2, n_low=3):
    return list(itertools.product(range(-1, n_up), repeat=n_low))


def run_history(case, rec, check):
    universe, scale, n_up, n_low, init, ops = case
    w = World(universe, scale, n_up, n_low)
    for u in range(n_up):
        ls = [l for l in range(n_low) if init[l] == u]
        if ls:
            w.apply(["assign", u, ls])
    check(w)
    rec.state((universe, w.canon()))
    for op in ops:
        try:
            w.apply(op)
        except Skip:
            raise
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{op} raised {type(e).__name__}: {e}")
        rec.step()
        try:
            check(w)
        except Violation as e:
            raise Violation(f"after {op}: {e}")
        rec.state((universe, w.canon()))


def gen_histories(universes, scales, menu_of, depth, inits, n_up=2, n_low=3):
    def g():
        for d in range(1, depth + 1):
            for un in universes:
                menu = menu_of(un)
                for sc in scales:
                    for init in inits:
                        for ops in itertools.product(menu, repeat=d):
                            yield [un, sc, n_up, n_low, list(init), list(ops)]
    return g


def big_menu(universe, n_up=3, n_low=11):
    """Operations on many children: single ones by every method, and lists of them in several orders."""
    m = []
    al = list(range(n_low))
    orders = [al, al[::-1], al[::2] + al[1::2], al[3:] + al[:3], al[1::2][::-1], al[5:], [10, 0, 5]]
    for u in range(n_up):
        for l in al:
            m += [[k, u, l] for k in ("append", "set_super", "append_subset_list", "remove_from", "pop", "add")]
        m += [[k, u, o] for k in ("assign", "set_subset_list", "iadd") for o in orders]
        m += [["assign", u, [i for i in al if i != l]] for l in al]
        m += [[k, u, v] for k in ("take_all", "assign_all") for v in range(n_up) if v != u]
        m += [["fuse_up_r", u], ["fuse_up_l", u]]
    for l in al:
        m += [["remove_superset", l], ["fuse_low_r", l], ["fuse_low_l", l]]
    if universe == "wp":
        m += [["set_word", u, l] for u in range(n_up) for l in al] + [["set_phones", u, o] for u in range(n_up) for o in orders]
    return m


BIG_INITS = [[0] * 11, [0] * 6 + [1] * 3 + [2] * 2, [i % 3 for i in range(11)], [-1] * 11, [0] * 10 + [-1], [1] * 5 + [-1] + [1] * 5]


def big_space(tier, run):
    from .core import Space
    return Space("large", "every operation (single children by every method; lists of children in 7 orders and with each one missing) on 11 intervals and 3 supersets from 6 assignments",
                 gen_histories(["wp", "mid"], ["zero", "frac"] if tier == "thorough" else ["frac"], lambda un: big_menu(un), 1, BIG_INITS, 3, 11), run)
