"""Histories on one sequence list or one standalone tier, in lock-step with a sorted list of entries."""
import itertools
from .core import Violation, Skip, require, same
from . import grid as G

SC = {"int": lambda i: float(i), "whole": lambda i: i, "neg": lambda i: float(i) - 2.0, "frac": lambda i: 3.0712345678 + 0.00071234567 * i}
LAB = ["a", "#", "a", "", "c"]
# scales at which several entries start at one time (labels are then different): pairs, and all of them
TIE = {"tie2": lambda i: float((i + 1) // 2), "tie": lambda i: 1.0 if i < 9 else float(i)}


class Uni:
    """n entries at the positions 0, 1, 2 ... (with a gap after position 1), and fresh material to add."""
    def __init__(self, kind, scale, n=4):
        from aligned_textgrid import Word, Phone, SequenceInterval, custom_classes
        self.kind, self.n, self.tie = kind, n, scale in TIE
        self.f = TIE[scale] if self.tie else SC[scale]
        self.iv = kind.endswith("I")
        if self.iv:
            self.cls = Word if n % 2 == 0 else SequenceInterval
            self.base = SequenceInterval
        else:
            self.cls = custom_classes(["Pt"], points=[0])[0]
            from aligned_textgrid import SequencePoint
            self.base = SequencePoint
        self.objs = [self.mk(self.val(i)) for i in range(n)]
        self.vals = {id(o): self.val(i) for i, o in enumerate(self.objs)}
        self.keep = list(self.objs)
        self.items = []
        self.fresh = 0

    def val(self, i):
        p = i if i < 2 else i + 1
        if self.tie:
            l = "" if i == 3 else f"l{i}"
            return (self.f(p), self.f(p) + (1.0 if i % 2 else 2.0), l) if self.iv else (self.f(p), l)
        return (self.f(p), self.f(p + 1), LAB[i % 5]) if self.iv else (self.f(p), LAB[i % 5])

    def mk(self, v, base=False):
        return (self.base if base else self.cls)(tuple(v))

    def key(self, o):
        return self.vals[id(o)][0]

    def put(self, o):
        if any(o is x for x in self.items):
            return
        if not self.tie and any(abs(self.key(x) - self.key(o)) < 1e-9 for x in self.items):
            raise Skip()
        self.items.append(o)
        self.items.sort(key=self.key)

    def order(self, got):
        """The order of entries that start at the same time is not specified: take the one found."""
        if self.tie:
            at = {id(o): i for i, o in enumerate(got)}
            self.items.sort(key=lambda o: (round(self.key(o), 9), at.get(id(o), -1)))

    def more(self, k, at, base=False, lab="n"):
        """k new entries one after the other from time at."""
        out = []
        for i in range(k):
            self.fresh += 1
            d = 1.0 if self.tie and self.iv else self.f(1) - self.f(0)
            v = (at + i * d, at + (i + 1) * d, f"{lab}{self.fresh}") if self.iv else (at + i * d, f"{lab}{self.fresh}")
            o = self.mk(v, base)
            self.vals[id(o)] = v
            self.keep.append(o)
            out.append(o)
        return out

    def twin(self, op):
        """An entry gives way to another of the same values."""
        old = self.objs[op[1]]
        if self.tie or not any(old is x for x in self.items):
            raise Skip()
        new = self.mk(self.vals[id(old)])
        self.vals[id(new)] = self.vals[id(old)]
        self.keep.append(new)
        self.objs[op[1]] = new
        self.items = [new if x is old else x for x in self.items]
        return old, new

    def shift_vals(self, os_, inc):
        for o in os_:
            v = self.vals[id(o)]
            self.vals[id(o)] = tuple([x + inc for x in v[:-1]] + [v[-1]])

    def end(self):
        if not self.items:
            return 0.0
        return max((self.vals[id(o)][1] if self.iv else self.vals[id(o)][0]) for o in self.items)


class ListUni(Uni):
    def __init__(self, kind, scale, init, n=4):
        super().__init__(kind, scale, n)
        from aligned_textgrid.sequence_list import SequenceList
        self.L = SequenceList(*[self.objs[i] for i in init])
        for i in init:
            self.put(self.objs[i])

    def apply(self, op):
        k = op[0]
        L = self.L
        if k == "twin":
            old, new = self.twin(op)
            getattr(L, op[2])(old)
            L.append(new)
            return
        if k == "append":
            L.append(self.objs[op[1]]); self.put(self.objs[op[1]])
        elif k == "iadd":
            self.L += [self.objs[i] for i in op[1]]
            for i in op[1]: self.put(self.objs[i])
        elif k == "add":
            old = list(L)
            self.L = L + [self.objs[i] for i in op[1]]
            require(G.is_seq(list(L), old), "adding to a list changed the left operand")
            for i in op[1]: self.put(self.objs[i])
        elif k == "addlist":
            from aligned_textgrid.sequence_list import SequenceList
            other = SequenceList(*[self.objs[i] for i in op[1]])
            n = list(other)
            self.L = L + other
            require(G.is_seq(list(other), n), "adding lists changed the right operand")
            for i in op[1]: self.put(self.objs[i])
        elif k in ("remove", "pop"):
            o = self.objs[op[1]]
            if not any(o is x for x in self.items):
                if k == "remove":
                    raise Skip()
                L.pop(o)
                return
            getattr(L, k)(o)
            self.items = [x for x in self.items if x is not o]
        elif k == "concat":
            new = self.more(op[1], 0.0 if self.iv else 0.5)
            e = self.end()
            L.concat(new if op[2] == "list" else type(L)(*new))
            self.shift_vals(new, e)
            for o in new: self.put(o)
        elif k == "append_shift":
            if not self.items or (self.tie and self.iv):     # the end of the last entry need not be the end of the list
                raise Skip()
            new = self.more(1, 0.0 if self.iv else 0.5)
            e = self.end()
            L.append(new[0], shift=True)
            self.shift_vals(new, e)
            self.put(new[0])
        elif k == "append_base":     # an entry of the general class becomes one of the list's class
            new = self.more(1, self.f(9 + 2 * self.fresh), base=True)
            if not self.items:
                raise Skip()
            L.append(new[0]); self.put(new[0])
        else:
            raise AssertionError(k)

    def check(self):
        self.order(list(self.L))
        L, it = self.L, self.items
        require(G.is_seq(list(L), it), f"list has {[G.show(x) for x in L]}, expected {[self.vals[id(x)] for x in it]}")
        same(len(L), len(it), "len")
        require(G.is_seq([L[i] for i in range(len(it))], it), "indexing")
        for i, o in enumerate(it):
            G.want(list(G.show(o)), list(self.vals[id(o)]), "values of an entry")
            same(L.index(o), i, "index")
            require(type(o) is type(it[0]), "entries of several classes")
        for o in self.objs:
            same(o in L, any(o is x for x in it), f"membership of {G.show(o)}")
        for o in it[:1] + it[-1:]:         # entries that are nearly the same are not in the list
            e = G.show(o)
            for n in ([(e[0], e[1] + 0.25, e[2]), (e[0] - 0.25, e[1], e[2]), (e[0], e[1], e[2] + "~")] if self.iv else [(e[0] + 0.25, e[1]), (e[0], e[1] + "~")]):
                if not any(G.close(G.show(x), n) for x in it): same(type(o)(n) in L, False, f"membership of {n}")
        same([float(x) for x in L.starts], [float(G.show(x)[0]) for x in it], "starts")
        same([float(x) for x in L.ends], [float(G.show(x)[1 if self.iv else 0]) for x in it], "ends")
        same(list(L.labels), [x.label for x in it], "labels")
        if it:
            require(L.entry_class is type(it[0]), f"entry_class {L.entry_class} of a list of {type(it[0])}")

    def canon(self):
        return (self.kind, [self.vals[id(x)] for x in self.items])


class TierUni(Uni):
    def __init__(self, kind, scale, init, how="objs", n=4):
        super().__init__(kind, scale, n)
        from aligned_textgrid import SequenceTier, SequencePointTier
        from aligned_textgrid.sequence_list import SequenceList
        from praatio.utilities.constants import Interval, Point
        from praatio.data_classes.interval_tier import IntervalTier
        from praatio.data_classes.point_tier import PointTier
        self.T = SequenceTier if self.iv else SequencePointTier
        os_ = [self.objs[i] for i in init]
        raw = [Interval(*self.val(i)) if self.iv else Point(*self.val(i)) for i in init]
        if how == "objs":
            self.t = self.T(os_, self.cls)
        elif how == "infer":
            self.t = self.T(os_)
            if not os_:
                raise Skip()
        elif how == "list":
            self.t = self.T(SequenceList(*os_), self.cls)
        elif how == "raw":
            self.t = self.T(raw, self.cls)
        elif how == "praatio":
            if not raw or min(r[0] for r in raw) < 0:
                raise Skip()
            self.t = self.T((IntervalTier if self.iv else PointTier)("nm", sorted(raw)), self.cls)
            same(self.t.name, "nm", "tier name")
        elif how == "tier":
            self.t = self.T(self.T(os_, self.cls), self.cls)
        if how in ("raw", "praatio"):
            require(len(self.t) == len(init), f"the new tier has {len(self.t)} entries, expected {len(init)}")
            todo = sorted(init)
            for o in self.t:
                i = next((i for i in todo if self.val(i)[-1] == o.label), todo[0]) if self.tie else todo[0]
                todo.remove(i)
                self.objs[i] = o
                self.vals[id(o)] = self.val(i)
                self.keep.append(o)
        for i in init:
            self.put(self.objs[i])

    def apply(self, op):
        k, t = op[0], self.t
        if k == "twin":
            old, new = self.twin(op)
            if op[2] == "assign":
                t.sequence_list = list(self.items)[::-1]
            elif hasattr(t, "pop"):
                t.pop(old)
                t.append(new)
            else:
                raise Skip()
            return
        if k == "append":
            t.append(self.objs[op[1]]); self.put(self.objs[op[1]])
        elif k == "append_base":
            new = self.more(1, self.f(9 + 2 * self.fresh), base=True)
            t.append(new[0]); self.put(new[0])
        elif k == "iadd":
            t.sequence_list += [self.objs[i] for i in op[1]]
            for i in op[1]: self.put(self.objs[i])
        elif k == "assign":
            t.sequence_list = [self.objs[i] for i in op[1]]
            self.items = []
            for i in op[1]: self.put(self.objs[i])
        elif k == "pop":
            o = self.objs[op[1]]
            if not hasattr(t, "pop") or not any(o is x for x in self.items):
                raise Skip()
            t.pop(o)
            self.items = [x for x in self.items if x is not o]
        elif k in ("concat", "add"):
            if not self.items:
                raise Skip()
            at = 0.0 if k == "concat" else self.f(9 + 2 * self.fresh)
            if k == "concat" and not self.iv:
                at = 0.5
            new = self.more(op[1], at)
            other = self.T(new, self.cls)
            e = self.end()
            if k == "concat":
                t.concat(other)
                self.shift_vals(new, e)
            else:
                self.t = t + other
                self.other = (t, list(t))
            for o in new: self.put(o)
        elif k == "rename":
            t.name = "renamed"
        elif k == "times":
            if self.iv:
                t.starts = [x + 0.25 for x in t.starts]
                t.ends = [x + 0.25 for x in t.ends]
            else:
                t.times = [x + 0.25 for x in t.times]
            self.shift_vals(self.items, 0.25)
        elif k == "retier":
            self.t = self.T(t, self.cls)
        elif k == "cleanup":
            if not self.iv or not self.items:
                raise Skip()
            before = list(t)
            t.cleanup()
            for o in t:
                if not any(o is x for x in before):
                    self.keep.append(o)
                    self.vals[id(o)] = G.show(o)
                    self.put(o)
        else:
            raise AssertionError(k)

    def check(self, F=G.ALL):
        self.order(list(self.t))
        t, it = self.t, self.items
        require(G.is_seq(list(t), it), f"tier has {[G.show(x) for x in t]}, expected {[self.vals[id(x)] for x in it]}")
        for o in it:
            G.want(list(G.show(o)), list(self.vals[id(o)]), "values of an entry")
        if "list" in F:
            for o in self.objs:
                same(o in t, any(o is x for x in it), f"membership of {G.show(o)}")
        G.check_standalone(t, F)

    def canon(self):
        return (self.kind, [self.vals[id(x)] for x in self.items])


def list_menu(iv, n=4, tw=True):
    m = [["append", i] for i in range(n)] + [["remove", i] for i in range(n)] + [["pop", i] for i in range(n)]
    for k in ("iadd", "add", "addlist"):
        m += [[k, list(c)] for c in ([1, 0], [n - 1, 0, 1], [2], list(range(n)))]
    m += [["twin", i, how] for i in range(n) for how in ("remove", "pop")] if tw else []
    m += [["concat", 1, "list"], ["concat", 2, "list"], ["concat", 2, "seq"], ["append_shift"], ["append_base"]]
    return m


def tier_menu(iv, n=4, tw=True):
    m = [["append", i] for i in range(n)]
    if iv:
        m += [["pop", i] for i in range(n)] + [["cleanup"]]
    m += [["iadd", list(c)] for c in ([1, 0], [3, 0, 2])] + [["assign", list(c)] for c in ([2, 0], [3, 1, 0], [])]
    m += [["twin", i, how] for i in range(n) for how in (("assign", "pop") if iv else ("assign",))] if tw else []
    m += [["concat", 1], ["concat", 2], ["add", 2], ["append_base"], ["times"], ["retier"], ["rename"]]
    return m


def inits(n=4, perms=True):
    out = []
    for r in range(n + 1):
        for c in itertools.combinations(range(n), r):
            out.append(list(c))
            if perms and r >= 2:
                out += [list(p) for p in itertools.permutations(c) if list(p) != list(c)]
    return out


def run_list(case, rec):
    kind, scale, n, init, ops = case
    u = ListUni(kind, scale, init, n)
    play(u, ops, rec, u.check)


def run_tier(case, rec, F=G.ALL):
    kind, scale, n, init, how, ops = case
    u = TierUni(kind, scale, init, how, n)
    play(u, ops, rec, lambda: u.check(F))


def play(u, ops, rec, check):
    check()
    rec.state(u.canon())
    for op in ops:
        u.apply(op)
        rec.step()
        try:
            check()
        except Violation as e:
            raise Violation(f"after {op}: {e}")
        rec.state(u.canon())


def gen_list(kinds, scales, inits_, depth, n=4):
    def g():
        for d in range(depth + 1):
            for k in kinds:
                for sc in scales:
                    for i in inits_:
                        for ops in itertools.product(list_menu(k.endswith("I"), n, d < 3), repeat=d):
                            yield [k, sc, n, i, [list(o) for o in ops]]
    return g


def gen_tier(kinds, scales, inits_, hows, depth, n=4):
    def g():
        for d in range(depth + 1):
            for k in kinds:
                for sc in scales:
                    for i in inits_:
                        for h in hows:
                            for ops in itertools.product(tier_menu(k.endswith("I"), n, d < 3), repeat=d):
                                yield [k, sc, n, i, h, [list(o) for o in ops]]
    return g


TH = ["objs", "infer", "list", "raw", "praatio", "tier"]


def big_inits(n=13):
    al = list(range(n))
    out = [al, al[::-1], al[::2] + al[1::2], al[1::2] + al[::2], al[5:] + al[:5], al[:5][::-1] + al[5:]]
    if n > 100:
        return out[:3] + [al[:101], [i for i in al if i not in (0, 99, n - 1)]]
    return out + [[i for i in al if i != k] for k in al] + [[i for i in al if i not in (k, k + 1)][::-1] for k in al]


def big_menu(iv, n=13, lists=False):
    al = list(range(n))
    ps = al if n < 100 else [0, 1, n // 2, 99, 100, 101, n - 2, n - 1]
    m = [["append", i] for i in ps] + [["iadd", o] for o in ([12, 0, 6], al[::-1])] + [["concat", 5] + (["list"] if lists else []), ["append_base"]]
    if lists:
        return m + [[k, i] for k in ("remove", "pop") for i in ps] + [["add", al[::2]], ["addlist", al[1::2]], ["append_shift"]]
    if iv: m += [["pop", i] for i in ps] + [["cleanup"]]
    return m + [["assign", al[::-1]], ["assign", al[::3]], ["add", 5], ["times"], ["retier"], ["rename"]]


def gen_big(kinds, scales, hows, lists=False, n=13):
    def g():
        for k in kinds:
            for sc in scales:
                for ini in big_inits(n):
                    for h in (hows or [None]):
                        for ops in [[]] + [[o] for o in big_menu(k.endswith("I"), n, lists)]:
                            yield [k, sc, n, ini, ops] if lists else [k, sc, n, ini, h, ops]
    return g


def tier_spaces(tier, F, kinds=("tier-I", "tier-P")):
    from .core import Space
    run = lambda c, r: run_tier(c, r, F)
    S = [Space("tier-build", "standalone tiers of up to 4 entries given in every order, built in 6 ways, then every operation; 3 time scales",
               gen_tier(kinds, list(SC), inits(), TH, 0), run),
         Space("tier-1", "every tier operation on every selection of 4 entries; 6 ways of building", gen_tier(kinds, list(SC), inits(4, False), TH, 1), run),
         Space("tier-2", "every pair of tier operations from every selection of 4 entries", gen_tier(kinds, ["int"], inits(4, False), ["objs", "raw"], 2), run)]
    S.append(Space("tier-large", "tiers of up to 13 entries in several orders, with each entry or two neighbours missing, then every operation", gen_big(kinds, ["frac"], ["objs", "raw"] if tier == "quick" else TH), run))
    S.append(Space("tier-huge", "tiers of up to 130 entries, then operations at eight places", gen_big(kinds, ["frac"], ["objs", "raw"], n=130), run))
    S.append(Space("tier-ties", "point tiers in which two or all points are at one time, in every order, built in 6 ways, then every operation or pair of operations",
                   lambda: (c for g in (gen_tier(["tier-P"], list(TIE), inits(), TH, 1), gen_tier(["tier-P"], list(TIE), inits(4, False), ["objs"], 2)) for c in g()), run))
    if tier == "thorough":
        S.append(Space("tier-3", "every triple of tier operations from 4 tiers", gen_tier(kinds, ["int"], [[], [0], [1, 3], [0, 1, 2, 3]], ["objs", "raw"], 3), run))
        S.append(Space("tier-2-all", "every pair of tier operations from every selection of 4 entries", gen_tier(kinds, list(SC), inits(4, False), ["objs", "praatio"], 2), run))
    return S


def list_spaces(tier, kinds=("list-I", "list-P")):
    from .core import Space
    S = [Space("list-1", "every list operation on lists of up to 4 entries given in every order; 3 time scales", gen_list(kinds, list(SC), inits(), 1), run_list),
         Space("list-2", "every pair of list operations from 6 lists", gen_list(kinds, ["int", "neg"], [[], [0], [2], [1, 3], [2, 0], [0, 1, 2, 3]], 2), run_list),
         Space("list-3", "every triple of list operations from 2 lists", gen_list(kinds, ["int"], [[], [2, 0]], 3), run_list),
         Space("list-base", "general interval class", gen_list(kinds, ["int"], inits(3, False), 1, 3), run_list)]
    S.append(Space("list-large", "lists of up to 13 entries in several orders, with each entry or two neighbours missing, then every operation", gen_big(kinds, ["frac"], None, True), run_list))
    S.append(Space("list-huge", "lists of up to 130 entries, then operations at eight places", gen_big(kinds, ["frac"], None, True, n=130), run_list))
    S.append(Space("list-ties", "lists in which two or all entries start at one time (overlapping intervals, blank labels), in every order, then every operation or pair of operations",
                   lambda: (c for g in (gen_list(kinds, list(TIE), inits(), 1), gen_list(kinds, list(TIE), [[], [2], [0, 1], [3, 1]], 2)) for c in g()), run_list))
    if tier == "thorough":
        S.append(Space("list-3-more", "every triple of list operations from 4 more lists at 2 scales", gen_list(kinds, ["int", "neg"], [[0], [1, 3], [2, 1, 0], [0, 1, 2, 3]], 3), run_list))
    return S
