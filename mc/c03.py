from . import grid as G, machine as M, tiers as T
from .core import Space, Skip, require, same
ASSUMPTIONS = ["no two different entries have the same times and label (the library treats them as one)", "times are set so that the order of a tier stays the same"]
F = frozenset({"list", "classes"})

# ---- entries of unrelated classes are refused, and change nothing
def run_refuse(case, rec):
    from aligned_textgrid import Word, Phone, SequencePoint, SequenceTier, SequencePointTier, custom_classes
    from aligned_textgrid.sequence_list import SequenceList
    have, n, new, op = case
    A, B = custom_classes(["A", "B"])
    P = custom_classes(["P"], points=[0])[0]
    C = {"Word": Word, "Phone": Phone, "A": A, "B": B, "P": P, "SP": SequencePoint}
    mk = lambda c, i: C[c]((float(i), float(i + 1), f"l{i}")) if not issubclass(C[c], SequencePoint) else C[c]((float(i), f"l{i}"))
    at = None
    if "@" in op: op, at = op.split("@"); at = int(at)          # the place of the stray entry in what is given
    old = [mk(have, i) for i in range(n if at is None else 1)]
    bad = mk(new, n + 3 if at is None else 10 + at)
    given = [mk(have, 10 + i) for i in range(n)]
    if at is not None: given[at] = bad
    if op.startswith("list"):
        L = SequenceList(*old)
        f = {"list.append": lambda: L.append(bad), "list.add": lambda: L + [bad], "list.concat": lambda: L.concat([bad]),
             "list.mixed": lambda: SequenceList(*(old + [bad])), "list.addmixed": lambda: L + [mk(have, n + 1), bad],
             "list.make": lambda: SequenceList(*given), "list.addlist": lambda: L + given, "list.concatlist": lambda: L.concat(given)}[op]
        now = lambda: list(L)
    else:
        t = (SequencePointTier if have in ("P", "SP") else SequenceTier)(old, C[have])
        other = (SequencePointTier if new in ("P", "SP") else SequenceTier)([bad], C[new])
        f = {"tier.append": lambda: t.append(bad), "tier.add": lambda: t + other, "tier.concat": lambda: t.concat(other), "tier.iadd": lambda: setattr(t, "sequence_list", t.sequence_list + [bad])}[op]
        now = lambda: list(t)
    rec.step()
    try:
        f()
    except Exception:
        require(G.is_seq(now(), old), f"{op} of a {new} to {have} entries was refused but changed the entries")
        require(type(bad) is C[new], f"{op}: the refused entry changed its class")
        rec.state(case)
        return
    raise G.Violation(f"{op} of a {new} to {n} {have} entries was accepted: {[type(x).__name__ for x in now()]}")

def gen_refuse():
    for have in ("Word", "Phone", "A", "P"):
        for new in ("Word", "Phone", "A", "B", "P", "SP"):
            if new == have or (have == "P" and new == "SP"):
                continue
            for n in (1, 2):
                for op in ("list.append", "list.add", "list.concat", "list.mixed", "list.addmixed", "tier.append", "tier.add", "tier.concat", "tier.iadd"):
                    yield [have, n, new, op]
            for n in (3, 4, 5):
                for at in range(n):
                    for op in ("list.make", "list.addlist", "list.concatlist"): yield [have, n, new, f"{op}@{at}"]

# ---- lists and tiers that were given the entries of another list or tier
def run_given(case, rec):
    from aligned_textgrid import SequenceTier, SequencePointTier, custom_classes
    from aligned_textgrid.sequence_list import SequenceList
    kind, n, how, ops = case
    C = custom_classes(["A", "B"])[1] if kind == "I" else custom_classes(["P"], points=[0])[0]
    mk = lambda i, l: C((float(i), float(i + 1), l)) if kind == "I" else C((float(i), l))
    TT = SequenceTier if kind == "I" else SequencePointTier
    xs = [mk(2 * i, f"e{i}") for i in range(n)]
    if how.startswith("tier"):
        a = TT(list(xs), C); l = a.sequence_list
    else:
        a = l = SequenceList(*xs)
    if how.endswith("make"): b = TT(l, C)
    elif how.endswith("set"):
        b = TT([mk(50, "old")], C); b.sequence_list = l
    elif how.endswith("copy"): b = SequenceList(*l)
    else: b = TT(a, C)
    rec.step()
    ea, eb = list(xs), list(xs)
    for k, (who, op) in enumerate(ops):
        o, e = (a, ea) if who == "a" else (b, eb)
        if op == "append":
            x = mk(100 + k, f"n{k}"); o.append(x); e.append(x)
        elif op == "front":
            x = mk(-10 - k, f"n{k}"); o.append(x); e.insert(0, x)
        elif op == "pop":
            if not e: raise Skip()
            if kind == "P" and hasattr(o, "sequence_list"): o.sequence_list.pop(e[0])
            else: o.pop(e[0])
            del e[0]
        rec.step()
        for nm, o, e in (("source", a, ea), ("receiver", b, eb)):
            require(G.is_seq(list(o), e), f"{how}, {ops[:k + 1]}: the {nm} holds {[G.show(x) for x in o]}, expected {[G.show(x) for x in e]}")
            same(len(o), len(e), f"{how}: length of the {nm}"); same(list(o.labels), [x.label for x in e], f"{how}: labels of the {nm}")
    rec.state(case)


def gen_given(depth):
    import itertools
    for kind in "IP":
        for how in ("list make", "list set", "list copy", "tier make", "tier set", "tier copy", "tier tier"):
            for n in (0, 1, 3):
                for d in range(1, depth + 1):
                    for ops in itertools.product([[w, o] for w in "ab" for o in ("append", "front", "pop")], repeat=d): yield [kind, n, how, list(ops)]


def spaces(tier):
    return T.list_spaces(tier) + T.tier_spaces(tier, F) + [Space("refuse", "entries of unrelated classes, by every operation", gen_refuse, run_refuse),
            Space("given", "a list or tier made from, assigned or copied from the entries of another; then every history of appending and popping on either", lambda: gen_given(2 if tier == "quick" else 4), run_given)] + M.edit_spaces(tier, F)
