"""Regenerates /verif/MANIFEST.json from the checks present in mc/."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
"C01": ("exhaustive enumeration of operation histories on the real objects, in lock-step with a reference model", "All histories of relation operations up to the stated depth on families of 2 supersets and 3 children (two- and three-level hierarchies), and all single and paired grid edits; membership compared after each operation."),
"C02": ("exhaustive enumeration of operation histories on the real objects, in lock-step with a reference model", "Same histories as C01 plus standalone tiers; neighbour links compared with the order among siblings after each operation."),
"C03": ("exhaustive enumeration of list/tier histories against a sorted-list model", "All insertion orders and all operation histories up to the stated depth on lists and tiers of up to four entries; class refusals enumerated."),
"C04": ("exhaustive enumeration of boundary configurations on the real grouping code against an overlap oracle", "All nested pairs/triples of tiers on a small boundary grid, all tier orders, all small jitters of gap-free pairs."),
"C05": ("exhaustive enumeration of small textgrids and class layouts on the real reader against an input oracle", "All nested tiers with gaps on up to 4 units, all class layouts, files of all formats."),
"C06": ("exhaustive enumeration of small grids x formats, reload compared with the original", "All nested grids up to the bound, every format, repeated names and unusual labels."),
"C07": ("exhaustive enumeration of gap configurations; exact-filler oracle by identity", "All gap patterns on the bound for intervals, tiers, groups and grids; idempotence by executing cleanup twice."),
"C08": ("exhaustive enumeration of fusion histories in lock-step with a reference model", "All fusions of all intervals of all small groups, both directions, several label functions, and all sequences up to the stated depth."),
"C09": ("exhaustive enumeration of shift histories in lock-step with a reference model", "All targets and increments up to the stated depth on all small grids."),
"C10": ("exhaustive enumeration of tiers x query times against the definition", "All partial tilings on the bound, all query times at, between, before and after boundaries."),
"C11": ("exhaustive enumeration of interleaved edit histories on two grids sharing classes", "All interleavings of class-changing edits on two grids up to the stated depth; class links of the user's classes and the other grid compared by identity."),
"C12": ("exhaustive enumeration of class-edit histories in lock-step with a reference model", "All sequences of interleave/pop requests up to the stated depth on all seed grids."),
"C13": ("exhaustive enumeration of class lists, point sets, return orders and call sequences", "All lists of up to four names with all point subsets and return orders; all call sequences of the stated depth."),
"C14": ("exhaustive enumeration of structures x object kinds, rows compared with the objects", "All small grids, every object in them, with and without subsets."),
"C15": ("exhaustive enumeration of edit histories; path/id oracle in every state", "All single and paired grid edits from all seed grids built in four ways."),
"C16": ("exhaustive enumeration of point-tier histories against a sorted-list model", "All insertion orders and operation histories up to the stated depth on point tiers and points groups."),
"C17": ("exhaustive enumeration of append orders, each compared with the structure built at once", "All orders of appending the pieces of small groups and grids."),
"C18": ("exhaustive enumeration of invalid requests x states with an identity snapshot", "Every listed kind of invalid request on every seed state; all observables compared by identity before and after."),
"C19": ("exhaustive enumeration of small PoLaR grids against the documented rules", "All placements of levels, turning points and ranges on a small time grid; all label forms."),
"C20": ("exhaustive enumeration of edit histories around serialisation", "Every edit before, and every edit of either copy after, serialising each seed grid."),
"C21": ("exhaustive enumeration of concatenation operands against the definition", "All pairs (and chains) of small lists, tiers and groups."),
"C22": ("exhaustive enumeration of child configurations against an exact predicate", "All placements of up to four children on a small grid at several scales."),
"C23": ("exhaustive enumeration of name patterns and edit histories against the naming rules", "All tier-name patterns for small grids, all edits, named access compared by identity."),
"C24": ("exhaustive enumeration of entry forms and edit histories in lock-step with a table of values", "All forms of giving an entry for all kinds of class; all histories of setting times, labels, features and relations up to the stated depth on two supersets and three children; all entries of all seed grids after all edits."),
"C25": ("exhaustive enumeration of tier contents, assigned times and edit histories against the definition of the extent", "All small combinations of interval and point tiers, empty ones included, at several scales; all assignments of starts, ends and times; all edits of all seed grids."),
"C26": ("exhaustive enumeration of edit histories, each run with and without looks in between, answers compared", "All edits (and pairs on one seed) of the seed grids; about 150 ways of looking at every object; snapshots by identity after every look; the same history without looks as the reference."),
"C27": ("exhaustive enumeration of tier pairs, list sums, edits and looks, with every warning recorded and compared with an exact predicate", "All pairs of tiers of disjoint intervals on four units (fitting or not) in four routes and four scales; all three-level tilings with moved boundaries; all sums of small lists; all edits (and pairs) of the seed grids and all ways of looking, which must be silent."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --tier thorough",
                       "technique": "model checking: " + T[i][0], "level": "model_checking",
                       "level_note": T[i][1] + " Bounded: nothing is claimed beyond the bounds and the assumptions in the evidence file; trusts Python, numpy, polars, praatio and the reference model."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public API of the code in /repo/src as it is. Fixes are listed in known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
