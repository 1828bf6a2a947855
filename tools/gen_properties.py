"""Regenerates /verif/properties.jsonl (kept as code so that long statements stay reviewable)."""
import json, os
P = []
S = "src/aligned_textgrid/"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": [S + f for f in files],
        "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
        "mechanism": [{"name": n, "where": S + w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Superset and subset membership stay reciprocal and exclusive",
 "At every moment an interval is listed in the subset list of at most one superset interval, and it is listed there exactly when that interval is its super instance; the containment view (within / contains / in / index) tells the same story. "
 "Adding, moving, replacing or removing children by any of the public operations changes membership exactly as asked: the child leaves its previous superset, replaced children are released, and nobody else's membership changes.",
 ["histories", "inputs"],
 "for every sequence of append, +, set_super_instance, append_subset_list, set_subset_list, subset_list assignment, remove_superset, remove_from_subset_list, pop and fusion applied to a family of intervals of a three-level hierarchy",
 "The tests apply one or two relation operations to fresh intervals; moves between already populated supersets and mixtures of operations are not exercised.",
 ["sequences/sequences.py", "mixins/within.py", "sequence_list.py"],
 [("relation methods", "sequences/sequences.py InstanceMixins"), ("contains setter", "mixins/within.py"), ("list removal clears super", "sequence_list.py remove/pop")],
 ["super_instance", "subset_list", "within", "contains", "in", "index", "first/last"],
 [("super_instance", "parent link", "sequences/sequences.py"), ("subset list", "children, sorted", "sequences/sequences.py")])

prop("C02", "Previous/following links mirror the order among siblings",
 "Within the children of one superset, and within a top-level or standalone tier, each interval's following/previous interval is exactly its neighbour in time order, and the links are mutual; the first has a '#' boundary before it and the last a '#' boundary after it, so links never cross the edge of a superset. "
 "Tierwise navigation by a relative index, in contrast, walks the whole tier in time order, and asking beyond either end of the tier is an index error.",
 ["histories", "inputs"],
 "for every history of building, appending, moving, removing, popping, fusing, re-relating and cleaning up intervals, tiers and groups",
 "Tests check the links right after one construction; re-linking after later changes, and links across superset edges in grids, are sampled at a few positions.",
 ["mixins/mixins.py", "sequences/sequences.py", "sequences/tiers.py", "points/tiers.py"],
 [("set_fol/set_prev/set_final/set_initial", "mixins/mixins.py"), ("subset precedence reset", "sequences/sequences.py"), ("tier precedence reset", "sequences/tiers.py")],
 ["fol", "prev", "get_tierwise", "tier_index"],
 [("fol/prev", "neighbour links", "mixins/mixins.py")])

prop("C03", "Sequence lists and tiers stay time-sorted, complete and single-class",
 "After any history of constructing, adding, appending, concatenating, removing and popping, a sequence list or a tier holds exactly the entries put in and not taken out, each once, in time order, with its starts, ends, labels, length, indexing and membership all agreeing. "
 "All entries have the list's or tier's own entry class, and entries of unrelated classes are refused.",
 ["histories", "inputs"],
 "for every order of insertion and every sequence of list/tier operations, including times at and below zero, equal labels, and subclass/superclass mixes",
 "Tests append already-sorted intervals with positive times; ordering depends on every insertion order and on values such as a zero start time.",
 ["sequence_list.py", "mixins/tiermixins.py", "sequences/tiers.py", "points/tiers.py"],
 [("sorted insertion", "sequence_list.py append/_sort/__add__"), ("tier append", "mixins/tiermixins.py append"), ("casting", "mixins/mixins.py _cast")],
 ["starts", "ends", "labels", "iteration", "in", "index", "entry_class"],
 [("values", "ordered entries", "sequence_list.py")])

prop("C04", "Grouped tiers relate every interval to the superset that covers it",
 "When tiers are grouped, every interval of a lower tier becomes a child of the interval of the tier above that it overlaps most, whatever order the tiers are given in and whatever they were related to before; when each lower interval already lies inside one upper interval, no time or label changes. "
 "When boundaries of neighbouring gap-free tiers disagree by a little, on any number of levels, the disagreeing boundaries are reconciled so that children exactly tile their superset, and no labelled interval is lost, duplicated, reordered or reassigned. "
 "A superset that no child overlaps receives one blank child of its own extent (if the lower tier has any entries); an interval that overlaps no superset stays unrelated until cleanup.",
 ["inputs", "configurations"],
 "for every pair or triple of tiers over a small grid of boundaries, every tier order, every hierarchy depth up to three, with and without boundary jitter",
 "Tests relate a few well-aligned files; the assignment is a function of all boundary configurations.",
 ["sequences/tiers.py"],
 [("arrangement and overlap assignment", "sequences/tiers.py TierGroup.__init__/_arrange_tiers"), ("superset cleanup", "sequences/sequences.py cleanup")],
 ["subset_list", "super_instance", "starts", "ends", "labels", "validate", "tier order in the group"])

prop("C05", "Reading a TextGrid keeps all annotation in a well-formed hierarchy",
 "An aligned textgrid built from a Praat textgrid (object or file) has one tier per assigned class in hierarchical order within its group, however the class lists are nested, repeated or ordered, and keeps every labelled interval and point with its label, times, order and tier name. "
 "Every interval tier is gap-free, all interval groups span the same extent, every non-top interval has a superset that contains it and every superset's children tile it exactly, so validation passes everywhere.",
 ["inputs", "configurations"],
 "for every small textgrid whose lower-tier intervals nest in upper-tier ones (gaps allowed, any group starting or ending earlier or later), every class layout, one to three tiers per group, with point tiers mixed in",
 "Tests read a handful of files; gap placement, unequal group extents and class layouts combine freely.",
 ["aligned_textgrid.py", "sequences/tiers.py", "points/tiers.py", "sequences/sequences.py"],
 [("nesting of tiers by class", "aligned_textgrid.py _nestify_tiers/_extend_classes"), ("group building", "aligned_textgrid.py _relate_tiers"), ("cleanup", "aligned_textgrid.py cleanup")],
 ["groups", "tiers", "labels", "times", "names", "validate"])

prop("C06", "Saving and re-reading reproduces the grid",
 "Writing an aligned textgrid out (as a textgrid object or as a file in any supported format) and reading it back with the same classes yields the same groups, tiers, tier names (made unique when repeated), times, labels, points and superset/subset structure; saving does not alter the grid, and a save that fails raises, leaves the grid as it was and does not affect later saves. "
 "A single interval or point tier saved on its own likewise reads back with the same entries.",
 ["inputs", "configurations", "crash_points"],
 "for every small grid (one to three groups, one to three tiers, with point tiers, repeated tier names, unusual labels), each of the four formats and every point at which writing can fail",
 "Tests check that a file appears; equality after reload is a property of every grid and format.",
 ["aligned_textgrid.py", "sequences/tiers.py", "points/tiers.py", "mixins/mixins.py"],
 [("return_textgrid/save_textgrid", "aligned_textgrid.py"), ("return_tier/save_as_tg", "sequences/tiers.py, points/tiers.py"), ("return_interval/return_point", "mixins/mixins.py")],
 ["reloaded grid", "textgrid object", "file"])

prop("C07", "Cleanup fills exactly the gaps and changes nothing else",
 "Cleaning up an interval, tier, group or grid adds blank-labelled intervals exactly over the uncovered stretches, so that afterwards tiers are gap-free, supersets are tiled by their children, lower-tier intervals without a superset get one, and all interval groups of a grid span the same extent. "
 "Every interval that existed before keeps its identity, times, label and relations; point tiers are untouched; cleaning up a second time changes nothing.",
 ["inputs", "histories"],
 "for every small structure with gaps at the start, middle or end of any tier, missing children, missing supersets or groups of different extent, and for repeated cleanups",
 "Tests check counts on five hand-made structures; the gap positions across tiers and groups combine.",
 ["sequences/sequences.py", "sequences/tiers.py", "aligned_textgrid.py"],
 [("interval cleanup", "sequences/sequences.py cleanup"), ("tier and group cleanup", "sequences/tiers.py cleanup/_project_up"), ("grid cleanup", "aligned_textgrid.py cleanup")],
 ["tiers before/after", "validate", "identity of entries"])

prop("C08", "Fusing merges exactly two neighbours",
 "Fusing an interval rightwards or leftwards makes it span both intervals with the label produced by the label function applied to the left and right labels in time order, and gives it the children of both in time order; the neighbour disappears from its tier and superset and nothing else changes. "
 "At the edge of a superset or tier the fusion raises and leaves everything unchanged.",
 ["histories", "inputs"],
 "for every interval of every tier of small one- to three-tier groups, both directions, every label function, and every sequence of fusions",
 "Tests fuse one interval per scenario; repeated fusions and consistency of neighbours, tiers and supersets afterwards are not covered.",
 ["sequences/sequences.py", "sequences/tiers.py", "sequence_list.py"],
 [("fuse_rightwards/fuse_leftwards", "sequences/sequences.py"), ("tier pop", "sequences/tiers.py pop"), ("list remove", "sequence_list.py")],
 ["start/end/label", "subset_list", "tier contents", "prev/fol", "raised error"])

prop("C09", "Shifting moves every time by the increment and nothing else",
 "Shifting a grid, an interval group or a points group adds the increment to every interval boundary and point time in it exactly once, whatever the sign of the increment and however shifts are composed, and changes nothing else: labels, order, relations, durations, names and other groups stay the same. "
 "Shifting back restores the original times.",
 ["inputs", "histories"],
 "for every small grid, every target (grid or group) and every sequence of shifts by positive, negative, zero and fractional increments",
 "Tests shift two files once; double shifting through nesting and effects on other groups depend on the structure.",
 ["aligned_textgrid.py", "sequences/tiers.py", "points/tiers.py", "sequences/sequences.py"],
 [("shift", "aligned_textgrid.py, sequences/tiers.py, points/tiers.py")],
 ["starts", "ends", "times", "xmin/xmax"])

prop("C10", "Time lookup finds exactly the covering interval or nearest point",
 "Looking up a time in a tier gives the index of the one interval whose start is at or before the time and whose end is after it, or nothing if no interval covers it; in a group or grid it gives that answer for each tier, in order, and indexing with the result returns those very entries. "
 "In a point tier it gives the point with the smallest distance in time; a point asked for its interval in a tier gets the covering interval or nothing; distances between entries are signed time differences.",
 ["inputs"],
 "for every small tier (gaps included), and every query time at, between, before and after all boundaries",
 "Tests query a few times inside intervals; boundary, gap and outside queries per tier are the property.",
 ["sequences/tiers.py", "points/tiers.py", "points/points.py", "aligned_textgrid.py"],
 [("get_interval_at_time", "sequences/tiers.py"), ("nearest point", "points/tiers.py"), ("interval at point, distances", "points/points.py"), ("nested indexing", "aligned_textgrid.py __getitem__")],
 ["returned indices and entries"])

prop("C11", "Grids never alter the user's classes or each other",
 "Building, appending to, interleaving, popping or cleaning up one grid never changes the superset/subset class links of the classes the user passed in, nor anything in another grid built from the same classes. "
 "The lists and tuples that tiers, groups and grids are made from stay the caller's own: what is done to the structure later does not change them, and changing them later does not change the structure. "
 "Within a grid all groups share one class per class name, every entry of a tier is an instance of that tier's entry class and still an instance of the user's class, and each class's superset/subset links lead to the neighbouring tier's class.",
 ["histories", "configurations"],
 "for every interleaving of operations on two grids that share classes, for built-in and custom classes, interval and point classes",
 "Tests compare classes after one construction; interference needs sequences of class-changing operations on several grids.",
 ["aligned_textgrid.py", "custom_classes.py", "mixins/mixins.py", "mixins/tiermixins.py"],
 [("reclone/swap classes", "aligned_textgrid.py"), ("clone_class", "custom_classes.py"), ("cast", "mixins/mixins.py")],
 ["superset_class/subset_class of user classes", "entry_class", "isinstance", "other grid's contents"])

prop("C12", "Interleaving and popping a class edits only that layer",
 "Interleaving a class inserts, in every group that has the reference class and only there, a tier right above or below it whose intervals copy the times (and labels if asked, otherwise blank) of the chosen neighbour tier, with relations re-established through it; popping a class removes that layer from every group that has it and reconnects the layers around it. "
 "All other tiers keep their intervals, times, labels and names, and interleaving followed by popping restores the grid.",
 ["histories", "configurations"],
 "for every grid of one to three groups and tiers, every reference class, side, timing source and label choice, and every sequence of such edits",
 "Tests perform one or two edits on one file; sequences and heterogeneous groups are not covered.",
 ["aligned_textgrid.py", "sequences/tiers.py", "sequences/sequences.py"],
 [("interleave_class/pop_class", "aligned_textgrid.py"), ("group building", "sequences/tiers.py")],
 ["groups", "tiers", "entry classes", "named access", "relations"])

prop("C13", "Custom and cloned classes form the requested hierarchy",
 "Requested classes are linked in the listed order, each interval class being the superset class of the next, with a fresh top above and bottom below and point classes left out of the chain; they are returned in the requested return order, by index or by name. "
 "Cloning a hierarchy gives same-named, mutually linked new classes with the originals untouched, and asking for the hierarchy of any class returns all its classes from top to bottom every time it is asked.",
 ["inputs", "histories"],
 "for every class list of up to four names, every set of point positions, every return order, and every sequence of such calls",
 "Tests try a couple of orders (self-inverse ones) and single calls.",
 ["custom_classes.py", "sequences/sequences.py"],
 [("custom_classes/clone_class/get_class_hierarchy", "custom_classes.py"), ("set_superset_class/set_subset_class", "sequences/sequences.py")],
 ["returned classes", "superset_class/subset_class"])

prop("C14", "The data frame lists every entry with its true values",
 "Converting an interval, point, tier, group or grid to a data frame yields one row per lowest-level interval carrying the ids, indices, labels, starts and ends of all its supersets (with subsets), or one row per entry of every tier (without), plus one row per point, in the order of the groups, tiers and entries; each value equals the attribute of the object. "
 "Converting does not change the object.",
 ["inputs", "configurations"],
 "for every small structure, each object kind, with and without subsets, point groups included",
 "Tests compare row counts for one file.",
 ["outputs/to_dataframe.py", "mixins/within.py"],
 [("to_df", "outputs/to_dataframe.py"), ("id/within_path", "mixins/within.py")],
 ["data frame rows and columns"])

prop("C15", "Paths and ids locate exactly one object and lead back to it",
 "For every group, tier, interval and point in a grid, following its within path index by index from the grid leads back to that same object; ids are the dash-joined paths and are unique within the grid, and an object's container, index in it and the container's contents agree. "
 "This holds after any edit of the grid.",
 ["histories", "inputs"],
 "for every small grid after every sequence of reads, appends, class edits, cleanups, fusions and pops",
 "Tests check the path of a few objects after reading.",
 ["mixins/within.py", "sequences/tiers.py", "points/tiers.py", "aligned_textgrid.py"],
 [("within/contains/within_path/id", "mixins/within.py"), ("contains assignment", "sequences/tiers.py, points/tiers.py, aligned_textgrid.py")],
 ["within_path", "id", "within", "within_index", "contains"])

prop("C16", "Point tiers keep points sorted, linked and owned",
 "A point tier holds its points in time order, each knowing its tier, its index and its neighbours, with '#' boundaries at the ends, after construction, appending, adding and concatenating; distances to neighbours are the signed time differences, undefined only at the ends. "
 "A points group's extent runs from the earliest to the latest point of all its tiers.",
 ["histories", "inputs"],
 "for every set of up to four point times (zero and negative included), every insertion order and every sequence of point-tier and points-group operations",
 "Tests use one or two sorted positive point lists.",
 ["points/points.py", "points/tiers.py", "mixins/tiermixins.py", "sequence_list.py"],
 [("point tier construction", "points/tiers.py"), ("append/concat/+", "mixins/tiermixins.py"), ("distances", "points/points.py")],
 ["times", "labels", "prev/fol", "intier", "tier_index", "fol_distance/prev_distance", "xmin/xmax"])

prop("C17", "Appending to grouped structures is equivalent to building at once",
 "Appending intervals, tiers or groups piece by piece, at any level and in any order, gives the same tiers, labels, times and relations as building the structure at once from all the pieces; an interval appended to a grouped tier brings its children into the lower tier and its superset into the upper tier, and a child appended to a superset appears in the lower tier. Blank intervals that merely filled a gap give way to what is appended over them. "
 "The objects appended are the ones found in the structure.",
 ["histories"],
 "for every order of appending the pieces of small groups and grids (intervals with and without children, tiers, groups), three-level hierarchies included",
 "Tests append one piece in one order.",
 ["mixins/tiermixins.py", "sequences/sequences.py", "sequences/tiers.py", "aligned_textgrid.py"],
 [("tier and group append", "mixins/tiermixins.py append"), ("interval append", "sequences/sequences.py append"), ("grid append", "aligned_textgrid.py append")],
 ["tiers", "labels", "times", "relations", "identity"])

prop("C18", "Refused operations raise and leave everything unchanged",
 "An operation that cannot be done as asked (wrong class for a superset, child, neighbour, tier or group; a tier that duplicates or does not fit the hierarchy; tiers to be grouped that do not form one hierarchy; itself as neighbour; an entry not in the tier; mismatched numbers of times; contradictory or missing interleaving arguments; malformed entries or index lists) raises an error instead of being carried out. "
 "After the error every object involved is exactly as it was before.",
 ["inputs", "histories"],
 "for every listed kind of invalid request against structures of every small shape",
 "Tests check that some errors are raised but not that nothing changed, and only on fresh objects.",
 ["sequences/sequences.py", "sequence_list.py", "mixins/mixins.py", "mixins/tiermixins.py", "sequences/tiers.py", "aligned_textgrid.py"],
 [("guards", "in each operation")],
 ["raised error", "state before/after"])

prop("C19", "A PoLaR grid links levels, ranges and turning points by time",
 "In a PoLaR grid each levels point knows the ranges interval that covers it and the f0 band its level selects in that range, and a levels point and a turning point at the same time refer to each other, while those without a counterpart refer to none. "
 "Every tier is reachable by its class name, and certainty, status, override, level and range are derived from the label as documented.",
 ["inputs", "configurations"],
 "for every small set of levels points, turning points and ranges intervals, and every label form",
 "Tests read two files.",
 ["polar/polar_grid.py", "polar/polar_classes.py", "points/points.py", "points/tiers.py"],
 [("relating levels", "polar/polar_grid.py"), ("label parsing", "polar/polar_classes.py")],
 ["turning_point", "level", "range_interval", "band", "certainty", "status", "override"])

prop("C20", "A serialised copy of a grid is equal and independent",
 "Serialising a grid and loading it back (in the same or another process), or copying it deeply, in any state it can be edited into, yields a grid with the same groups, names, tiers, times, labels, relations, neighbour links and ids. "
 "Editing the copy does not change the original, and editing the original does not change the copy.",
 ["histories", "inputs"],
 "for every small grid after every short sequence of edits, and every edit applied to either side afterwards",
 "One test pickles one freshly read grid.",
 ["aligned_textgrid.py", "sequences/tiers.py", "sequences/sequences.py"],
 [("__setstate__", "aligned_textgrid.py, sequences/tiers.py")],
 ["loaded grid", "original after edits"])

prop("C21", "Concatenation appends the right operand shifted by the left's end",
 "Concatenating lists, tiers or groups keeps the left entries unchanged and appends all entries of the right operand, in order, each moved later by exactly the end time of the left operand, children moved along with their supersets once; nothing is lost, duplicated or moved twice. "
 "The result is sorted, linked and related like any other list, tier or group.",
 ["inputs", "histories"],
 "for every pair or chain of small lists, interval tiers, point tiers, interval groups and points groups, including empty operands and operands that do not start at zero",
 "Tests concatenate one pair of each kind and look at the maximum time.",
 ["sequence_list.py", "mixins/tiermixins.py"],
 [("concat", "sequence_list.py, mixins/tiermixins.py")],
 ["starts/ends/times", "labels", "relations", "links"])

prop("C22", "Validation passes exactly when children tile their superset",
 "Validating an interval answers yes exactly when it has no children, or its first child starts when it starts, its last child ends when it ends, and each child starts where the previous one ends. "
 "It never changes anything, and a negative answer always comes with a warning while a positive one comes with none.",
 ["inputs"],
 "for every interval with up to four children over a small grid of boundaries, at offsets and scales typical of recordings",
 "Tests validate three hand-made cases.",
 ["sequences/sequences.py"],
 [("validate", "sequences/sequences.py")],
 ["returned value", "warnings", "state"])

prop("C23", "Names reach the current tiers and groups",
 "A group's tiers are reachable by their class names, and a grid's groups by their group names, and what is reached is always the tier or group currently in place, after any edit; when names are duplicated, the shorthand is withheld with a warning rather than pointing to one of them. "
 "Tier names given by the file or the user are kept through grouping and editing, and a group's name is the common part of its tiers' names, or its position.",
 ["histories", "configurations"],
 "for every small grid, every tier-name pattern, and every sequence of class edits and appends",
 "Tests look at names after reading one file.",
 ["mixins/tiermixins.py", "aligned_textgrid.py", "sequences/tiers.py", "points/tiers.py"],
 [("tier names", "mixins/tiermixins.py _set_tier_names/make_name"), ("group names", "aligned_textgrid.py _set_group_names")],
 ["attributes by name", "name", "tier_names"])

prop("C24", "Entries report their own current values, and everything derived follows",
 "An interval is its start, end and label, and a point its time and label: made from a tuple, list, praatio entry or another entry, it reports exactly those values (and gives them back as the praatio entry), starts out unrelated, unplaced and with boundaries on both sides, and what it was made from is untouched. "
 "Everything derived from it (duration, first and last child, the children's starts, ends and labels, length, iteration, indexing, phones and word) always reflects the current values, after any edit of times, labels, features and relations.",
 ["inputs", "histories"],
 "for every kind of entry class, every form in which an entry can be given, and every sequence of edits of times, labels, features and relations",
 "Tests read a derived view once, right after building; a stale or crossed view shows only after an edit.",
 ["sequences/sequences.py", "points/points.py", "sequences/word_and_phone.py", "mixins/mixins.py"],
 [("making an entry", "sequences/sequences.py SequenceInterval.__init__ and points/points.py SequencePoint.__init__"), ("derived views", "sequences/sequences.py sub_starts/sub_ends/sub_labels/first/last/duration"), ("features", "set_feature of both entry kinds")],
 ["start", "end", "time", "label", "duration", "first", "last", "sub_starts", "sub_ends", "sub_labels", "phones", "inword", "return_praatio()"])

prop("C25", "Extents and inventories of tiers, groups and grids",
 "A tier, group or grid reports as its extent the earliest start and latest end (or time) of its entries, nothing when it has none, and lists its tiers, entry classes and tier names in order; these are always those of its current content, after any edit. "
 "Assigning a tier a list of starts, ends or times gives each entry, in order, its own value and changes nothing else.",
 ["inputs", "histories"],
 "for every small combination of tiers and groups, empty ones included, every assigned list of times, and every sequence of edits",
 "Tests look at the extent of one read file, whose tiers all end together.",
 ["sequences/tiers.py", "points/tiers.py", "aligned_textgrid.py", "mixins/tiermixins.py"],
 [("extents", "xmin/xmax of SequenceTier, TierGroup, SequencePointTier, PointsGroup, AlignedTextGrid"), ("assigning times", "starts/ends/times setters of the tiers"), ("inventories", "entry_classes, tier_names")],
 ["xmin", "xmax", "starts", "ends", "times", "labels", "entry_classes", "tier_names", "len()"])

prop("C26", "Looking at a grid changes nothing",
 "Displaying, measuring, indexing, looking up by time or name, validating, exporting to a data frame, handing out a praatio tier or textgrid and saving leave the grid, its tiers, entries, names and classes exactly as they were, and having looked earlier never changes a later answer: after any edit the answers are the same as if nobody had looked before. "
 "The lists of labels, names and classes, arrays of times, paths, data frames and praatio objects handed out belong to the user; changing them does not change the grid.",
 ["histories"],
 "for every kind of object, every way of looking at it, and every sequence of edits with looks in between",
 "Tests look at most once at each thing; a side effect or a remembered answer needs look, edit, look.",
 ["aligned_textgrid.py", "sequences/tiers.py", "sequences/sequences.py", "points/tiers.py", "points/points.py", "outputs/to_dataframe.py", "mixins/within.py", "mixins/tiermixins.py", "sequence_list.py"],
 [("views and lookups", "properties and get_* methods of entries, tiers, groups and grids"), ("exports", "return_tier, return_textgrid, save_textgrid, save_as_tg, to_df"), ("display", "__repr__, show_structure")],
 ["every read-only attribute and method", "repr()", "to_df()", "return_textgrid()"])

prop("C27", "Warnings name real defects and appear only for them",
 "Relating two tiers, however it comes about, warns if and only if some interval of the lower tier extends beyond the interval of the upper tier it overlaps most; the warning names both classes, how many such intervals there are and the largest excess in seconds. Tiers that have been reconciled relate again without a warning. "
 "Adding lists of intervals warns if and only if two intervals of the result overlap in time (touching is not overlapping; points never overlap). "
 "An empty grid, a class name no tier has, a group that vanishes because its only class is popped, a distance to a point that is not there and a PoLaR prominence or edge label without a status each give a warning (and None, where a value was asked for). "
 "Every other construction, edit, look or export of well-formed data is silent, and no operation leaves the caller's warning filters changed.",
 ["inputs", "histories"],
 "for every pair of tiers and lists, every edit and every look",
 "Tests check a few warnings by calling what warns; that nothing else warns, and that the figures stated are right, depends on every arrangement of boundaries.",
 ["sequences/tiers.py", "sequence_list.py", "aligned_textgrid.py", "points/points.py", "polar/polar_classes.py", "mixins/tiermixins.py"],
 [("mismatch warning", "sequences/tiers.py TierGroup.__init__"), ("overlap warning", "sequence_list.py _check_no_overlaps"), ("other warnings", "every warnings.warn of the package")],
 ["warnings emitted by constructors, methods and properties"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
