"""What each check runs and within which bounds (quick, thorough)."""

def paths(*filters, **kw):
    return dict(engine="lsx", filters=list(filters), **kw)

PATHWISE = "path-wise symbolic execution of the real code (LLVM IR of /repo's current source, Z3)"

BOTH = "symbolic execution of the real code (Kani/CBMC bounded model checking, SAT), and " + PATHWISE

def simple(pid, **kw):
    return [dict(filters=[pid.lower() + "::"], **kw)]

CUTOFF = "the cut-off QS_INSERTION_SORT_THRESH is 3 instead of 24 in the runs with --cfg indexing_verif"

FULL = "container lengths 0..=isize::MAX (0..=usize::MAX where no index is made), all 64-bit positions and offsets, no loops"
OUT_LEN = "lengths above isize::MAX, possible only with zero-sized elements"

PROPS = {
    "C01": dict(runs=simple("C01"), bounds=(FULL + "; provided storages: lengths 0..=3", FULL + "; provided storages: lengths 0..=5"), outside=OUT_LEN),
    "C02": dict(runs=simple("C02"), bounds=(
        FULL + "; one arbitrary operation from an arbitrary valid state (induction); subdivide: range length <= 5, n <= 4; scans: length <= 4",
        FULL + "; one arbitrary operation from an arbitrary valid state (induction), also explicit histories of 3 operations; subdivide: range length <= 8, n <= 7; scans: length <= 6"),
        outside=OUT_LEN),
    "C04": dict(runs=simple("C04"), bounds=(FULL, FULL), outside=OUT_LEN),
    "C05": dict(runs=simple("C05"), bounds=(FULL, FULL), outside=OUT_LEN),
    "C06": dict(runs=simple("C06"), bounds=(FULL, FULL), outside=OUT_LEN),
    "C07": dict(runs=simple("C07"), bounds=(FULL, FULL), outside=OUT_LEN),
    "C03": dict(technique=BOTH, runs=simple("C03") + [paths("deep::c03_")], bounds=(
        "lengths 0..=2^40 and every position, by address, for slices, exclusive slices, vectors, references and nested references, element sizes 2 and 4, size 3 up to length 1024; elements of 48 and 528 bytes, of alignment 32 and of size 0: lengths 0..=9, every position; contents: length <= 4, arbitrary values",
        "the same; contents: length <= 6"),
        outside="lengths above 2^40 (by address), memory of the vast slices is never read"),
    "C08": dict(technique=BOTH, runs=simple("C08") + [paths("deep::c08_", "long::c08_")], bounds=(
        FULL + "; one step from an arbitrary iterator state (induction); explicit interleavings of 6 steps; derived traversals over ranges of length <= 3 anywhere, and over ranges of length <= 16 at four places of the position space",
        FULL + "; one step from an arbitrary iterator state (induction); explicit interleavings of 10 steps; derived traversals over ranges of length <= 6 anywhere, and of length <= 30 at four places"), outside=OUT_LEN),
    "C09": dict(technique=BOTH, runs=simple("C09") + [paths("deep::c09_", "long::c09_")], bounds=(
        "ranges of length <= 5 into n <= 4 parts and of length <= 4096 into n <= 3 parts anywhere in containers up to isize::MAX; length <= 80 into n <= 82 parts at four places; n > length, n = length and n = 1 at full width (first two chunks)",
        "ranges of length <= 8 into n <= 7 parts and of length <= 65536 into n <= 4 parts anywhere in containers up to isize::MAX; length <= 160 into n <= 162 parts at four places; n > length, n = length and n = 1 at full width (first two chunks)"),
        outside="longer ranges with larger n (64-bit division is the obstacle); " + OUT_LEN),
    "C10": dict(runs=simple("C10"), bounds=(FULL, FULL), outside=OUT_LEN),
    "C11": dict(technique=PATHWISE, runs=[paths("c11::", deep=True), paths("deep::c11_", "long::c11_")], bounds=(
        "container lengths 0..=7, every start index and range, every answer table of the predicate; lengths 0..=24 with every range and place of the first rejection, element sizes 0, 2 and 5",
        "container lengths 0..=9, every start index and range, every answer table of the predicate; lengths 0..=60 with every range and place of the first rejection"),
        outside="longer containers; predicates that answer differently when asked twice about one element are covered, because no element is asked twice"),
    "C12": dict(technique=PATHWISE, runs=[paths("c12::", deep=True), paths("deep::c12_", "long::c12_")], bounds=(
        "lengths 0..=7 (all), 20 (every range), 3-byte elements up to length 6, elements with destructors at length 6; elements of 48 and 528 bytes, alignment 32, with destructors, with a niche: lengths 0..=6 (slices and vectors), 20 and 40; zero-sized: 5",
        "lengths 0..=8 (all), 26 (every range), 3-byte elements up to length 8, elements with destructors at length 8; the wide and owning elements 0..=6, 40 and 80"),
        outside="longer containers"),
    "C13": dict(technique=BOTH, runs=simple("C13") + [paths("deep::c13_", "long::c13_")], bounds=(
        "index_twice: lengths 0..=2^40, every pair of ranges, by address, and contents at length <= 4; zip_mut_raw: length <= 4, and pairs at any position up to isize::MAX with the shorter range of length <= 2; both for every pair of ranges of one container of length 10 (2-byte and zero-sized elements) and 8 (7-byte elements)",
        "index_twice: lengths 0..=2^40, every pair of ranges, by address, and contents at length <= 6; zip_mut_raw: length <= 6, and pairs at any position up to isize::MAX with the shorter range of length <= 2; both for every pair of ranges of one container of length 14 and 12"), outside="longer zips"),
    "C14": dict(technique=PATHWISE, runs=[paths("c14::", "c14p::", deep=True), paths("deep::c14_", "long::c14_")], bounds=(
        "any length up to isize::MAX-8 with a recording storage (2 pushes, 2 inserts); vectors of length <= 6 with 0..=2 unused places (growing past the capacity included), owned and borrowed, every sequence of 4 pushes and inserts through the ends of any range, an inner index or the newest index, element sizes 3 and 8; elements of 48 and 528 bytes, with destructors, with a niche and zero-sized: vectors of length <= 4, every sequence of 3 or 4 operations",
        "the same with sequences of 5 operations"),
        outside="longer vectors and histories (one step from any length is covered by the recording storage)"),
    "C15": dict(runs=simple("C15"), bounds=(
        "storage lengths up to isize::MAX by length, up to 2^40 by address, contents at length <= 4",
        "storage lengths up to isize::MAX by length, up to 2^40 by address, contents at length <= 4"), outside="user storages whose Clone changes the length"),
    "C16": dict(technique=BOTH, runs=simple("C16") + [paths("c16::values", deep=True), paths("c16p::", "long::c16_")], bounds=(
        "slices of length <= 150 compared by position (no contents, so every element type of the same size), every partition point and every run of equal elements, element sizes 1, 4, 7, 16 and 24 (lower bounds also at length <= 200); contradictory answers: length <= 12, an end within 48 comparisons; real values: length <= 7; zero-sized elements: length <= 150",
        "the same with lengths <= 400 (by position; binary search and lower bound of bytes and words also at length <= 1000), 16 (contradictory answers), 9 (real values)"), outside="longer slices"),
    "C17": dict(technique=BOTH, runs=[paths("c17::", deep=True), paths("elems::c17_", "long::c17_")], bounds=(
        "lengths 0..=7 with arbitrary one-byte elements (4-bit keys, tags for stability), length 16 with two arbitrary elements at arbitrary places in ascending rest; two slices: lengths 0..=6; elements of 2, 3 and 4 bytes: length 3; elements of 48 and 528 bytes, alignment 32, with destructors, with a niche, zero-sized: lengths 0..=5",
        "lengths 0..=8, length 20 with two arbitrary elements, two slices: lengths 0..=7; elements of 2, 3 and 4 bytes: length 3; the other kinds of elements: 0..=6"), outside="longer slices"),
    "C18": dict(technique=PATHWISE, runs=[
            paths("c18::range", "c18::bounds", "elems::c18_", hook=True), paths("c18::real", "long::c18_")],
        bounds=(
        "cut-off lowered to 3 by the hook: lengths 0..=7 with every weak order of the elements, length 13 with two different keys, lengths 9..=16 of regular contents with one arbitrary element at an arbitrary place; the real cut-off of 24: lengths 24..=29 of regular contents with one arbitrary element; elements of 48 and 528 bytes, alignment 32, with destructors, with a niche, zero-sized: lengths 0..=5",
        "the same with lengths 0..=8, 16, 9..=20 and 24..=40; the other kinds of elements: 0..=6"), outside="longer slices, other contents of the longer slices",
        assumptions=[CUTOFF]),
    "C19": dict(technique=PATHWISE, runs=[paths("c19::", "elems::c19_", "long::c19_")], bounds=(
        "lengths 0..=9 with every weak order, length 14 with two keys, lengths 1..=40 of regular contents with one arbitrary element; a reversed order and wider elements at length <= 5; elements of 48 and 528 bytes, alignment 32, with destructors, with a niche, zero-sized: lengths 0..=5",
        "lengths 0..=10, 17 and 1..=64"), outside="longer slices"),
    "C20": dict(technique=PATHWISE, runs=[paths("c20::", "elems::c20_", "long::c20_")], bounds=(
        "data of length 1..=9, buffer of length 0..=6, every split point, every content of sorted sections and of unsorted sections; elements of 48 and 528 bytes, alignment 32, with destructors, with a niche, zero-sized: lengths 1..=5, buffers 0..=3",
        "data of length 1..=10, buffer of length 0..=6; the other kinds of elements: 1..=6"), outside="longer slices; empty data (refused by an explicit debug_assert)"),
    "C21": dict(technique=PATHWISE, runs=[paths("c21::", hook=True), paths("long::c21_")], bounds=(
        "sorts: lengths 0..=7, heapify 0..=8, merges 0..=8 with buffers 0..=5, twin sort 0..=5, scans 0..=6; a panic at every comparison (scan predicate), every sequence of answers before it, consistent with an order or not (quicksorts: at most 14 comparisons of length <= 5)",
        "one more element each; quicksorts: at most 18 comparisons"), outside="longer slices; panics in destructors (the crate calls none)", assumptions=[CUTOFF]),
    "C22": dict(technique=BOTH, runs=simple("C22") + [paths("c22::paths_", "long::c22_")], bounds=(
        "lengths 0..=2^40 and every pair of positions by address for element sizes 1, 2 and 4, lengths <= 100 for size 3; one arbitrary operation from an arbitrary valid state (induction), iterator histories of 4 steps; every range of containers of length 16 (2 bytes) and 12 (7 and 48 bytes, alignment 32) with whole traversals",
        "the same; lengths <= 500 for size 3; every range of containers of length 24 and 20"), outside="zero-sized elements (no such pointer range can be made); element sizes other than those listed"),
    "C23": dict(technique=BOTH,
        runs=simple("C23") + [paths("c23p::", "long::c23_")], bounds=(
        "by address: lengths 0..=2^40 and every pair of positions (slices, exclusive slices, borrowed and owned vectors; element sizes 1, 2, 4; size 3 up to length 50); contents, callback order: lengths 0..=6 with every position, answer table and content (zip: 0..=4 on both sides, dot products: 0..=5, one side constant); accesses and permutations of elements of 48 and 528 bytes, alignment 32, with destructors, with a niche: lengths 0..=6 and longer",
        "the same; size 3 up to length 500; contents: lengths 0..=8"), outside="longer contents, aliasing rules of references (stacked borrows), element sizes not listed"),
    "C24": dict(technique=PATHWISE, runs=[paths("c24::", "elems::c24_", hook=True, **{"not": ["c24::real_quick"]}), paths("c24::real_quick", "long::c24_")], bounds=(
        "searches: lengths 0..=40 with every partition point and run of equal elements, parts of containers of length 0..=9, contradictory answers; insertion sorts: lengths 0..=7 with every weak order, 9..=16 regular with one arbitrary element; quicksort: lengths 0..=7 with every weak order, 13 with two keys, 9..=16 regular with one arbitrary element (cut-off 3), 24..=28 (real cut-off)",
        "searches: lengths 0..=130, parts up to 14; sorts: 0..=8, 16, insertion sorts 9..=14 with two arbitrary elements, 24..=38"), outside="longer slices", assumptions=[CUTOFF]),
}
# what long.rs adds
FREE = ("all lengths 17..=36 and 40, 50, 64, 65, 100, 128, 129, 256, 257, 300", "all lengths 17..=48 and 21 lengths up to 1025")
HUGE = "; regular contents of 65,600 elements with two or three choices each"
SORTS = "; long slices: %s, regular contents with one arbitrary element at the start, in the middle or at the end, of four bytes and of 24 bytes with destructors"
DEPTH = "; depth of the recursion: %d elements in eight regular contents with one arbitrary element, and against McIlroy's adversary"
# run once more as a release build decides it (no debug assertions)
def release(*filters, **kw):
    return paths(*filters, release=True, **kw)
RELEASE = {
    **{p: simple(p, release=True) for p in ("C01", "C02", "C04", "C05", "C06", "C07", "C10", "C15")},
    "C03": [release("deep::c03_")],
    "C08": [release("deep::c08_")],
    "C09": [release("deep::c09_")],
    "C11": [release("deep::c11_")],
    "C12": [release("deep::c12_")],
    "C13": [release("deep::c13_")],
    "C14": [release("deep::c14_")],
    "C16": [release("c16p::")],
    "C17": [dict(filters=["c17::twin_refuses"], release=True), release("elems::c17_")],
    "C18": [release("elems::c18_", hook=True)],
    "C19": [release("elems::c19_")],
    "C20": [release("elems::c20_")],
    "C21": [release("c21::", hook=True)],
    "C22": [release("c22::paths_")],
    "C23": [release("c23p::")],
    "C24": [release("elems::c24_", hook=True)],
}
LONG = {
    "C08": ("; whole traversals from both ends of ranges of 65,600 positions",) * 2,
    "C09": ("; ranges of 65,600 positions into 300 to 65,600 parts",) * 2,
    "C11": tuple("; runs ending at far places of containers of %d" % n + HUGE for n in (300, 600)),
    "C12": tuple("; far places in containers of 40 to %d" % n + HUGE for n in (300, 600)),
    "C13": tuple("; every pair of lengths <= %d" % n + HUGE for n in (34, 66)),
    "C14": ("; vectors of 7 to 128 elements, four pushes or inserts through any old index; three insertions into 65,600 elements",) * 2,
    "C16": ("; slices of up to 2^40 elements by address, partition points in windows at the ends, around fractions and powers of two, at most 200 comparisons",) * 2,
    "C17": tuple(SORTS % f + HUGE for f in FREE),
    "C18": tuple(SORTS % f + ", without the hook; regular contents of 65,600 elements" + DEPTH % d for f, d in zip(FREE, (600, 1000))),
    "C19": tuple(SORTS % f + HUGE for f in FREE),
    "C20": tuple("; long slices: %s, seven split points, six regular contents with one arbitrary element" % f + HUGE for f in FREE),
    "C21": tuple("; without the hook: slices of 12 to 40 elements in eight regular contents, and of 65, 129 and 300 in three, five ways to answer (300: two), a panic at each of the first %d comparisons and at some later ones; 65,600 elements with a panic at four places" % n for n in (160, 260)),
    "C22": tuple("; far places in containers of %d; whole traversals of 65,600 positions" % n for n in (300, 600)),
    "C23": tuple("; scans at far places in containers of %d; zips, copies and dot products of every pair of lengths <= %d" % n + HUGE for n in ((300, 34), (600, 66))),
    "C24": tuple(SORTS % f + ", without the hook" + HUGE + "; searches in up to 2^40 elements by address, as in C16" + DEPTH % d for f, d in zip(FREE, (600, 1000))),
}
for _id, _t in LONG.items():
    PROPS[_id]["bounds"] = tuple(b + t for b, t in zip(PROPS[_id]["bounds"], _t))
NOT_APPLICABLE = {
    "C25": "a statement about every safe client program (what type-checks): the deciding procedure is the Rust type and borrow checker, there is no execution of the crate's code whose inputs could be made symbolic",
}
for _id, _r in RELEASE.items():
    _quick = _id == "C17"  # the others in the thorough tier only
    PROPS[_id]["runs"] = PROPS[_id]["runs"] + [r if _quick else dict(r, tier="thorough") for r in _r]
    _t = "; again with release semantics (no debug assertions): " + ("all of it" if _r[0].get("engine") != "lsx" and _id != "C17" else "the element kinds" if "elems" in _r[-1]["filters"][0] else "part of it")
    PROPS[_id]["bounds"] = tuple(b + (_t if _quick or k else "") for k, b in enumerate(PROPS[_id]["bounds"]))
