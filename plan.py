"""Which programs (container x build) decide which property."""
SOURCES = {"uni": "uni.cpp", "multi": "multi.cpp"}
CONT_NAMES = {0: "sparse_set", 1: "sparse_map", 2: "ordered_sparse_set", 3: "ordered_sparse_map",
              4: "stable_set", 5: "stable_map", 6: "ordered_stable_set", 7: "ordered_stable_map",
              8: "dense_set", 9: "dense_map", 10: "ordered_dense_set", 11: "ordered_dense_map",
              20: "dense_multiset", 21: "dense_multimap", 22: "dense_multiset (3 keys)", 23: "dense_multimap (3 keys)",
              24: "dense_multiset (1 key)", 25: "dense_multimap (1 key)"}
G20 = "-std=c++20 -O1"
CONFIGS = {
    "base": ("g++", G20),                                           # debug checks on, split metadata and element buffers
    "ndebug": ("clang++", "-std=c++17 -O1 -DNDEBUG"),               # combined buffers
    "nosimd": ("g++", "-std=c++17 -O2 -DTPP_NO_SIMD"),              # portable metadata blocks
    "ssse3": ("clang++", "-std=c++20 -O1 -mssse3"),
    "opt": ("g++", "-std=c++20 -O3 -DNDEBUG -march=x86-64-v2"),
    "plain": ("g++", G20 + " -DPLAIN"),                             # trivial elements
    "hempty": ("g++", G20 + " -DHEMPTY"),                           # empty functors
    "trans": ("g++", G20 + " -DTRANS"),                             # transparent functors
    "apoca": ("g++", G20 + " -DAPOL=1"),                            # allocator propagates on copy assignment
    "apoma": ("g++", G20 + " -DAPOL=2"),                            # on move assignment
    "apos": ("g++", G20 + " -DAPOL=4"),                             # on swap
    "apall": ("g++", G20 + " -DAPOL=15"),                           # everywhere, fresh one when copied
    "hstd": ("g++", G20 + " -DHSTD"),                               # the multi-key tables' own functors, keys of two types
    "tmove": ("g++", G20 + " -DTMOVE"),                             # elements whose move constructor may throw
    "trans17": ("clang++", "-std=c++17 -O1 -DNDEBUG -DTRANS"),
    "apall17": ("clang++", "-std=c++17 -O1 -DNDEBUG -DAPOL=15"),
    "wide": ("clang++", "-std=c++20 -O1 -DNDEBUG -DWIDE"),         # larger, over-aligned elements, not a power of two in size
    "apempty": ("g++", G20 + " -DAPOL=-1"),                         # empty allocator, always equal
}
ALL = list(range(12))
MAPS = [1, 3, 5, 7, 9, 11]
ORD = [2, 3, 6, 7, 10, 11]
STABLE = [4, 5, 6, 7]
SOME = [1, 2, 4, 7, 9, 10]


def u(cfg, conts):
    return ("uni", cfg, list(conts))


def m(cfg, conts):
    return ("multi", cfg, list(conts))


MU = list(range(20, 26))
MMAP = [21, 23, 25]
EXTRA = ["ndebug", "nosimd", "ssse3", "opt", "plain", "hempty", "wide"]
PLAN = {}


def plan(prop, conts, quick, thorough_extra=EXTRA):
    PLAN[prop] = {"quick": [u("base", conts)] + quick, "thorough": [u("base", conts)] + [u(c, conts) for c in thorough_extra]}


def inter(a, b):
    return [x for x in a if x in b]


for prop, lo in (("C01", 0), ("C02", 4), ("C03", 8)):
    cs = list(range(lo, lo + 4))
    plan(prop, cs, [u("ndebug", cs), u("nosimd", cs[1:3]), u("opt", cs[:1] + cs[3:]), u("plain", cs[1:2]), u("hempty", cs[2:3]), u("wide", [cs[0], cs[3]])])
plan("C05", MAPS, [u("ndebug", [3, 5, 9])])
plan("C06", ALL, [u("ndebug", [1, 2, 6, 8])])
plan("C07", ORD, [u("ndebug", ORD), u("opt", [2, 7, 10])])
plan("C08", ALL, [u("ndebug", [1, 6]), u("apoca", [2, 11])])
plan("C09", ALL, [u("ndebug", [1, 6]), u("apoma", [2, 11])])
plan("C10", STABLE, [u("ndebug", STABLE), u("nosimd", [4, 7])])
plan("C11", STABLE, [u("ndebug", STABLE), u("nosimd", [5, 6]), u("hempty", [4, 7])])
plan("C12", ALL, [u("ndebug", [3, 4]), u("apall", [2, 5, 10]), u("wide", [1, 2, 7, 9])])
plan("C13", ALL, [u("ndebug", [1, 6]), u("tmove", ALL)], ["ndebug", "nosimd", "apall", "apempty", "tmove"])
plan("C14", ALL, [u("ndebug", [0, 7]), u("nosimd", [1, 4])])
plan("C16", ALL, [u("ndebug", [0, 7, 9]), u("nosimd", [1, 6])])
plan("C17", ALL, [u("ndebug", [1, 3, 5, 7, 8, 9, 11])])
PLAN["C18"] = {"quick": [u("trans", ALL), u("trans17", [1, 2, 5, 8, 11])], "thorough": [u("trans", ALL), u("trans17", ALL)]}
PLAN["C19"] = {"quick": [u("base", ALL), u("apall", ALL), u("apoca", [0, 5, 10]), u("apoma", [3, 6, 9]), u("apos", [2, 7, 8]), u("apempty", [1, 4, 11]), u("apall17", [1, 2, 5, 9])],
               "thorough": [u(c, ALL) for c in ("base", "apall", "apoca", "apoma", "apos", "apempty", "apall17")]}
plan("C20", ALL, [u("ndebug", [3, 5, 9])])
plan("C21", ALL, [u("ndebug", [0, 3, 5, 9, 10])])
plan("C22", ALL, [u("ndebug", [2, 5, 8])])
plan("C23", ALL, [u("ndebug", [1, 8, 11])])
PLAN["C15"] = {"quick": [u(c, ALL) for c in ("base", "ndebug", "nosimd")] + [u("ssse3", [0, 3, 5, 6, 8, 11]), u("opt", [1, 2, 4, 7, 9, 10])],
               "thorough": [u(c, ALL) for c in ("base", "ndebug", "nosimd", "ssse3", "opt", "plain", "hempty")]}

# the multi-key tables
PLAN["C04"] = {"quick": [m("base", MU), m("ndebug", [20, 21, 23]), m("opt", [20, 21]), m("hstd", MU), m("plain", [20]), m("wide", [21])],
               "thorough": [m(c, MU) for c in ("base", "ndebug", "opt", "hstd", "plain", "hempty", "nosimd", "wide")]}


def also(prop, quick, thorough=None):
    PLAN[prop]["quick"] += quick
    PLAN[prop]["thorough"] += thorough if thorough is not None else [m(c, MU) for c in ("base", "ndebug", "opt")]


also("C05", [m("base", [21, 23])], [m(c, MMAP) for c in ("base", "ndebug", "opt")])
for prop in ("C06", "C08", "C09", "C14", "C16", "C17", "C20", "C22", "C23"):
    also(prop, [m("base", [20, 21])])
also("C12", [m("base", [20, 21, 24]), m("apall", [21])])
also("C13", [m("base", [20, 21, 22, 25]), m("tmove", [20, 21])], [m(c, MU) for c in ("base", "ndebug", "apall", "tmove")])
also("C21", [m("base", [20, 21, 23])])
also("C17", [m("ndebug", [21])])
also("C18", [m("trans", MU), m("trans17", [21])], [m("trans", MU), m("trans17", MU)])
also("C19", [m("base", [20, 21]), m("apall", [20, 21]), m("apoca", [21]), m("apoma", [20]), m("apos", [21]), m("apempty", [20])],
     [m(c, MU) for c in ("base", "apall", "apoca", "apoma", "apos", "apempty")])
also("C15", [m("base", [20, 21, 23]), m("ndebug", [20, 21, 23]), m("opt", [20, 21, 23])], [m(c, MU) for c in ("base", "ndebug", "opt", "plain", "hempty")])
LEVEL = {p: "model_checking" for p in PLAN}
LEVEL["C13"] = "fault_enumeration"
