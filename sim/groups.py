# Which simulator decides which property, and the translation units each is built from: (source, extra flags, object).
CORE = [("core.cpp", [], "core.o"), ("alloc.cpp", [], "alloc.o")]
TASKS = [("tasks.cpp", [], "tasks.o"), ("access.cpp", [], "access.o")]
# Where the interleaving matters, the code under test calls the simulator at every access instead of a sanitizer's runtime.
RACES = {
    "flags": ["-O1", "-g1", "-DACCESSES", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "link": ["-fsanitize=undefined", "-rdynamic"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp")],
}
SEEN = ["-fsanitize=thread"]

SOLVERS = """astar bfs best_first dfs dijkstra eidastar eidbest_first eiddfs flood fringe gbest_first gbfs gdfs gjps gstar
    idastar idbest_first iddfs jps mgstar osmastar smastar""".split()
EXTRA = {"jps": ["-DJPS"], "gjps": ["-DJPS"], "eidastar": ["-DNOGRAPH"], "eidbest_first": ["-DNOGRAPH"], "eiddfs": ["-DNOGRAPH"], "iddfs": ["-DNOGRAPH"]}

GROUPS = {
    "sessions": {
        "properties": ["SURVEY", "P05", "P06", "P07", "P09", "P10", "P11", "P12", "P18"],
        "tus": CORE + TASKS + [("session.cpp", [], "session.o")] + [("solver_tu.cpp", ["-DSOLVER=" + s] + EXTRA.get(s, []), s + ".o") for s in SOLVERS],
    },
    "pools": {
        "properties": ["P01", "P02", "P03"],
        "tus": CORE + [("pools.cpp", [], "pools.o")],
    },
    "graph": {
        "properties": ["P14"],
        "tus": CORE + [("graph.cpp", [], "graph.o")],
    },
    "grid": {
        "properties": ["P21"],
        "tus": CORE + [("grid.cpp", [], "grid.o")],
    },
    "heap": {
        "properties": ["P15"],
        "tus": CORE + [("heap.cpp", [], "heap.o")],
    },
    "line": {
        "properties": ["P16"],
        "tus": CORE + [("line.cpp", [], "line.o")],
    },
    "set": {
        "properties": ["P17"],
        "tus": CORE + [("set.cpp", [], "set.o")],
    },
    "parallel": dict(RACES, properties=["P13"], tus=CORE + TASKS + [("parallel.cpp", SEEN, "parallel.o")]),
    "concurrent": dict(RACES, properties=["P08"], tus=CORE + TASKS + [("session.cpp", SEEN, "session.o")]
        + [("solver_tu.cpp", SEEN + ["-DSOLVER=" + s] + EXTRA.get(s, []), s + ".o") for s in SOLVERS]),
}
