"""Which harness decides which property, and how much of it each tier runs."""

# built only for the properties that need the whole simulator: they include the
# graph library, for which /verif/stub holds the stand-in
SYSTEM_SOURCES = {"coarsegrainsystem.cpp", "basin_explorer.cpp", "graph_library_adapter.cpp"}

BUILDS = {
    # assertions on, address and undefined-behaviour sanitizers, stop at the first report
    "asan": {"cxx": "g++", "flags": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                     "-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all"]},
    # the same with the checked standard library
    "asan_debug": {"cxx": "g++", "flags": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                           "-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all",
                                           "-D_GLIBCXX_DEBUG"]},
    "asan_clang": {"cxx": "clang++", "flags": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                               "-fsanitize=float-divide-by-zero,float-cast-overflow",
                                               "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=all",
                                               "-Wno-everything"]},
    # optimised, for more hops than an int can count
    "ubsan_fast": {"cxx": "g++", "flags": ["-O2", "-g", "-DNDEBUG", "-DVERIF_FAST", "-fsanitize=undefined", "-fno-sanitize-recover=all"]},
    # race detector
    "tsan": {"cxx": "clang++", "flags": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread", "-Wno-everything"]},
    # assertions on, no sanitizer: runs under valgrind
    "plain": {"cxx": "g++", "flags": ["-O1", "-g"]},
    # what a release build does: long statistics
    "fast": {"cxx": "g++", "flags": ["-O2", "-DNDEBUG", "-DVERIF_FAST"]},
}


def two(na, nb, ta, tb):
    return {
        "quick": [{"build": "asan", "n": na}, {"build": "fast", "n": nb}],
        "thorough": [{"build": "asan", "n": ta}, {"build": "asan_clang", "n": max(1, ta // 4)}, {"build": "fast", "n": tb}],
    }


SIM = ("random systems (wells with slow links and drains, nested basins, disordered lattices, rings with traps, random one- and two-way graphs; rates over up to 10 decades, ids over the whole int range, 1 to n-1 walkers, walkers added and removed on the way, both in order of time and in arbitrary order)")


PROPS = {
    "C01": {
        "harness": ["h_system.cpp"], "system": True, "stages": two(900, 6000, 12000, 200000),
        "must": ["exclusions-checked", "blocked-hops", "clusters-created", "clusters-enlarged", "clusters-merged", "walkers-removed"],
        "rule": SIM + "; after every hop all current sites compared with each other and with a model of which sites are free; non-trivial: clusters formed or hops were blocked; distinct by the course of the simulation",
    },
    "C02": {
        "harness": ["h_system.cpp"], "system": True, "stages": two(400, 2500, 6000, 100000),
        "must": ["announcements-on-sites", "announcements-on-clusters", "blocked-hops", "moves", "clusters-merged"],
        "rule": SIM + "; before and after every hop all walkers compared, every announcement checked against the rates; distinct by the course of the simulation",
    },
    "C03": {
        "harness": ["h_stats.cpp"], "system": True, "stages": two(300, 1200, 3000, 30000),
        "must": ["clusters-compared", "sites-compared", "arrival-frequencies", "time-fractions", "stays", "clusters-enlarged", "clusters-merged"],
        "rule": "random graphs of wells and single sites with separated time scales, one walker, tens of thousands of hops with clusters fixed after a warm-up: mean and distribution of stays, arrival frequencies and time fractions against the exact Markov chain (false alarm below exp(-34) per comparison beyond the approximation error computed for each cluster); skipped when that error exceeds 25 %; distinct by trajectory",
    },
    "C04": {
        "harness": ["h_system.cpp"], "system": True, "stages": two(500, 2500, 6000, 100000),
        "must": ["partitions-checked", "clusters-created", "clusters-enlarged", "clusters-merged"],
        "rule": SIM + "; after every hop all clusters compared with each other, with the ids of the sites and with the clusters before the hop; distinct by the course of the simulation",
    },
    "C05": {
        "harness": ["h_system.cpp"], "system": True, "stages": two(500, 3000, 6000, 100000),
        "must": ["criteria-checked", "runs-without-clusters", "basins-coarse-grained", "clusters-merged", "wells-meeting-the-ratio", "wells-missing-the-ratio", "switched-off", "groups-joined"],
        "rule": SIM + "; every created or enlarged cluster checked against an own evaluation of the criterion, runs that must form clusters and runs that must not; distinct by the course of the simulation",
    },
    "C06": {
        "harness": ["h_system.cpp"], "system": True, "stages": two(500, 4000, 8000, 120000),
        "must": ["increments-checked", "cluster-dwell-times", "residence-times-compared", "clusters-merged"],
        "rule": SIM + "; after every hop all increments and the new dwell time compared with the limits; distinct by the course of the simulation",
    },
    "C07": {
        "harness": ["h_replay.cpp"], "system": True,
        "stages": {
            "quick": [{"build": "asan", "n": 400},
                      {"build": "fast", "n": 4000, "traces": "p1"},
                      {"build": "fast", "n": 4000, "traces": "p2", "shards": 5, "env": {"MALLOC_PERTURB_": "165", "MALLOC_TOP_PAD_": "1234567"}}],
            "thorough": [{"build": "asan", "n": 5000},
                         {"build": "fast", "n": 120000, "traces": "p1"},
                         {"build": "fast", "n": 120000, "traces": "p2", "shards": 5, "env": {"MALLOC_PERTURB_": "165", "MALLOC_TOP_PAD_": "1234567"}}],
        },
        "compare": ["p1", "p2"],
        "must": ["events-compared", "seed-pairs", "site-streams", "cluster-streams", "clusters-created", "clusters-merged", "event-logs-compared-between-processes"],
        "rule": SIM + "; every simulation recorded and repeated after and while other simulations run and the heap is churned, logs compared bit by bit, digests also between processes that ran different cases before; non-trivial: clusters formed; distinct by the course of the simulation",
    },
    "C08": {
        "harness": ["h_replay.cpp"], "system": True, "stages": two(1000, 10000, 15000, 300000),
        "must": ["hop-before-sites", "hop-from-unknown", "hop-to-unknown", "hop-unplaced", "known-site-again", "misplaced-walker",
                 "no-resolution", "rejected-walker", "remove-misplaced", "remove-unplaced", "resolution", "same-sites-twice",
                 "seed-after-initialisation", "unknown-cluster-id", "unknown-visits", "unplaced-walker", "walkers-before-sites",
                 "identity-unset", "walker-site-unset", "walker-target-unset", "events-compared"],
        "rule": SIM + "; twelve kinds of misuse injected at random points of one of two twin simulations, whose logs must stay equal; distinct by the course of the simulation",
    },
    "C13": {
        "harness": ["h_cluster.cpp", "h_system.cpp"], "system": True, "stages": two(1500, 10000, 20000, 300000),
        "must": ["large-counts", "exact-counts", "cluster-counts", "balances", "counts-carried", "occupations", "queries", "clusters-merged"],
        "rule": "direct use of clusters (counts against time spent, twins queried rarely and often, all rates rescaled, merges) and " + SIM + " with counts of all sites compared after hops; distinct by history",
    },
    "C21": {
        "harness": ["h_system.cpp", "h_replay.cpp", "h_stats.cpp", "h_basin.cpp", "h_cluster.cpp", "h_site.cpp", "h_containers.cpp",
                    "h_queue.cpp", "h_lattice.cpp", "h_marcus.cpp"],
        "system": True,
        "stages": {
            "quick": [{"build": "asan", "n": 3000, "which": "ALL", "functional": False, "leaks": True},
                      {"build": "asan_debug", "n": 1000, "which": "ALL", "functional": False},
                      {"build": "plain", "n": 160, "which": "ALL", "functional": False, "tool": "valgrind", "cpu": 300}],
            "thorough": [{"build": "asan", "n": 40000, "which": "ALL", "functional": False, "leaks": True},
                         {"build": "asan_debug", "n": 12000, "which": "ALL", "functional": False},
                         {"build": "asan_clang", "n": 12000, "which": "ALL", "functional": False},
                         {"build": "plain", "n": 2000, "which": "ALL", "functional": False, "tool": "valgrind", "cpu": 600},
                         {"build": "ubsan_fast", "n": 1, "which": "ENDURANCE", "cpu": 3000}],
        },
        "must": ["hops", "clusters-merged", "clusters-enlarged", "migrations", "rate-store-states", "pop", "neighbours-seen", "rates-compared"],
        "rule": "the workloads of all other properties under AddressSanitizer with leak detection, UndefinedBehaviorSanitizer, the checked standard library, internal assertions and memcheck; only their reports, failed assertions, crashes and hangs count; distinct by history",
    },
    "C22": {
        "harness": ["h_basin.cpp"], "system": True, "stages": two(6000, 60000, 100000, 2000000),
        "must": ["basins-found", "basins-beyond-limit", "from-clusters", "edges-compared", "states-compared", "conversions"],
        "rule": "random rate graphs with and without clusters, exploration from every site with random limits against an own search; cases within the tolerance of the criterion are set aside; distinct by graph",
    },
    "C23": {
        "harness": ["h_transport.cpp"], "system": True, "stages": two(1200, 6000, 12000, 120000),
        "must": ["occupations-compared", "occupations-with-exclusion", "drifts-compared", "clear-drifts", "transit-times-compared", "walkers-collected", "blocked", "devices-with-clusters", "clusters-compared", "hops-of-clusters"],
        "rule": "random devices (lattices of 3-250 sites, every combination of boundaries, disorder up to 18 kT, deep pairs of sites, fields, cutoffs of one to two spacings, 200-600 K) run with the queue: occupations of up to 200 000 hops against Boltzmann's distribution with exclusion and against the master equation, drift velocities, times between the electrodes, books on every walker injected and collected (false alarm below exp(-34) per comparison; rarely visited sites set aside); distinct by trajectory",
    },
    "C24": {
        "harness": ["h_parallel.cpp"], "system": True, "stages": {
            "quick": [{"build": "tsan", "n": 160}, {"build": "fast", "n": 1600}],
            "thorough": [{"build": "tsan", "n": 3000}, {"build": "asan", "n": 1500}, {"build": "fast", "n": 50000}],
        },
        "must": ["interleaved-runs", "turns", "events-compared", "hops", "clusters-formed", "threads-forming-clusters", "clusters-made", "shared-lattices", "shared-rates"],
        "rule": "2-6 simulations (random systems as in C01, replicas sharing their rates and a const lattice, or single sites, clusters, stores and queues), one after the other and all at once in threads with yields and delays at random points; non-trivial: the threads took turns; every announcement, position, visit and cluster compared with what the simulation did alone, ids of clusters compared over all threads, the race detector watching every access; distinct by the course of the simulations",
    },
    "C25": {
        "harness": ["h_invariance.cpp"], "system": True, "stages": two(500, 9000, 8000, 250000),
        "must": ["events-compared", "clusters-created", "clusters-merged", "several-merged-at-once", "parts-compared", "basins-compared", "lattices-compared"],
        "rule": "pairs of runs that differ in the unit only: systems as in C01, single sites and clusters, basin explorations with all rates multiplied by 2^k and times divided by it, lattices with all lengths multiplied, k from -200 to 200; complete event logs, in units of the first run, compared bit by bit (powers of two change no digit); distinct by the course of the simulation",
    },
    "C26": {
        "harness": ["h_invariance.cpp"], "system": True, "stages": two(700, 15000, 10000, 400000),
        "must": ["events-compared", "clusters-created", "clusters-alike", "walkers-renamed", "other-forms", "queries", "cluster-events-compared", "cluster-queries"],
        "rule": "pairs of runs with the same seed: in the second the walkers have other ids (0, -1, the ends of the range of int, random ones), walkers are placed one by one instead of together, hops and removals use the other overload, and any query is made at any time; announcements, positions and final clusters compared bit by bit; distinct by the course of the simulation",
    },
    "C09": {
        "harness": ["h_cluster.cpp"], "stages": two(900, 15000, 12000, 400000),
        "must": ["equilibria-compared", "residuals", "distances-from-equilibrium", "iteration-counts", "per-site", "per-cluster", "built-by-merging", "built-by-growth", "rate-changes"],
        "rule": "random connected rate graphs (2-40 sites, 0-10 decades, one-way and two-way rates, 1-6 exits), built at once, by growth or by merging clusters; non-trivial: more than two sites; distinct by the resulting probabilities",
    },
    "C10": {
        "harness": ["h_cluster.cpp"], "stages": two(1500, 20000, 20000, 500000),
        "must": ["time-constants", "stays", "pieces", "removals", "hazards-compared", "resolution-changes", "updates-while-occupied"],
        "rule": "random clusters built by all routes, random resolutions, up to thousands of stays each, walkers removed in the middle of a stay; distinct by the cluster's time constant and history",
    },
    "C11": {
        "harness": ["h_cluster.cpp"], "stages": two(1000, 10000, 12000, 250000),
        "must": ["exit-picks", "internal-picks", "exit-sets-compared"],
        "rule": "random clusters built by all routes with 1-60 exits, thousands of picks each, exact binomial bounds per site (false alarm below exp(-34) per comparison); distinct by probabilities",
    },
    "C12": {
        "harness": ["h_cluster.cpp"], "stages": two(1500, 15000, 20000, 400000),
        "must": ["additions", "migrations", "cluster-states", "walkers-passed", "occupy", "vacate"],
        "rule": "random histories of additions, merges, walkers passing, occupations, each followed by a comparison of every cluster with the reference; distinct by history",
    },
    "C14": {
        "harness": ["h_site.cpp"], "stages": two(3000, 15000, 60000, 400000),
        "must": ["site-states-compared", "picks", "dwell-times", "external-change", "bookkeeping-steps"],
        "rule": "sites with 1-many neighbours and rates over many decades, histories of setting, adding, resetting and external changes of rates, thousands of picks and dwell times per statistic; distinct by rates",
    },
    "C15": {
        "harness": ["h_containers.cpp"], "stages": two(2500, 60000, 60000, 1000000),
        "must": ["rate-store-states", "site-store-states", "cluster-store-states", "rejected", "rejected-lists", "sites-without-rates"],
        "rule": "random histories on the three stores over a small id universe, every query for every id compared with a reference map after every step; distinct by history",
    },
    "C16": {
        "harness": ["h_queue.cpp"], "stages": two(3000, 30000, 60000, 800000),
        "must": ["add", "sortedAdd", "sort", "pop", "pop-sorted", "drained", "event-loop-steps"],
        "rule": "random histories of add, sortedAdd, sort and pop with equal, negative and extreme times, and event loops; compared with a reference multiset; distinct by history",
    },
    "C17": {
        "harness": ["h_lattice.cpp"], "stages": two(3000, 60000, 60000, 1500000),
        "must": ["indices-round-tripped", "positions-round-tripped", "wrapped-lookups", "rejected-positions", "rejected-indices"],
        "rule": "random lattices (sizes 1 to a million in a dimension, all boundary choices), every index or a sample round-tripped, wrapped and invalid coordinates; distinct by lattice",
    },
    "C18": {
        "harness": ["h_lattice.cpp"], "stages": two(3000, 40000, 60000, 800000),
        "must": ["distances-compared", "neighbourhoods-compared", "neighbours-seen"],
        "rule": "random lattices, boundary choices, spacings and cutoffs, neighbourhoods compared with brute force over all sites and images; distinct by lattice and cutoff",
    },
    "C19": {
        "harness": ["h_lattice.cpp"], "stages": two(2500, 20000, 30000, 500000),
        "must": ["random-sites", "rejected-planes", "distinct-sites-drawn"],
        "rule": "random lattices and planes, thousands of draws each, membership and exact binomial bounds for uniformity; distinct by lattice and plane",
    },
    "C20": {
        "harness": ["h_marcus.cpp"], "stages": two(1500, 40000, 40000, 1500000),
        "must": ["rates-compared", "detailed-balance", "relations-checked"],
        "rule": "random reorganisation energies, temperatures, site energies and couplings against an independent evaluation in logarithms, detailed balance and metamorphic relations; distinct by parameters",
    },
}
