import json
S='CoarseGrainSites/src/libmythical/'
T=S+'topologyfeatures/'
I='CoarseGrainSites/include/mythical/'
P=[]
def p(id,title,statement,over,q,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
      "mechanism":[dict(zip(("name","where"),m)) for m in mech],"observe_at":list(observe),"hook_needed":None}})
SYS=[S+'coarsegrainsystem.cpp',I+'coarsegrainsystem.hpp',T+'cluster.cpp',T+'topology_feature.cpp']
p("C01","Walkers exclude each other: never two walkers on one site",
 "In a coarse-grained simulation whose walkers are each placed on a free site, no two walkers in the system ever report the same current site, whether or not the sites have been coarse grained, grown or merged into clusters in the meantime. A site becomes available again as soon as its walker hops away or is removed, and only then.",
 ["histories","inputs","configurations"],"for every rate graph, seed, number of walkers and interleaving of hops, removals and later additions, including clusters forming under walkers that are already there",
 "The system tests run one walker at a time (or a fixed 1D/2D case) and never compare occupancy; the build used here does not even compile them.",
 SYS,[("hop: move only if the target is not occupied",S+"coarsegrainsystem.cpp hop"),("per-site occupancy inside clusters",T+"cluster.cpp occupyCluster_/vacateCluster_/isOccupiedCluster_")],
 [("occupied_","occupancy count of a site or cluster",T+"topology_feature.hpp")],["walker current site after every call"])
p("C02","A hop obeys its announcement and stays on the rate graph",
 "Every hop moves the walker exactly to the site it had announced if that site is free and otherwise leaves it where it is; no other walker is affected. The newly announced site is always a real site: a site the walker's site has a rate to, or, when its site belongs to a cluster, a site of that cluster or one that some site of the cluster has a rate to. The new dwell time is finite and positive unless the walker sits on a drain (a site without outgoing rates).",
 ["histories","inputs"],"for every rate graph (reciprocal or one-directional rates, drains, any integer site ids), seed and walker history",
 "Tests check a few end positions; they never check each announced site against the rate graph, in particular after clusters grow or merge.",
 SYS+[I+'walker.hpp',T+'site.cpp'],[("hop",S+"coarsegrainsystem.cpp hop"),("picking the next site",T+"site.cpp pickNewSiteId, "+T+"cluster.cpp pickNewSiteId")],
 [("potential site","site the walker will try next",I+"walker.hpp")],["walker current/potential site and dwell time after every hop"])
p("C03","Coarse graining preserves the statistics of the random walk",
 "For systems with fast basins separated by slow rates, the time a single walker stays in a basin or on a site outside a basin, where it goes from there, and its long-run fraction of time there agree with the exact solution of the underlying continuous-time Markov chain, within the approximation error of the equilibrium assumption, no matter whether coarse graining is switched on or off.",
 ["inputs","histories","configurations"],"for every rate graph with separated time scales, every seed, threshold, performance ratio and time resolution",
 "Two hand-made graphs are compared with 20 % tolerance in tests that are not part of the build; symmetric cases hide wrong residence times.",
 SYS,[("time constant of a cluster",T+"cluster.cpp calculateEscapeTimeConstant_"),("time-weighted internal picks",T+"cluster.cpp calculateProbabilityHopToInternalSite_"),("exit distribution",T+"cluster.cpp calculateProbabilityHopToNeighbors_")],(),["sum of dwell times per site, arrivals per site"])
p("C04","Clusters always partition their sites and only grow or merge",
 "At every moment the clusters reported by the system are disjoint, have at least two sites each, and agree with the cluster id reported for each site; their reported resolutions and time increments cover exactly the same cluster ids. A site never leaves a cluster except when its cluster is merged into one with a smaller id, which takes over all of its sites, and cluster ids are never reused.",
 ["histories","inputs"],"for every rate graph, parameter setting and walk, including chains of merges",
 "Tests look at the clusters once at the end of a run with a single basin.",
 SYS+[S+'cluster_container.cpp',S+'site_container.cpp'],[("createCluster_/mergeSitesAndClusters_",S+"coarsegrainsystem.cpp"),("getClusters",S+"cluster_container.cpp getSiteIdsOfClusters")],
 [("topology_features_","which feature handles a site",I+"coarsegrainsystem.hpp")],["getClusters, getClusterIdOfSite, getResolutionOfClusters, getTimeIncrementOfClusters after every hop"])
p("C05","Clusters form exactly when the equilibrium criterion justifies it",
 "Whenever a cluster is created or enlarged, the inverse of the summed rates out of it exceeds twice the performance ratio times its slowest internal traversal time (the largest shortest-path time between two of its sites), and twice that traversal time is below the time resolution. A clearly isolated basin of up to five sites with equally fast internal rates is eventually coarse grained, and clusters and sites joined by equally fast slower links are eventually joined to one cluster if together they clearly form such a basin; no cluster appears before more hops than the configured threshold have been made, and none ever when coarse graining is switched off.",
 ["inputs","histories","configurations"],"for every rate graph, performance ratio, time resolution and iteration threshold",
 "Tests have a handful of graphs where the criterion holds or fails by orders of magnitude.",
 [S+'coarsegrainsystem.cpp',S+'basin_explorer.cpp',S+'graph_library_adapter.hpp'],[("sitesSatisfyEquilibriumCondition_, getInternalTimeLimit_, getTimeConstantFromSitesToNeighbors_",S+"coarsegrainsystem.cpp"),("iteration threshold",S+"coarsegrainsystem.cpp hop")],(),["difference of getClusters before and after a hop"])
p("C06","Time steps on clusters never exceed the time resolution",
 "The time increment of every cluster of a system is positive and at most the time resolution set by the user and at most half its mean residence time, also after the cluster has been enlarged or merged. The dwell time given to a walker on a cluster never exceeds the cluster's time increment.",
 ["histories","configurations"],"for every rate graph, time resolution and history of cluster growth",
 "No test looks at increments after a merge.",
 SYS,[("resolution chosen on creation and merge",S+"coarsegrainsystem.cpp createCluster_, mergeSitesAndClusters_"),("dwell time handed out in increments",T+"cluster.cpp getDwellTime")],[("time_increment_","largest dwell time on the cluster",T+"cluster.hpp")],["getTimeIncrementOfClusters, walker dwell time"])
p("C07","Same seed and same calls give the same trajectory",
 "Two simulations given the same random seed, rates and sequence of calls produce identical walker trajectories and dwell times, down to the last bit, regardless of what else the process has done before, and also when coarse graining happens. The same holds for single sites and clusters that are given a seed; different seeds give different sequences. Within a seeded system every site and every cluster draws a sequence of its own.",
 ["histories","configurations"],"for every system, seed, prior process history and heap state",
 "A test compares nothing between two runs; dependence on addresses or clocks shows only under a different heap layout or time.",
 [S+'coarsegrainsystem.cpp',S+'basin_explorer.cpp',T+'topology_feature.cpp'],[("setRandomSeed",S+"coarsegrainsystem.cpp"),("seeding of sites and clusters",S+"coarsegrainsystem.cpp initializeSystem, createCluster_")],(),["full trajectory"])
p("C08","Misuse is rejected with an exception and changes nothing",
 "Using the system out of order or with unknown sites - no or non-positive time resolution, walkers before sites, placing, hopping or removing walkers that are unplaced or on or heading to unknown sites, a seed after initialisation, the same sites twice, queries about unknown sites - throws, and walkers and identities throw when asked for values that were never set. After the rejected call the simulation goes on exactly as if the call had not been made.",
 ["inputs","histories"],"for every point of a simulation at which such a call is made and every invalid argument",
 "Tests check that single calls throw on a fresh object, not that state is untouched in the middle of a run.",
 [S+'coarsegrainsystem.cpp',S+'walker.cpp',S+'identity.hpp'],[("argument checks",S+"coarsegrainsystem.cpp"),("unassigned checks",S+"walker.cpp, "+S+"identity.hpp")],(),["exceptions; trajectory compared with a twin simulation without the misuse"])
p("C09","Cluster occupation probabilities solve the master equation",
 "After an update, the probabilities of occupying the sites of a cluster are non-negative, sum to one and, up to the chosen convergence setting, equal the equilibrium (quasi-stationary) distribution of hops among its sites given their rates, for every convergence method, whether the sites were added one by one, in bulk or by merging clusters. With convergence by tolerance they are within the tolerance of it, however slow the links between the sites are. Rates that were changed externally are reflected after the next update.",
 ["inputs","histories","configurations"],"for every set of sites and rates (any size, any ids, rate ratios over many orders of magnitude), order of additions and convergence method",
 "Tests check a symmetric two-site and a symmetric three-site chain.",
 [T+'cluster.cpp',T+'cluster.hpp'],[("solveMasterEquation_, iterate_",T+"cluster.cpp")],[("probabilityOnSite_","occupation probabilities",T+"cluster.hpp")],["getProbabilityOfOccupyingInternalSite"])
p("C10","Walkers stay on a cluster for an exponential time of the right mean",
 "The total time a walker spends on a cluster is exponentially distributed with the cluster's time constant, which equals the average time per hop divided by the average probability that a hop leaves the cluster, both weighted by the occupation probabilities of all its sites. It is handed out in pieces no longer than the time constant divided by the resolution, the pieces of different walkers are independent of each other, and a walker that left or was removed starts afresh.",
 ["inputs","histories"],"for every cluster, resolution, set of walker ids and interleaving of their steps, removals and cluster updates",
 "One test compares the ratio of on/off times printed to stdout; no assertion on the distribution or the time constant.",
 [T+'cluster.cpp',T+'topology_feature.cpp'],[("calculateEscapeTimeConstant_, getDwellTime",T+"cluster.cpp")],[("remaining_walker_dwell_times_","rest of each walker's stay",T+"cluster.hpp")],["getDwellTime, getTimeConstant, getTimeIncrement, getResolution"])
p("C11","Clusters pick internal and exit sites with the right probabilities",
 "While a walker's stay on a cluster lasts, every pick is a site of the cluster, with probability proportional to the time spent there (occupation probability times the site's time constant); the pick that ends the stay is a site outside, with probability proportional to the flow into it summed over the cluster's sites. The reported hop-off probabilities cover exactly the sites outside the cluster that can be reached from it, sum to one and match the picks, also after the cluster has grown, merged or been updated.",
 ["inputs","histories"],"for every cluster, rates and history of additions, merges and updates",
 "Tests check two symmetric exit probabilities, and one cluster's visit shares with 20 % tolerance.",
 [T+'cluster.cpp'],[("pickNewSiteId, calculateProbabilityHopToNeighbors_, calculateProbabilityHopToInternalSite_",T+"cluster.cpp")],(),["pickNewSiteId, getProbabilityOfHoppingToNeighborOfCluster, getSiteIdsNeighboringCluster, getFastestRateOffCluster"])
p("C12","Cluster membership and occupancy survive growth and merging",
 "Adding sites to a cluster or migrating all sites of another cluster loses, duplicates and invents none: afterwards the cluster contains exactly the union, every site carries the cluster's id and the emptied cluster contains none and may be reused. Whether each site is occupied is tracked per site, survives additions and migrations, and a cluster reports being occupied exactly when at least one of its sites is (or the cluster was occupied as a whole).",
 ["histories","inputs"],"for every sequence of add, bulk add, migrate, occupy, vacate and remove operations over several clusters",
 "Tests add one or two sites and never migrate or track occupancy.",
 [T+'cluster.cpp',T+'cluster.hpp',T+'topology_feature.hpp'],[("addSite, addSites, migrateSitesFrom",T+"cluster.cpp"),("occupyCluster_, vacateCluster_",T+"cluster.cpp")],[("sitesInCluster_","members",T+"cluster.hpp")],["getSiteIdsInCluster, getSitesInCluster, siteIsInCluster, getNumberOfSitesInCluster, isOccupied"])
p("C13","Visit counts are exact off clusters and consistent on clusters",
 "For a site that never was part of a cluster the visit count equals the number of stays begun there (placements, arrivals and stays renewed after a blocked hop). Coarse graining never lowers a site's count; while a site is part of a cluster its count grows in proportion to the time walkers spend on the cluster and the site's share of hops, independent of the unit of time and of how often counts are queried, and it is carried over when clusters merge.",
 ["histories","inputs","configurations"],"for every walk, every pattern of queries, every scaling of the rates and every history of cluster growth",
 "Tests read counts once at the end of one run.",
 [T+'cluster.cpp',S+'coarsegrainsystem.cpp',T+'topology_feature.cpp'],[("getVisitFrequency, setVisitFrequency",T+"cluster.cpp"),("getVisitFrequencyOfSite",S+"coarsegrainsystem.cpp")],[("site_visits_","accumulated visits per site",T+"cluster.hpp")],["getVisitFrequencyOfSite, getVisitFrequency"])
p("C14","Sites hop with probability proportional to rate",
 "A site's hop probabilities are its rates divided by their sum, cover exactly its neighbours and sum to one; its time constant is the inverse of that sum; picks follow the probabilities and dwell times are exponentially distributed with the time constant. This holds after any sequence of adding, resetting and bulk-setting rates, and occupying, vacating and cluster bookkeeping on a site is an exact count.",
 ["inputs","histories"],"for every number of neighbours, neighbour ids, rates over many orders of magnitude (also equal ones) and order of changes",
 "Tests use up to four neighbours with moderate rates.",
 [T+'site.cpp',T+'topology_feature.cpp'],[("calculateProbabilityHopToNeighbors_, calculateDwellTimeConstant_, pickNewSiteId",T+"site.cpp"),("getDwellTime",T+"topology_feature.cpp")],[("neighRates_","rates to the neighbours",T+"site.hpp")],["all getters, pickNewSiteId, getDwellTime"])
p("C15","Rate, site and cluster stores are faithful and queries are pure",
 "The stores for rates, sites and clusters behave like plain maps: what was added is returned unchanged, duplicates and unknown ids are rejected with an exception that leaves the store as it was, also when they are part of a list, and no query changes the answer to any other query. Incoming and outgoing counts and rate sets, sources (only outgoing rates), sinks (only incoming rates), sizes, smallest cluster ids, neighbours and fastest rates always agree with the contents.",
 ["histories","inputs"],"for every sequence of additions, changes, erasures and (failing or succeeding) queries",
 "Tests make a few queries on stores with two entries.",
 [S+'rate_container.cpp',S+'site_container.cpp',S+'cluster_container.cpp'],[("existence checks before access",S+"*_container.cpp")],(),["all methods of the three containers"])
p("C16","The walker queue releases walkers in order of time and loses none",
 "Whatever mix of plain and sorted additions, sorting and popping, the queue holds exactly the walkers added and not yet popped, each with its own time, in unchanged multiplicity. A queue that reports being sorted is in non-decreasing order of time and releases a walker with the smallest time; sorting establishes this and sorted insertion into and popping from a sorted queue preserve it, while a plain addition is never reported as sorted unless it is.",
 ["histories","inputs"],"for every sequence of operations, queue length, tie pattern and sign or size of the times",
 "Tests use three or four walkers.",
 [S+'queue.cpp',I+'queue.hpp'],[("sortedAdd, sort, add, pop_current",S+"queue.cpp")],[("sorted_","whether order is established",I+"queue.hpp")],["pop_current, at, size, isSorted"])
p("C17","Lattice indices and positions convert back and forth exactly",
 "For every lattice, each index from 0 to the number of sites minus one corresponds to exactly one position within the dimensions and conversions in both directions, by coordinate or by position, are inverse to each other. Coordinates along a periodic direction are wrapped by any whole number of periods, positive or negative; coordinates outside a fixed direction, indices out of range and positions of the wrong dimension are rejected.",
 ["inputs","configurations"],"for every lattice size, boundary combination, index and coordinate",
 "Tests look up a few corners of one or two lattices.",
 [S+'charge_transport/cuboid_lattice.cpp',I+'charge_transport/cuboid_lattice.hpp'],[("getIndex, getPosition, getX, getY, getZ",S+"charge_transport/cuboid_lattice.cpp")],(),["return values and exceptions"])
p("C18","Lattice neighbours and distances are the shortest-image ones",
 "The neighbours of a site within a cutoff are exactly the other sites whose shortest distance, going around periodic directions where that is shorter and never across fixed ones, is at most the cutoff, each listed once with that distance. The distance between two sites is this shortest distance, hence symmetric and zero only for a site itself, and the per-site, per-position and whole-lattice queries agree with it and with each other.",
 ["inputs","configurations"],"for every lattice size (including sizes 1 and 2), boundary combination, spacing, site and cutoff, also cutoffs beyond half the lattice",
 "Tests count the six nearest neighbours of corner sites.",
 [S+'charge_transport/cuboid_lattice.cpp'],[("getNeighbors, getNeighborDistances, getSmallestDistance",S+"charge_transport/cuboid_lattice.cpp")],(),["return values"])
p("C19","Random lattice sites lie in the requested plane, uniformly",
 "A random site requested in a plane always lies in exactly that plane, every site of the plane is reachable and all are equally likely, whatever the proportions of the lattice. A plane index outside the lattice is rejected.",
 ["inputs","configurations"],"for every lattice size, plane and plane index",
 "No test calls it.",
 [S+'charge_transport/cuboid_lattice.cpp'],[("getRandomSite",S+"charge_transport/cuboid_lattice.cpp")],(),["returned indices over many draws"])
p("C20","Marcus rates follow the documented formula and detailed balance",
 "The rate equals 2*pi/hbar * H^2 / sqrt(4*pi*kB*T) * exp(-(lambda+Ej-Ei)^2/(4*lambda*kB*T)) for all energies, couplings, reorganisation energies and temperatures. Hence it is non-negative, depends only on the energy difference and the magnitude of the coupling, is largest where the energy difference cancels the reorganisation energy, and forward and backward rates obey detailed balance with the Boltzmann factor of the energy difference.",
 ["inputs"],"for every positive temperature and reorganisation energy and all energies and couplings",
 "There is no test of the rate.",
 [S+'charge_transport/marcus.cpp',I+'charge_transport/marcus.hpp',I+'constants.hpp'],[("getRate and the precomputed factors",S+"charge_transport/marcus.cpp")],(),["getRate"])
p("C21","No memory error or undefined behaviour on any valid history",
 "No valid use of the library - simulations with clusters forming, growing and merging under many walkers, and direct use of sites, clusters, containers, queues and lattices - reads or writes memory out of bounds or after it was freed, uses uninitialised values, leaks memory, fails an internal assertion or triggers undefined behaviour.",
 ["histories","inputs","configurations"],"for every valid sequence of API calls",
 "Tests run without sanitizers and reach few histories; dangling pointers into erased clusters go unnoticed.",
 [S+'coarsegrainsystem.cpp',T+'cluster.cpp',T+'site.cpp',S+'queue.cpp',S+'charge_transport/cuboid_lattice.cpp'],[("ownership: containers own sites and clusters, features are referred to by raw pointer",I+"coarsegrainsystem.hpp"),("rates are referred to by pointer into the caller's map",T+"site.cpp")],[("topology_features_","raw pointers to sites or clusters",I+"coarsegrainsystem.hpp")],["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, valgrind, library assertions"])
p("C22","Basin exploration finds the sites connected by fast rates",
 "Exploring from a site returns, without duplicates, the sites reachable from it over rates at least as fast as the reference rate - the fastest rate off the start site or, if it is in a cluster, the fastest rate off that cluster - up to a tolerance of well under one percent, and nothing else; if there are more of them than the exploration limit the result is empty. Exploration changes neither sites nor clusters, and the conversion of rates to graph edges yields exactly one edge per outgoing rate with the rate, or the inverse rate for times, as weight.",
 ["inputs","configurations"],"for every rate graph, start site, clustering and exploration limit",
 "Tests explore one hand-made graph and convert one or two edges.",
 [S+'basin_explorer.cpp',S+'graph_library_adapter.hpp',S+'graph_library_adapter.cpp'],[("findBasin, rateFastEnough_",S+"basin_explorer.cpp"),("convertSites...",S+"graph_library_adapter.hpp")],(),["returned site ids and edges"])
p("C23","Transport simulations conserve charges and obey the master equation",
 "A simulation put together from a lattice, Marcus rates, walkers and the queue, as in the documentation and the time-of-flight example, reproduces the physics it stands for. Walkers injected are in the system or have been collected, each exactly once, time never runs backwards, and collected walkers no longer block a site. Without a field and without exits, sites are occupied in proportion to their Boltzmann factors, for several walkers under mutual exclusion; with a field the drift velocity and the occupations are those of the master equation; the mean time a single walker takes from one electrode to the other is the exact mean first-passage time. Coarse graining deep traps does not change how often they are occupied.",
 ["inputs","histories","configurations"],"for every lattice size, boundary combination, energy landscape, field, temperature, cutoff, number of walkers and seed",
 "No test combines lattice, rates, queue and system; the example programs print numbers nobody compares.",
 [S+'coarsegrainsystem.cpp',T+'site.cpp',T+'cluster.cpp',S+'queue.cpp',S+'charge_transport/cuboid_lattice.cpp',S+'charge_transport/marcus.cpp'],[("getNeighborDistances -> getRate -> initializeSystem -> hop","README.md and examples"),("blocked walkers draw a new dwell time",S+"coarsegrainsystem.cpp hop")],[("time","sum of the dwell times, in the order of the queue",S+"queue.cpp")],["positions and dwell times of all walkers, the queue, visit counts"])
p("C24","Independent simulations in parallel threads do not interfere",
 "Systems, sites, clusters, stores, queues, lattices and walkers that are not shared between threads may be used in different threads at the same time, and rates and const lattices that are only read may be shared. There is then no data race, every simulation goes through exactly the trajectory, dwell times, clusters and visit counts it goes through when it runs alone with the same seed, and no two clusters in the process have the same id.",
 ["schedules","histories","configurations"],"for every number of threads, every interleaving of the calls, every mix of systems and every seed",
 "The tests have a single thread; a race shows in few interleavings, and only as a wrong number far away from it.",
 [S+'coarsegrainsystem.cpp',T+'cluster.cpp',T+'site.cpp',S+'basin_explorer.cpp',S+'queue.cpp',S+'charge_transport/cuboid_lattice.cpp',S+'charge_transport/marcus.cpp'],[("construction of clusters in any thread",T+"cluster.cpp Cluster()"),("rates handed to several systems","initializeSystem")],[("clusterIdCounter","counter of all clusters of the process",T+"cluster.cpp")],["event log of each thread, ids of all clusters, memory accesses under the race detector"])
p("C25","The units of time and length are the user's choice",
 "Nothing in a simulation has a built-in scale of time. With all rates multiplied by a power of two and the time resolution divided by it, a simulation with the same seed takes exactly the same course - the same hops, clusters, resolutions and visit counts - with all dwell times and time increments divided by that factor, bit by bit; the same holds for sites, clusters and the exploration of basins by themselves. With the spacing of a lattice and the cutoff multiplied by a power of two, every site has the same neighbours at distances multiplied by it.",
 ["inputs","histories"],"for every system, seed, history and every power of two from 2^-200 to 2^200",
 "Tests use rates near 1; tolerances and sentinels with a built-in scale show only with rates like 1e-20 or 1e13.",
 [S+'coarsegrainsystem.cpp',T+'cluster.cpp',T+'cluster.hpp',T+'site.cpp',S+'basin_explorer.cpp',S+'graph_library_adapter.hpp',S+'charge_transport/cuboid_lattice.cpp'],[("rates handed to initializeSystem, time resolution","coarsegrainsystem.cpp"),("spacing and cutoff",S+"charge_transport/cuboid_lattice.cpp")],(),["event logs of twin runs"])
p("C26","Walker names, equivalent calls and queries do not influence a simulation",
 "The id of a walker is only a name: under any one-to-one renaming of the walkers, with any values of int, a simulation with the same seed takes exactly the same course. So it does when walkers are placed one by one instead of in one call, when the other overload of hop or removeWalkerFromSystem is used, and when clusters, resolutions, time increments, visit counts or anything else is read at any time and however often. The same holds for the walkers and queries of a single cluster.",
 ["histories","configurations"],"for every system, seed, history, renaming and pattern of queries",
 "Tests number walkers from 0 or 1 and query at the end.",
 [S+'coarsegrainsystem.cpp',T+'cluster.cpp',T+'topology_feature.cpp',S+'cluster_container.cpp',S+'site_container.cpp'],[("hop, initializeWalkers, removeWalkerFromSystem",S+"coarsegrainsystem.cpp"),("queries of the system and of clusters",S+"coarsegrainsystem.cpp")],[("remaining dwell times by walker id",T+"cluster.hpp")],["event logs of twin runs"])
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
