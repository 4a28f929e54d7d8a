// C24: simulations that share nothing but the process (and inputs that are only read) may run in
// threads. The race detector watches, and what each of them does is compared with what it does
// alone.
#include <atomic>
#include <exception>
#include <thread>

#include "libmythical/cluster_container.hpp"
#include "libmythical/rate_container.hpp"
#include "libmythical/site_container.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
#include "mythical/charge_transport/marcus.hpp"
#include "mythical/queue.hpp"
#include "sim.hpp"
using namespace vf;
using namespace mythical;
using mythical::charge_transport::BoundarySetting;
using mythical::charge_transport::Cuboid;
using mythical::charge_transport::Marcus;

typedef std::vector<uint64_t> EventLog;

// The order in which the threads got on. Relaxed operations: the monitor must not order what the
// library leaves unordered.
struct Order {
  std::atomic<uint32_t> n{0};
  std::vector<std::atomic<int>> who;
  Order() : who(4096) {
    for (auto& w : who) w.store(-1, std::memory_order_relaxed);
  }
  void mark(int t) {
    uint32_t k = n.fetch_add(1, std::memory_order_relaxed);
    if (k < who.size()) who[k].store(t, std::memory_order_relaxed);
  }
  // how often it was another thread's turn
  uint64_t switches(uint64_t& sig) {
    uint64_t s = 0;
    int last = -1;
    for (uint32_t k = 0; k < who.size() && k < n.load(); ++k) {
      int t = who[k].load();
      if (last >= 0 && t != last) ++s;
      last = t;
      sig = mix(sig ^ (uint64_t)(t + 1));
    }
    return s;
  }
};

// lets the others go first now and then
static void disturb(Rng& r) {
  double u = r.uni();
  if (u < 0.03)
    std::this_thread::yield();
  else if (u < 0.033)
    usleep((useconds_t)r.range(1, 80));
}

// f(thread, order, rng for delays) in T threads, started together
template <typename F>
static void together(Ctx& c, int T, F f) {
  std::vector<std::thread> threads;
  std::vector<std::exception_ptr> failed(T);
  std::atomic<int> ready{0};
  std::atomic<bool> go{false};
  Order order;
  std::vector<uint64_t> seeds;
  for (int t = 0; t < T; ++t) seeds.push_back(c.rng.u64());
  for (int t = 0; t < T; ++t)
    threads.emplace_back([&, t] {
      Rng delays(seeds[t]);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
      try {
        f(t, order, delays);
      } catch (...) {
        failed[t] = std::current_exception();
      }
    });
  while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
  go.store(true, std::memory_order_relaxed);
  for (auto& x : threads) x.join();
  for (auto& e : failed)
    if (e) std::rethrow_exception(e);
  uint64_t sig = 0, s = order.switches(sig);
  c.mixsig(sig);
  c.event("turns", s);
  if (s > 2) c.event("interleaved-runs");
  c.nontrivial = s > 2;
}

static void same(const EventLog& a, const EventLog& b, const std::string& what) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i) REQUIRE_THAT(a[i] == b[i], "disturbed", what << ": in a thread beside others the event log differs at entry " << i << " of " << a.size() << " and " << b.size());
  REQUIRE_THAT(a.size() == b.size(), "disturbed", what << ": " << a.size() << " events alone, " << b.size() << " in a thread beside others");
}

static void distinct(const std::vector<std::vector<int>>& ids) {
  std::map<int, size_t> seen;
  for (size_t t = 0; t < ids.size(); ++t)
    for (int id : ids[t]) {
      auto p = seen.insert(std::make_pair(id, t));
      REQUIRE_THAT(p.second, "cluster-id", "the id " << id << " was given to two clusters, by threads " << p.first->second << " and " << t);
    }
}

static void add(EventLog& l, double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  l.push_back(u);
}
static void add(EventLog& l, int64_t i) { l.push_back((uint64_t)i); }

// ------------------------------------------------------------------ whole simulations
WORKLOAD(C24, replicas, 4) {
  Rng& r = c.rng;
  int T = (int)r.range(2, 5);
  long steps = (long)r.range(100, 700);
  std::vector<Spec> specs;
  std::vector<uint64_t> drv;
  for (int t = 0; t < T; ++t) {
    if (t && r.chance(0.3)) {
      specs.push_back(specs[0]);
      drv.push_back(drv[0]);
      continue;
    }
    Spec s;
    if (r.chance(0.25))
      familyHub(r, s);
    else if (r.chance(0.6)) {
      familyNested(r, s, 14);
      s.threshold = (int)r.range(1, 30);
      s.seed = (unsigned long)r.range(0, 100000);
      s.maxWalkers = (size_t)r.range(1, 4);
      s.addition = 0.02;
    } else
      s = makeSpec(c);
    specs.push_back(s);
    drv.push_back(r.u64());
  }
  std::vector<EventLog> alone(T), beside(T);
  std::vector<Ctx> own(T, c);
  std::vector<std::vector<int>> ids(T);
  std::vector<long> formed(T, 0);
  bool first = r.chance(0.5);
  for (int pass = 0; pass < 2; ++pass) {
    if ((pass == 0) == first)
      for (int t = 0; t < T; ++t) {
        Ctx quiet = c;
        Sim s(quiet, specs[t], 0, drv[t]);
        s.record = true;
        s.run(steps);
        alone[t] = s.log;
      }
    else
      together(c, T, [&](int t, Order& order, Rng& delays) {
        Sim s(own[t], specs[t], 0, drv[t]);
        s.record = true;
        s.tick = [&](Sim&) {
          disturb(delays);
          order.mark(t);
        };
        s.run(steps);
        beside[t] = s.log;
        for (auto& x : s.clusters) ids[t].push_back(x.first);
        for (int d : s.dead) ids[t].push_back(d);
        formed[t] = s.created;
        own[t].counters.clear();
        own[t].event("hops", (uint64_t)s.hops);
        own[t].event("clusters-formed", (uint64_t)s.created);
      });
  }
  for (int t = 0; t < T; ++t) {
    same(alone[t], beside[t], Msg() << "simulation " << t << " of " << T << ", " << specs[t].family << ", seed " << specs[t].seed);
    for (auto& p : own[t].counters) c.event(p.first.c_str(), p.second);
    c.event("events-compared", alone[t].size());
  }
  distinct(ids);
  int busy = 0;
  for (long f : formed) busy += f > 0;
  if (busy > 1) c.event("threads-forming-clusters", (uint64_t)busy);
  if (c.index % 20 == 0) c.sample = Msg() << T << " simulations of " << steps << " steps in threads, " << busy << " of them forming clusters";
}

// replicas of one device: rates, lattice and energies are the same objects for all
WORKLOAD(C24, shared_inputs, 2) {
  Rng& r = c.rng;
  int T = (int)r.range(2, 5);
  int L = (int)r.range(3, 6), W = (int)r.range(2, 4), H = (int)r.range(1, 3);
  double d = r.logu(0.5, 2), cutoff = d * r.flat(1.05, 1.8), lambda = r.flat(0.1, 0.4), temp = r.flat(200, 500), field = r.flat(-0.05, 0.05) / d;
  auto b = [&] { return r.chance(0.5) ? BoundarySetting::Periodic : BoundarySetting::Fixed; };
  const Cuboid lattice(L, W, H, d, BoundarySetting::Fixed, b(), b());
  std::vector<double> energy;
  for (int i = 0; i < L * W * H; ++i) energy.push_back(0.1 * (r.uni() + r.uni() + r.uni()));
  // a few deep pairs, to be coarse grained
  for (int k = 0; k < 3; ++k) {
    int s = (int)r.range(0, L * W * H - 2);
    energy[s] = energy[s + 1] = -0.4;
  }
  auto calculate = [&] {
    Marcus marcus(lambda, temp);
    auto dist = lattice.getNeighborDistances(cutoff);
    Store rates;
    for (auto& a : dist)
      for (auto& e : a.second) {
        double Ej = energy[e.first] - field * (lattice.getX(e.first) - lattice.getX(a.first)) * lattice.getLatticeSpacing();
        rates[a.first][e.first] = marcus.getRate(energy[a.first], Ej, 0.1 * std::exp(-e.second / d));
      }
    return rates;
  };
  Store shared = calculate();
  double mean = 0;
  size_t n = 0;
  for (auto& a : shared)
    for (auto& e : a.second) {
      mean += e.second;
      ++n;
    }
  double tres = r.logu(1, 1000) * (double)n / mean;
  int threshold = (int)r.range(5, 60), walkers = (int)r.range(1, 4);
  long hops = (long)r.range(200, 1500);
  unsigned long seed = (unsigned long)r.range(0, 1000000);
  bool own = r.chance(0.4);  // rates calculated by each thread, lattice shared
  std::vector<int> starts;
  for (int i = 0; i < L * W * H; ++i) starts.push_back(i);
  r.shuffle(starts);
  // everything a lattice that is not changed can be asked
  auto ask = [&](int site, EventLog& log) {
    std::vector<int> pos = lattice.getPosition(site);
    for (int x : pos) add(log, (int64_t)x);
    add(log, (int64_t)(lattice.getX(site) + 100 * lattice.getY(site) + 10000 * lattice.getZ(site)));
    add(log, (int64_t)lattice.getIndex(pos[0], pos[1], pos[2]));
    add(log, (int64_t)(lattice.getLength() * lattice.getWidth() * lattice.getHeight()));
    for (int x : lattice.getNeighbors(site, cutoff)) add(log, (int64_t)x);
    for (auto& e : lattice.getNeighborDistances(site, cutoff)) {
      add(log, (int64_t)e.first);
      add(log, e.second);
    }
    for (auto& e : lattice.getNeighborDistances(pos, cutoff)) add(log, e.second);
    try {
      lattice.getPosition(-1 - site);
      add(log, (int64_t)1);
    } catch (std::invalid_argument&) {
      add(log, (int64_t)2);
    }
  };
  auto simulate = [&](int t, std::vector<int>& ids, std::function<void()> tick) {
    EventLog log;
    Store mine;
    if (own) {
      mine = calculate();
      for (auto& a : mine)
        for (auto& e : a.second) REQUIRE_THAT(shared.at(a.first).at(e.first) == e.second, "disturbed", "a rate calculated in a thread is " << e.second << " instead of " << shared.at(a.first).at(e.first));
    }
    CoarseGrainSystem sys;
    sys.setRandomSeed(seed + 1000 * t);
    sys.setTimeResolution(tres);
    sys.setMinCoarseGrainIterationThreshold(threshold);
    sys.initializeSystem(own ? mine : shared);
    std::vector<std::pair<int, WalkerPtr>> ws;
    for (int i = 0; i < walkers; ++i) {
      ws.emplace_back(i, std::make_shared<Walker>());
      ws.back().second->occupySite(starts[i]);
    }
    sys.initializeWalkers(ws);
    Queue q;
    for (auto& w : ws) q.add(std::make_pair(w.first, w.second->getDwellTime()));
    q.sort();
    for (long k = 0; k < hops; ++k) {
      tick();
      auto e = q.pop_current();
      sys.hop(ws[e.first]);
      int site = ws[e.first].second->getIdOfSiteCurrentlyOccupying();
      add(log, (int64_t)site);
      add(log, (int64_t)lattice.getIndex(lattice.getPosition(site)));
      add(log, lattice.getSmallestDistance(0, site));
      if (k % 16 == 0) ask(site, log);
      add(log, e.second);
      e.second += ws[e.first].second->getDwellTime();
      q.sortedAdd(e);
    }
    for (auto& x : sys.getClusters()) ids.push_back(x.first);
    add(log, (int64_t)ids.size());
    return log;
  };
  std::vector<EventLog> alone(T), beside(T);
  std::vector<std::vector<int>> ids(T), before(T);
  bool first = r.chance(0.5);
  for (int pass = 0; pass < 2; ++pass) {
    if ((pass == 0) == first)
      for (int t = 0; t < T; ++t) alone[t] = simulate(t, before[t], [] {});
    else
      together(c, T, [&](int t, Order& order, Rng& delays) {
        beside[t] = simulate(t, ids[t], [&] {
          disturb(delays);
          order.mark(t);
        });
      });
  }
  int busy = 0;
  for (int t = 0; t < T; ++t) {
    same(alone[t], beside[t], Msg() << "replica " << t << " of " << T << " of a device of " << L << "x" << W << "x" << H << " sites");
    c.event("events-compared", alone[t].size());
    c.event("hops", (uint64_t)hops);
    busy += !ids[t].empty();
  }
  ids.insert(ids.end(), before.begin(), before.end());
  distinct(ids);
  if (busy > 1) c.event("threads-forming-clusters", (uint64_t)busy);
  c.event(own ? "shared-lattices" : "shared-rates");
}

// ------------------------------------------------------------------ the parts by themselves
WORKLOAD(C24, parts, 2) {
  Rng& r = c.rng;
  int T = (int)r.range(2, 6), n = (int)r.range(3, 25);
  std::vector<uint64_t> seeds;
  for (int t = 0; t < T; ++t) seeds.push_back(r.u64());
  auto work = [&](int t, std::vector<int>& ids, std::function<void()> tick) {
    Rng q(seeds[t]);
    EventLog log;
    Queue queue;
    Cluster_Container store;
    std::vector<Store> keep;
    keep.reserve((size_t)n);
    for (int k = 0; k < n; ++k) {
      tick();
      ClusterGraph cg = makeClusterGraph(q, (size_t)q.range(2, 6), (size_t)q.range(1, 3), q.flat(0, 3), q.chance(0.3));
      keep.push_back(toStore(cg.g));
      Rate_Container rates;
      for (auto& a : keep.back())
        for (auto& b : a.second) rates.addRate(a.first, b.first, &b.second);
      Site_Container sites;
      Cluster cl;
      ids.push_back(cl.getId());
      cl.setRandomSeed(q.u64());
      tick();
      for (int id : cg.in) {
        Site s;
        s.setId(id);
        s.setRandomSeed(q.u64());
        s.setRatesToNeighbors(keep.back()[id]);
        sites.addSite(s);
        add(log, s.getDwellTime(1));
        add(log, (int64_t)s.pickNewSiteId(1));
        add(log, (int64_t)rates.getOutgoingRates(id).size());
        cl.addSite(s);
      }
      int method = (int)q.range(0, 2);
      if (method == 1) {
        cl.setConvergenceMethod(Cluster::converge_by_iterations_per_site);
        cl.setConvergenceIterations((long)q.range(1, 30));
      } else if (method == 2) {
        cl.setConvergenceMethod(Cluster::converge_by_iterations_per_cluster);
        cl.setConvergenceIterations((long)q.range(1, 60));
      }
      tick();
      cl.updateProbabilitiesAndTimeConstant();
      add(log, cl.getTimeConstant());
      for (int id : cg.in) add(log, cl.getProbabilityOfOccupyingInternalSite(id));
      if (q.chance(0.3)) {
        std::ostringstream o;
        o << cl;
        add(log, (int64_t)(o.str().size() > 0));
      }
      {
        int l = (int)q.range(1, 5), w = (int)q.range(1, 5), h = (int)q.range(1, 5), at = (int)q.range(0, w - 1);
        Cuboid own(l, w, h);
        for (int i = 0; i < 3; ++i) add(log, (int64_t)own.getY(own.getRandomSite(Cuboid::Plane::XZ, at)));
      }
      for (int i = 0; i < 8; ++i) {
        tick();
        add(log, cl.getDwellTime(i % 3));
        add(log, (int64_t)cl.pickNewSiteId(i % 3));
      }
      store.addCluster(cl);
      queue.add(std::make_pair(k, cl.getTimeConstant()));
      queue.sort();
      add(log, queue.at(0).second);
    }
    add(log, (int64_t)store.size());
    return log;
  };
  std::vector<EventLog> alone(T), beside(T);
  std::vector<std::vector<int>> ids(T), before(T);
  bool first = r.chance(0.5);
  for (int pass = 0; pass < 2; ++pass) {
    if ((pass == 0) == first)
      for (int t = 0; t < T; ++t) alone[t] = work(t, before[t], [] {});
    else
      together(c, T, [&](int t, Order& order, Rng& delays) {
        beside[t] = work(t, ids[t], [&] {
          disturb(delays);
          order.mark(t);
        });
      });
  }
  for (int t = 0; t < T; ++t) {
    same(alone[t], beside[t], Msg() << "sites, clusters and stores of thread " << t);
    c.event("events-compared", alone[t].size());
    c.event("clusters-made", (uint64_t)n);
  }
  ids.insert(ids.end(), before.begin(), before.end());
  distinct(ids);
}
