#include "model.hpp"
#include "libmythical/topologyfeatures/site.hpp"
using namespace vf;
using mythical::Site;

// every reported quantity of a site against the rates it was given
static void checkSite(Ctx& c, Site& s, const std::map<int, double>& m) {
  double sum = 0, fastest = 0;
  for (auto& p : m) {
    sum += p.second;
    fastest = std::max(fastest, p.second);
  }
  std::vector<int> n = s.getNeighborSiteIds();
  std::set<int> ns(n.begin(), n.end());
  REQUIRE_THAT(n.size() == m.size() && ns.size() == m.size(), "neighbours", "site lists " << n.size() << " neighbours (" << ns.size() << " distinct), has rates to " << m.size());
  for (auto& p : m) REQUIRE_THAT(ns.count(p.first) && s.isNeighbor(p.first), "neighbours", "neighbour " << p.first << " is missing");
  REQUIRE_THAT(close(s.getTimeConstant(), 1.0 / sum, 1e-10), "time-constant", "time constant " << s.getTimeConstant() << ", inverse of summed rates " << 1.0 / sum << " over " << m.size() << " neighbours");
  REQUIRE_THAT(s.getFastestRate() == fastest, "fastest-rate", "fastest rate " << s.getFastestRate() << " expected " << fastest);
  auto pr = s.getProbabilitiesAndIdsOfNeighbors();
  REQUIRE_THAT(pr.size() == m.size(), "probabilities", "probabilities for " << pr.size() << " neighbours of " << m.size());
  double tot = 0;
  std::set<int> seen;
  for (auto& p : pr) {
    auto it = m.find(p.first);
    REQUIRE_THAT(it != m.end() && seen.insert(p.first).second, "probabilities", "probability for " << p.first << ", which is no neighbour or listed twice");
    REQUIRE_THAT(close(p.second, it->second / sum, 1e-10), "probabilities", "hop probability to " << p.first << " is " << p.second << ", rate share is " << it->second / sum);
    tot += p.second;
  }
  REQUIRE_THAT(close(tot, 1.0, 1e-9), "probabilities", "probabilities sum to " << tot);
  std::vector<double> rv = s.getRateToNeighbors();
  std::vector<double> rm;
  for (auto& p : m) {
    rm.push_back(p.second);
    REQUIRE_THAT(s.getRateToNeighbor(p.first) == p.second, "rates", "rate to " << p.first << " is " << s.getRateToNeighbor(p.first) << " expected " << p.second);
    REQUIRE_THAT(close(s.getProbabilityOfHoppingToNeighboringSite(p.first), p.second / sum, 1e-10), "probabilities", "hop probability to " << p.first << " is " << s.getProbabilityOfHoppingToNeighboringSite(p.first) << ", rate share is " << p.second / sum);
  }
  std::sort(rv.begin(), rv.end());
  std::sort(rm.begin(), rm.end());
  REQUIRE_THAT(rv == rm, "rates", "list of rates differs from the rates given");
  auto nr = s.getNeighborsAndRates();
  auto& nrc = s.getNeighborsAndRatesConst();
  REQUIRE_THAT(nr.size() == m.size() && nrc.size() == m.size(), "rates", "rate map has " << nr.size() << " entries, expected " << m.size());
  for (auto& p : m) REQUIRE_THAT(nr.count(p.first) && *nr[p.first] == p.second && nrc.count(p.first) && *nrc.at(p.first) == p.second, "rates", "rate map entry for " << p.first);
  c.event("site-states-compared");
}

static double drawRate(Rng& r, int mode, double base) {
  switch (mode) {
    case 0: return base;
    case 1: return base * r.logu(1e-3, 1e3);
    case 2: return r.logu(1e-30, 1e30);
    case 3: return base * (1 + 1e-9 * r.uni());
    default: return r.chance(0.5) ? base : base * r.logu(1e-6, 1);
  }
}

// any history of adding, resetting and bulk-setting rates
WORKLOAD(C14, rate_history, 4) {
  Rng& r = c.rng;
  Site s;
  s.setId((int)r.range(-100, 100));
  s.setRandomSeed(r.u64());
  size_t maxN = r.chance(0.15) ? 300 : r.chance(0.3) ? 40 : 6;
  std::vector<int> ids = makeIds(r, maxN);
  int mode = (int)r.range(0, 4);
  double base = r.chance(0.3) ? 1.0 : r.logu(1e-20, 1e20);
  std::map<int, double> m;
  std::vector<std::unique_ptr<double>> cells;
  std::vector<std::unique_ptr<std::unordered_map<int, double>>> bulks;
  int ops = (int)r.range(1, 25);
  for (int o = 0; o < ops; ++o) {
    int k = (int)r.range(0, 3);
    if (k == 0 || (m.empty() && k != 2)) {
      int id = r.pick(ids);
      if (m.count(id)) k = 1;
      else {
        cells.emplace_back(new double(drawRate(r, mode, base)));
        s.addNeighRate(std::make_pair(id, cells.back().get()));
        m[id] = *cells.back();
        c.event("addNeighRate");
      }
    }
    if (k == 1) {
      int id = r.pick(ids);
      cells.emplace_back(new double(drawRate(r, mode, base)));
      s.resetNeighRate(std::make_pair(id, cells.back().get()));
      m[id] = *cells.back();
      c.event("resetNeighRate");
    } else if (k == 2) {
      bulks.emplace_back(new std::unordered_map<int, double>());
      size_t n = (size_t)r.range(1, (int64_t)maxN);
      for (size_t i = 0; i < n; ++i) {
        int id = r.pick(ids);
        double v = drawRate(r, mode, base);
        (*bulks.back())[id] = v;
        m[id] = v;
      }
      s.setRatesToNeighbors(*bulks.back());
      c.event("setRatesToNeighbors");
    } else if (k == 3) {
      // rates are kept by pointer: change one outside, then tell the site
      auto all = s.getNeighborsAndRates();
      auto it = all.begin();
      std::advance(it, r.range(0, (int64_t)all.size() - 1));
      int id = it->first;
      *it->second = drawRate(r, mode, base);
      // the site refers to the same cell, nothing else does
      m[id] = *it->second;
      REQUIRE_THAT(s.getRateToNeighbor(id) == m[id], "external-rate", "externally changed rate is not seen");
      s.resetNeighRate(std::make_pair(id, it->second));
      c.event("external-change");
    }
    checkSite(c, s, m);
    c.mixsig((uint64_t)k * 1000 + m.size());
  }
  c.nontrivial = m.size() > 1;
  c.mixsig(s.getTimeConstant());
  // picks stay on the neighbours
  for (int i = 0; i < 200; ++i) {
    int p = i % 2 ? s.pickNewSiteId() : s.pickNewSiteId((int)r.range(-5, 5));
    REQUIRE_THAT(m.count(p), "pick", "picked " << p << " which is not a neighbour");
    double d = s.getDwellTime(i);
    REQUIRE_THAT(d >= 0 && std::isfinite(d), "dwell", "dwell time " << d);
    c.event("picks");
  }
  if (c.index % 50 < 2) c.sample = Msg() << ops << " rate operations, " << m.size() << " neighbours, time constant " << s.getTimeConstant();
}

// pick frequencies and dwell time distribution
WORKLOAD(C14, statistics, 2) {
  Rng& r = c.rng;
  Site s;
  s.setRandomSeed(r.u64());
  size_t n = r.chance(0.1) ? (size_t)r.range(40, 120) : (size_t)r.range(1, 9);
  std::vector<int> ids = makeIds(r, n);
  int mode = (int)r.range(0, 4);
  if (mode == 2) mode = 1;
  double base = r.logu(1e-10, 1e10);
  std::unordered_map<int, double> st;
  double sum = 0;
  for (int id : ids) {
    st[id] = drawRate(r, mode, base);
    sum += st[id];
  }
  s.setRatesToNeighbors(st);
  int N = c.fast ? (c.thorough ? 200000 : 40000) : 4000;
  std::unordered_map<int, int> hits;
  std::vector<double> dw;
  double tot = 0;
  for (int i = 0; i < N; ++i) {
    int p = s.pickNewSiteId();
    REQUIRE_THAT(st.count(p), "pick", "picked " << p << " which is not a neighbour");
    ++hits[p];
    double d = s.getDwellTime(0);
    dw.push_back(d);
    tot += d;
  }
  for (auto& p : st)
    REQUIRE_THAT(binomOk(hits[p.first], N, p.second / sum, 1e-9), "pick-frequency", "neighbour picked " << hits[p.first] << " times of " << N << ", probability " << p.second / sum << ", " << n << " neighbours");
  REQUIRE_THAT(expMeanOk(tot / N, N, 1 / sum), "dwell-mean", "mean dwell time " << tot / N << " of " << N << ", time constant " << 1 / sum);
  REQUIRE_THAT(expShapeOk(dw, 1 / sum), "dwell-shape", "dwell times are not exponential with time constant " << 1 / sum);
  // consecutive draws independent: no correlation between pick and dwell
  int both = 0;
  for (int i = 1; i < N; ++i) both += dw[i] * sum > std::log(2.0) && dw[i - 1] * sum > std::log(2.0);
  REQUIRE_THAT(std::fabs(both - (N - 1) * 0.25) <= 2.0 + std::sqrt(LIM * N * 2.0), "dwell-independence", "successive dwell times are correlated: " << both << " of " << N);
  c.event("picks", N);
  c.event("dwell-times", N);
  c.nontrivial = n > 1;
  c.mixsig(sum);
}

// occupancy, visits and cluster id are exact
WORKLOAD(C14, bookkeeping, 2) {
  Rng& r = c.rng;
  Site s;
  int id = makeIds(r, 1)[0];
  s.setId(id);
  int occ = 0, cl = mythical::constants::unassignedId;
  long visits = 0;
  REQUIRE_THAT(!s.isOccupied() && s.getVisitFrequency() == 0 && !s.partOfCluster(), "fresh", "a new site is occupied, visited or in a cluster");
  int ops = (int)r.range(1, 60);
  for (int i = 0; i < ops; ++i) {
    int k = (int)r.range(0, 6);
    int arg = (int)r.range(-5, 5);
    if (k == 0) {
      if (r.chance(0.5)) s.occupy(); else s.occupy(arg);
      ++occ;
      ++visits;
    } else if (k == 1 && occ > 0) {
      if (r.chance(0.5)) s.vacate(); else s.vacate(arg);
      --occ;
    } else if (k == 2 && occ > 0) {
      s.removeWalker((int)r.range(0, 9), id);
      --occ;
    } else if (k == 3) {
      cl = r.chance(0.3) ? mythical::constants::unassignedId : (int)r.range(0, 1000);
      s.setClusterId(cl);
    } else if (k == 4 && occ <= 1) {
      if (r.chance(0.5)) {
        s.setToOccupiedStatus();
        occ = 1;
      } else {
        s.setToUnoccupiedStatus();
        occ = 0;
      }
    } else if (k == 5 && r.chance(0.3)) {
      // counts beyond the range of int included
      visits = r.chance(0.5) ? (long)r.range(0, 1000000) : (long)std::numeric_limits<int>::max() - (long)r.range(0, 3);
      if (r.chance(0.5)) s.setVisitFrequency(visits); else s.setVisitFrequency(visits, arg);
    } else if (k == 6 && r.chance(0.3)) {
      Site t(s);  // copies carry the bookkeeping
      s = t;
    }
    REQUIRE_THAT(s.isOccupied() == (occ > 0) && s.isOccupied(arg) == (occ > 0), "occupancy", "occupied " << s.isOccupied() << ", model count " << occ);
    REQUIRE_THAT(s.getVisitFrequency() == visits && s.getVisitFrequency(arg) == visits, "visits", "visits " << s.getVisitFrequency() << " expected " << visits);
    REQUIRE_THAT(s.getClusterId() == cl && s.partOfCluster() == (cl > -1), "cluster-id", "cluster id " << s.getClusterId() << " expected " << cl);
    REQUIRE_THAT(s.getId() == id, "id", "id changed");
    c.mixsig((uint64_t)(k * 64 + occ));
    c.event("bookkeeping-steps");
  }
  c.nontrivial = ops > 5;
}
