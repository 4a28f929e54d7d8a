#include "common.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
using namespace vf;
using mythical::charge_transport::BoundarySetting;
using mythical::charge_transport::Cuboid;

struct Lat {
  int L[3];
  bool per[3];
  double d;
  int total;
  BoundarySetting b(int i) const { return per[i] ? BoundarySetting::Periodic : BoundarySetting::Fixed; }
};

static Cuboid build(Rng& r, const Lat& l) {
  BoundarySetting b[3];
  for (int i = 0; i < 3; ++i) b[i] = l.per[i] ? BoundarySetting::Periodic : BoundarySetting::Fixed;
  if (!l.per[0] && !l.per[1] && !l.per[2]) {
    if (l.d == 1.0 && r.chance(0.5)) return Cuboid(l.L[0], l.L[1], l.L[2]);
    if (r.chance(0.5)) return Cuboid(l.L[0], l.L[1], l.L[2], l.d);
  }
  return Cuboid(l.L[0], l.L[1], l.L[2], l.d, b[0], b[1], b[2]);
}
static Lat drawLat(Rng& r, int maxTotal) {
  Lat l;
  do {
    int shape = (int)r.range(0, 5);
    for (int i = 0; i < 3; ++i)
      l.L[i] = shape == 0 ? (int)r.range(1, 3) : shape == 1 ? (int)r.range(1, 6) : shape == 2 ? (int)r.range(2, 9) : shape == 3 ? (r.chance(0.5) ? 1 : (int)r.range(1, 40)) : (int)r.logu(1, 30);
    l.total = l.L[0] * l.L[1] * l.L[2];
  } while (l.total > maxTotal);
  for (int i = 0; i < 3; ++i) l.per[i] = r.chance(0.5);
  double ds[] = {1.0, 1.0, 0.5, 2.0, 0.1, 3.7, 1e-9, 1e3};
  l.d = ds[r.range(0, 7)];
  return l;
}
template <typename F>
static bool throws(F f) {
  try {
    f();
  } catch (const std::invalid_argument&) {
    return true;
  } catch (const std::out_of_range&) {
    return true;
  } catch (const std::runtime_error&) {
    return true;
  }
  return false;
}
static std::string show(const Lat& l) {
  return Msg() << l.L[0] << "x" << l.L[1] << "x" << l.L[2] << " periodic " << l.per[0] << l.per[1] << l.per[2] << " spacing " << l.d;
}

WORKLOAD(C17, bijection, 3) {
  Rng& r = c.rng;
  Lat l = drawLat(r, 4000);
  const Cuboid cu = build(r, l);
  REQUIRE_THAT(cu.getLength() == l.L[0] && cu.getWidth() == l.L[1] && cu.getHeight() == l.L[2], "size", "dimensions are reported wrongly for " << show(l));
  REQUIRE_THAT(cu.isXPeriodic() == l.per[0] && cu.isYPeriodic() == l.per[1] && cu.isZPeriodic() == l.per[2], "bounds", "boundary settings are reported wrongly for " << show(l));
  REQUIRE_THAT(cu.getLatticeSpacing() == l.d, "spacing", "spacing is reported wrongly for " << show(l));
  std::vector<char> seen((size_t)l.total, 0);
  for (int i = 0; i < l.total; ++i) {
    std::vector<int> p = cu.getPosition(i);
    REQUIRE_THAT(p.size() == 3, "position", "position has " << p.size() << " coordinates");
    for (int k = 0; k < 3; ++k) REQUIRE_THAT(p[k] >= 0 && p[k] < l.L[k], "position-range", "coordinate " << k << " of index " << i << " is " << p[k] << " in " << show(l));
    REQUIRE_THAT(cu.getX(i) == p[0] && cu.getY(i) == p[1] && cu.getZ(i) == p[2], "components", "getX/getY/getZ of " << i << " differ from its position in " << show(l));
    REQUIRE_THAT(cu.getIndex(p) == i && cu.getIndex(p[0], p[1], p[2]) == i, "inverse", "index of the position of " << i << " is " << cu.getIndex(p) << " in " << show(l));
    c.event("indices-round-tripped");
  }
  for (int z = 0; z < l.L[2]; ++z)
    for (int y = 0; y < l.L[1]; ++y)
      for (int x = 0; x < l.L[0]; ++x) {
        int i = cu.getIndex(x, y, z);
        REQUIRE_THAT(i >= 0 && i < l.total, "index-range", "index " << i << " of (" << x << "," << y << "," << z << ") in " << show(l));
        REQUIRE_THAT(!seen[i], "injective", "two positions share index " << i << " in " << show(l));
        seen[i] = 1;
        REQUIRE_THAT((cu.getPosition(i) == std::vector<int>{x, y, z}), "inverse", "position of index " << i << " is not (" << x << "," << y << "," << z << ") in " << show(l));
        c.event("positions-round-tripped");
      }
  c.mixsig((uint64_t)(l.L[0] * 10000 + l.L[1] * 100 + l.L[2]));
  c.nontrivial = l.total > 1;
  if (c.index % 40 == 0) c.sample = Msg() << "all " << l.total << " indices of " << show(l);
}

WORKLOAD(C17, wrap_and_reject, 3) {
  Rng& r = c.rng;
  Lat l = drawLat(r, r.chance(0.2) ? 2000000 : 4000);
  if (r.chance(0.15)) {  // big lattices, up to the range of int
    int a = (int)r.range(600, 1290);
    l.L[0] = a;
    l.L[1] = (int)r.range(1, 1290);
    l.L[2] = (int)r.range(1, 1290);
    l.total = l.L[0] * l.L[1] * l.L[2];
  }
  const Cuboid cu = build(r, l);
  for (int t = 0; t < 200; ++t) {
    int p[3], q[3];
    bool ok = true;
    for (int k = 0; k < 3; ++k) {
      p[k] = (int)r.range(0, l.L[k] - 1);
      int64_t shift = 0;
      int m = (int)r.range(0, 6);
      if (m == 1) shift = l.L[k];
      if (m == 2) shift = -l.L[k];
      if (m == 3) shift = (int64_t)r.range(-50, 50) * l.L[k];
      if (m == 4) shift = (int64_t)r.range(-1000000000 / l.L[k], 1000000000 / l.L[k]) * l.L[k];
      int64_t v = p[k] + shift;
      if (m == 5) v = r.range(-3, l.L[k] + 3);
      if (m == 6 && r.chance(0.2)) v = r.chance(0.5) ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min();
      q[k] = (int)v;
      if (l.per[k])
        p[k] = (int)(((v % l.L[k]) + l.L[k]) % l.L[k]);
      else {
        p[k] = (int)v;
        if (v < 0 || v >= l.L[k]) ok = false;
      }
    }
    std::string at = Msg() << "(" << q[0] << "," << q[1] << "," << q[2] << ") in " << show(l);
    std::vector<int> qv{q[0], q[1], q[2]};
    if (ok) {
      int i = cu.getIndex(q[0], q[1], q[2]);
      REQUIRE_THAT(i >= 0 && i < l.total && cu.getIndex(qv) == i, "wrap", "index " << i << " / " << cu.getIndex(qv) << " for " << at);
      REQUIRE_THAT((cu.getPosition(i) == std::vector<int>{p[0], p[1], p[2]}), "wrap", at << " is not wrapped to (" << p[0] << "," << p[1] << "," << p[2] << ")");
      c.event("wrapped-lookups");
    } else {
      REQUIRE_THAT(throws([&] { (void)cu.getIndex(q[0], q[1], q[2]); }), "reject", at << " is outside a fixed direction but accepted");
      REQUIRE_THAT(throws([&] { (void)cu.getIndex(qv); }), "reject", at << " is outside a fixed direction but accepted as a vector");
      REQUIRE_THAT(throws([&] { (void)cu.getNeighborDistances(qv, l.d); }), "reject", "neighbours of " << at << ", which is outside a fixed direction");
      c.event("rejected-positions");
    }
  }
  std::vector<int> bad{-1, l.total, l.total + (int)r.range(0, 1000), -(int)r.range(1, 1000000), std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), -l.total};
  for (int b : bad) {
    REQUIRE_THAT(throws([&] { (void)cu.getPosition(b); }), "bad-index", "getPosition accepts index " << b << " in " << show(l));
    REQUIRE_THAT(throws([&] { (void)cu.getX(b); }), "bad-index", "getX accepts index " << b << " in " << show(l));
    REQUIRE_THAT(throws([&] { (void)cu.getY(b); }), "bad-index", "getY accepts index " << b << " in " << show(l));
    REQUIRE_THAT(throws([&] { (void)cu.getZ(b); }), "bad-index", "getZ accepts index " << b << " in " << show(l));
    REQUIRE_THAT(throws([&] { (void)cu.getNeighbors(b, l.d); }), "bad-index", "getNeighbors accepts index " << b << " in " << show(l));
    REQUIRE_THAT(throws([&] { (void)cu.getNeighborDistances(b, l.d); }), "bad-index", "getNeighborDistances accepts index " << b << " in " << show(l));
    REQUIRE_THAT(throws([&] { (void)cu.getSmallestDistance(b, 0); }) && throws([&] { (void)cu.getSmallestDistance(0, b); }), "bad-index", "getSmallestDistance accepts index " << b << " in " << show(l));
    c.event("rejected-indices");
  }
  for (size_t n : {0, 1, 2, 4, 7}) {
    REQUIRE_THAT(throws([&] { (void)cu.getIndex(std::vector<int>(n, 0)); }), "bad-dimension", "a position with " << n << " coordinates is accepted");
    REQUIRE_THAT(throws([&] { (void)cu.getNeighborDistances(std::vector<int>(n, 0), l.d); }), "bad-dimension", "neighbours of a position with " << n << " coordinates");
    c.event("rejected-dimensions");
  }
  for (int k = 0; k < 3; ++k) {
    int d[3] = {l.L[0], l.L[1], l.L[2]};
    d[k] = -(int)r.range(1, 100);
    if (l.total <= 10000000) REQUIRE_THAT(throws([&] { Cuboid x(d[0], d[1], d[2]); }) && throws([&] { Cuboid x(d[0], d[1], d[2], 1.0); }) && throws([&] { Cuboid x(d[0], d[1], d[2], 1.0, l.b(0), l.b(1), l.b(2)); }), "bad-size", "a lattice with a negative dimension is accepted");
  }
  c.mixsig((uint64_t)l.total);
  c.mixsig((uint64_t)(l.per[0] * 4 + l.per[1] * 2 + l.per[2]));
  c.nontrivial = l.total > 1;
}

static long minImage2(const Lat& l, const int* a, const int* b) {
  long s = 0;
  for (int k = 0; k < 3; ++k) {
    long d = std::labs((long)a[k] - b[k]);
    if (l.per[k]) d = std::min(d, l.L[k] - d);
    s += d * d;
  }
  return s;
}
// a cutoff that does not sit on a distance
static double drawCutoff(Rng& r, const Lat& l, long maxShell) {
  long lo = r.chance(0.1) ? 0 : (long)r.range(0, std::max<long>(1, r.chance(0.5) ? std::min<long>(maxShell, 8) : maxShell));
  double a = std::sqrt((double)lo), b = std::sqrt((double)lo + 1);
  int m = (int)r.range(0, 3);
  double f = m == 0 ? 0.5 : m == 1 ? 0.01 : m == 2 ? 0.99 : r.flat(0.05, 0.95);
  return (a + (b - a) * f) * l.d;
}

WORKLOAD(C18, neighbours, 4) {
  Rng& r = c.rng;
  Lat l = drawLat(r, c.fast ? 600 : 200);
  const Cuboid cu = build(r, l);
  long maxShell = 0;
  for (int k = 0; k < 3; ++k) {
    long m = l.per[k] ? l.L[k] / 2 : l.L[k] - 1;
    maxShell += m * m;
  }
  bool huge = r.chance(0.08);
  double cut = huge ? l.d * r.logu(100, 1e15) : drawCutoff(r, l, maxShell + 2);
  // spacing 1 and 2 reproduce integer distances exactly: test the boundary itself
  bool exact = !huge && (l.d == 1.0 || l.d == 2.0 || l.d == 0.5) && r.chance(0.3);
  if (exact) cut = l.d * (double)r.range(0, 4);
  std::unordered_map<int, std::unordered_map<int, double>> all;
  bool whole = l.total <= (c.fast ? 300 : 80);
  if (whole) all = cu.getNeighborDistances(cut);
  int sites = whole ? l.total : (int)std::min(l.total, 12);
  std::vector<std::vector<int>> pos;
  for (int i = 0; i < l.total; ++i) {
    int x = i % l.L[0], y = (i / l.L[0]) % l.L[1], z = i / (l.L[0] * l.L[1]);
    // positions by the library's own numbering
    (void)x; (void)y; (void)z;
    pos.push_back(cu.getPosition(i));
  }
  uint64_t pairs = 0, near = 0;
  for (int s = 0; s < sites; ++s) {
    int i = whole ? s : (int)r.range(0, l.total - 1);
    std::map<int, double> want;
    for (int j = 0; j < l.total; ++j) {
      double d = std::sqrt((double)minImage2(l, pos[i].data(), pos[j].data())) * l.d;
      if (j != i && d <= cut) want[j] = d;
      if (s < 8) {
        double g = cu.getSmallestDistance(i, j);
        REQUIRE_THAT(close(g, d, 1e-12), "distance", "distance of " << i << " and " << j << " is " << g << ", shortest image " << d << " in " << show(l));
        REQUIRE_THAT((j == i) == (g == 0), "distance-zero", "distance of " << i << " and " << j << " is " << g << " in " << show(l));
        ++pairs;
      }
    }
    std::vector<int> n = cu.getNeighbors(i, cut);
    std::set<int> ns(n.begin(), n.end());
    REQUIRE_THAT(ns.size() == n.size(), "duplicate", "neighbours of " << i << " within " << cut << " contain duplicates in " << show(l));
    REQUIRE_THAT(ns.size() == want.size(), "neighbours", "site " << i << " has " << ns.size() << " neighbours within " << cut << ", expected " << want.size() << " in " << show(l));
    for (auto& w : want) REQUIRE_THAT(ns.count(w.first), "neighbours", "neighbour " << w.first << " of " << i << " at distance " << w.second << " is missing, cutoff " << cut << " in " << show(l));
    for (int v = 0; v < 2; ++v) {
      auto nd = v ? cu.getNeighborDistances(pos[i], cut) : cu.getNeighborDistances(i, cut);
      std::map<int, double> got;
      for (auto& x : nd) REQUIRE_THAT(got.insert(x).second, "duplicate", "neighbour " << x.first << " of " << i << " is listed twice in " << show(l));
      REQUIRE_THAT(got.size() == want.size(), "neighbour-distances", "site " << i << " has " << got.size() << " neighbour distances within " << cut << ", expected " << want.size() << " in " << show(l));
      for (auto& w : want) REQUIRE_THAT(got.count(w.first) && close(got[w.first], w.second, 1e-12), "neighbour-distances", "distance of neighbour " << w.first << " of " << i << " is " << (got.count(w.first) ? got[w.first] : -1) << ", expected " << w.second << " in " << show(l));
    }
    if (whole) {
      auto it = all.find(i);
      size_t sz = it == all.end() ? 0 : it->second.size();
      REQUIRE_THAT(sz == want.size(), "whole-lattice", "the whole-lattice query lists " << sz << " neighbours of " << i << ", expected " << want.size() << " in " << show(l));
      for (auto& w : want) REQUIRE_THAT(it->second.count(w.first) && close(it->second[w.first], w.second, 1e-12), "whole-lattice", "whole-lattice distance of " << i << " and " << w.first << " in " << show(l));
    }
    near += want.size();
    c.event("neighbourhoods-compared");
  }
  if (whole)
    for (auto& x : all) REQUIRE_THAT(x.first >= 0 && x.first < l.total, "whole-lattice", "unknown site " << x.first);
  c.event("distances-compared", pairs);
  c.event("neighbours-seen", near);
  c.mixsig((uint64_t)(l.L[0] * 10000 + l.L[1] * 100 + l.L[2]));
  c.mixsig(cut);
  c.nontrivial = near > 0;
  if (c.index % 60 == 0) c.sample = Msg() << show(l) << " cutoff " << cut << ": " << near << " neighbours of " << sites << " sites";
}

WORKLOAD(C18, large_lattices, 1) {
  Rng& r = c.rng;
  Lat l;
  for (int k = 0; k < 3; ++k) {
    l.L[k] = (int)r.logu(1, 1290);
    l.per[k] = r.chance(0.5);
  }
  if (r.chance(0.3)) {
    int k = (int)r.range(0, 2);
    l.L[k] = (int)r.range(60000, 2000000);
    l.L[(k + 1) % 3] = (int)r.range(1, 30);
    l.L[(k + 2) % 3] = (int)r.range(1, 30);
  }
  l.d = r.chance(0.5) ? 1.0 : 0.7;
  l.total = l.L[0] * l.L[1] * l.L[2];
  const Cuboid cu = build(r, l);
  for (int t = 0; t < 100; ++t) {
    int i = (int)r.range(0, l.total - 1), j = r.chance(0.3) ? (int)r.range(0, std::min(l.total - 1, 5)) : (int)r.range(0, l.total - 1);
    auto a = cu.getPosition(i), b = cu.getPosition(j);
    double d = std::sqrt((double)minImage2(l, a.data(), b.data())) * l.d;
    double g = cu.getSmallestDistance(i, j), h = cu.getSmallestDistance(j, i);
    REQUIRE_THAT(close(g, d, 1e-12) && g == h, "distance", "distance of " << i << " and " << j << " is " << g << "/" << h << ", shortest image " << d << " in " << show(l));
    c.event("distances-compared");
  }
  for (int t = 0; t < 4; ++t) {
    int i = r.chance(0.5) ? (int)r.range(0, l.total - 1) : cu.getIndex(r.chance(0.5) ? 0 : l.L[0] - 1, r.chance(0.5) ? 0 : l.L[1] - 1, r.chance(0.5) ? 0 : l.L[2] - 1);
    double cut = drawCutoff(r, l, 9);
    std::vector<int> p = cu.getPosition(i);
    std::map<int, double> want;
    int R = (int)(cut / l.d) + 1;
    for (int x = -R; x <= R; ++x)
      for (int y = -R; y <= R; ++y)
        for (int z = -R; z <= R; ++z) {
          int q[3] = {p[0] + x, p[1] + y, p[2] + z};
          bool ok = true;
          for (int k = 0; k < 3; ++k) {
            if (l.per[k])
              q[k] = ((q[k] % l.L[k]) + l.L[k]) % l.L[k];
            else if (q[k] < 0 || q[k] >= l.L[k])
              ok = false;
          }
          if (!ok) continue;
          int j = cu.getIndex(q[0], q[1], q[2]);
          double d = std::sqrt((double)minImage2(l, p.data(), q)) * l.d;
          if (j != i && d <= cut) want[j] = d;
        }
    auto nd = cu.getNeighborDistances(i, cut);
    std::map<int, double> got;
    for (auto& x : nd) REQUIRE_THAT(got.insert(x).second, "duplicate", "neighbour " << x.first << " of " << i << " is listed twice in " << show(l));
    REQUIRE_THAT(got.size() == want.size(), "neighbour-distances", "site " << i << " has " << got.size() << " neighbours within " << cut << ", expected " << want.size() << " in " << show(l));
    for (auto& w : want) REQUIRE_THAT(got.count(w.first) && close(got[w.first], w.second, 1e-12), "neighbour-distances", "neighbour " << w.first << " of " << i << " in " << show(l));
    std::vector<int> n = cu.getNeighbors(i, cut);
    REQUIRE_THAT(n.size() == want.size() && std::set<int>(n.begin(), n.end()).size() == want.size(), "neighbours", "getNeighbors of " << i << " in " << show(l));
    c.event("neighbourhoods-compared");
  }
  c.mixsig((uint64_t)l.total);
  c.nontrivial = l.total > 1;
}

WORKLOAD(C19, planes, 3) {
  Rng& r = c.rng;
  Lat l = drawLat(r, 3000);
  Cuboid cu = build(r, l);
  if (r.chance(0.3)) {  // through a copy
    Cuboid other = cu;
    cu = other;
  }
  struct {
    Cuboid::Plane p;
    int axis;
  } planes[] = {{Cuboid::Plane::YZ, 0}, {Cuboid::Plane::XZ, 1}, {Cuboid::Plane::XY, 2}};
  int draws = c.fast ? (c.thorough ? 40000 : 12000) : 2500;
  for (auto& pl : planes) {
    int n = l.L[pl.axis];
    int a = (pl.axis + 1) % 3, b = (pl.axis + 2) % 3;
    for (int bad : {-1, n, n + 1, -n - 1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) {
      REQUIRE_THAT(throws([&] { (void)cu.getRandomSite(pl.p, bad); }), "reject", "plane index " << bad << " along axis " << pl.axis << " is accepted in " << show(l));
      c.event("rejected-planes");
    }
    int idx = r.chance(0.4) ? (r.chance(0.5) ? 0 : n - 1) : (int)r.range(0, n - 1);
    std::map<int, int> hits;
    std::vector<int> ha((size_t)l.L[a], 0), hb((size_t)l.L[b], 0);
    int size = l.L[a] * l.L[b];
    for (int i = 0; i < draws; ++i) {
      int s = cu.getRandomSite(pl.p, idx);
      REQUIRE_THAT(s >= 0 && s < l.total, "range", "random site " << s << " is not in the lattice " << show(l));
      std::vector<int> q = cu.getPosition(s);
      REQUIRE_THAT(q[pl.axis] == idx, "plane", "random site for plane " << idx << " along axis " << pl.axis << " lies at " << q[pl.axis] << " in " << show(l));
      ++hits[s];
      ++ha[q[a]];
      ++hb[q[b]];
    }
    for (int k = 0; k < l.L[a]; ++k) REQUIRE_THAT(binomOk(ha[k], draws, 1.0 / l.L[a]), "uniform", "coordinate " << k << " of axis " << a << " drawn " << ha[k] << " times of " << draws << " in " << show(l));
    for (int k = 0; k < l.L[b]; ++k) REQUIRE_THAT(binomOk(hb[k], draws, 1.0 / l.L[b]), "uniform", "coordinate " << k << " of axis " << b << " drawn " << hb[k] << " times of " << draws << " in " << show(l));
    for (auto& h : hits) REQUIRE_THAT(binomOk(h.second, draws, 1.0 / size), "uniform-joint", "site " << h.first << " drawn " << h.second << " times of " << draws << " out of " << size << " in " << show(l));
    if (size * 60 < draws) REQUIRE_THAT((int)hits.size() == size, "reachable", "only " << hits.size() << " of " << size << " sites of the plane are ever drawn in " << show(l));
    c.event("random-sites", draws);
    c.event("distinct-sites-drawn", hits.size());
    c.mixsig((uint64_t)(size * 100 + idx));
  }
  c.nontrivial = l.total > 1;
  if (c.index % 30 == 0) c.sample = Msg() << show(l) << ", " << draws << " draws in each of three planes";
}
