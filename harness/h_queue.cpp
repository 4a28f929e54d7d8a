#include "common.hpp"
#include "mythical/queue.hpp"
using namespace vf;
using mythical::Queue;

typedef std::pair<int, double> W;

static bool inOrder(const std::vector<W>& v) {
  for (size_t i = 1; i < v.size(); ++i)
    if (v[i].second < v[i - 1].second) return false;
  return true;
}
static std::vector<W> contents(const Queue& q) {
  std::vector<W> v;
  for (size_t i = 0; i < q.size(); ++i) v.push_back(q.at((int)i));
  return v;
}

static double drawTime(Rng& r, int mode) {
  switch (mode) {
    case 0: return r.uni();
    case 1: return (double)r.range(0, 3);
    case 2: return r.flat(-1e3, 1e3);
    case 3: return r.logu(1e-300, 1e300) * (r.chance(0.3) ? -1 : 1);
    case 4: return 5.0;
    case 5: return r.chance(0.1) ? 0.0 : r.chance(0.1) ? -0.0 : 1.0 + (double)r.range(0, 5) * 2.220446049250313e-16;
    default: return r.chance(0.05) ? std::numeric_limits<double>::infinity() : r.logu(1e-12, 1);
  }
}

static void queueHistory(Ctx& c, int ops, double pPop, bool heavy) {
  Rng& r = c.rng;
  Queue q;
  std::multiset<W> model;
  int mode = (int)r.range(0, 6);
  int nextId = (int)r.range(-5, 5);
  bool reuseIds = r.chance(0.3);
  int added = 0, popped = 0;
  for (int i = 0; i < ops; ++i) {
    bool wasSorted = q.isSorted();
    std::vector<W> before;
    if (!heavy || i % 16 == 0) before = contents(q);
    bool haveBefore = !heavy || i % 16 == 0;
    bool reallySorted = haveBefore ? inOrder(before) : false;
    int k = r.chance(pPop) ? 3 : (int)r.range(0, heavy ? 12 : 5);
    W w(reuseIds ? (int)r.range(0, 4) : nextId++, drawTime(r, mode));
    if (k == 0) {
      q.add(w);
      model.insert(w);
      ++added;
      c.event("add");
    } else if (k == 1) {
      q.sort();
      REQUIRE_THAT(q.isSorted(), "sort-flag", "not reported as sorted after sort()");
      std::vector<W> a = contents(q);
      REQUIRE_THAT(inOrder(a), "sort", "sort() leaves " << a.size() << " walkers out of order");
      c.event("sort");
    } else if (k == 3) {
      if (q.size() == 0) continue;
      W front = q.at(0);
      W p = q.pop_current();
      ++popped;
      REQUIRE_THAT(p == front, "pop", "popped walker is not the one at the front");
      auto it = model.find(p);
      REQUIRE_THAT(it != model.end(), "pop", "popped walker " << p.first << " with time " << p.second << " was never added or already popped");
      if (wasSorted) {
        double smallest = model.begin()->second;
        for (auto& x : model) smallest = std::min(smallest, x.second);
        REQUIRE_THAT(p.second <= smallest, "pop-order", "a queue reported as sorted releases time " << p.second << " although " << smallest << " is waiting");
        REQUIRE_THAT(q.isSorted(), "flag-lost", "popping loses the sorted state");
        c.event("pop-sorted");
      }
      model.erase(it);
      c.event("pop");
    } else {
      q.sortedAdd(w);
      model.insert(w);
      ++added;
      if (wasSorted) {
        REQUIRE_THAT(q.isSorted(), "flag-lost", "sorted insertion loses the sorted state");
        c.event("sortedAdd-on-sorted");
      }
      if (haveBefore && reallySorted) {
        std::vector<W> a = contents(q);
        REQUIRE_THAT(inOrder(a), "sorted-insert", "sorted insertion of time " << w.second << " into an ordered queue of " << before.size() << " leaves it out of order");
      }
      c.event("sortedAdd");
    }
    REQUIRE_THAT(q.size() == model.size(), "size", "size " << q.size() << " expected " << model.size());
    if (!heavy || i % 16 == 0 || i == ops - 1) {
      std::vector<W> a = contents(q);
      REQUIRE_THAT(std::multiset<W>(a.begin(), a.end()) == model, "contents", "contents differ from what was added and not popped, " << a.size() << " walkers");
      if (q.isSorted()) REQUIRE_THAT(inOrder(a), "flag", "reported as sorted but out of order, " << a.size() << " walkers");
    }
    bool threw = false;
    if (i % 8 == 0) {
      try {
        (void)q.at((int)q.size());
      } catch (const std::exception&) {
        threw = true;
      }
      REQUIRE_THAT(threw, "at", "access behind the end is not rejected");
    }
    c.mixsig((uint64_t)k);
  }
  // drain: everything comes out once, in order once sorted
  q.sort();
  double last = -std::numeric_limits<double>::infinity();
  while (q.size()) {
    W p = q.pop_current();
    REQUIRE_THAT(!(p.second < last), "drain-order", "time " << p.second << " released after " << last);
    last = p.second;
    auto it = model.find(p);
    REQUIRE_THAT(it != model.end(), "drain", "released a walker that is not in the queue");
    model.erase(it);
    c.event("drained");
  }
  REQUIRE_THAT(model.empty(), "drain", model.size() << " walkers lost");
  c.mixsig((uint64_t)added);
  c.nontrivial = added > 1;
  if (c.index % 97 == 0) c.sample = Msg() << ops << " operations, " << added << " added, time pattern " << mode;
}

WORKLOAD(C16, mixed, 5) { queueHistory(c, (int)c.rng.range(1, 60), c.rng.flat(0.05, 0.5), false); }
WORKLOAD(C16, long_mixed, 1) { queueHistory(c, c.fast ? 1500 : 300, c.rng.flat(0.05, 0.45), true); }

// the way a simulation uses it: pop, advance the time, insert again
WORKLOAD(C16, event_loop, 2) {
  Rng& r = c.rng;
  Queue q;
  int n = r.chance(0.1) ? (int)r.range(200, 1500) : (int)r.range(1, 200);
  bool viaSort = r.chance(0.5);
  std::map<int, double> when;
  double scale = r.logu(1e-15, 1e3);
  bool ties = r.chance(0.3);
  for (int i = 0; i < n; ++i) {
    double t = ties ? (double)r.range(0, 3) : -std::log(1 - r.uni()) * scale;
    when[i] = t;
    if (viaSort) q.add(W(i, t)); else q.sortedAdd(W(i, t));
  }
  if (viaSort) q.sort();
  double now = -1e300;
  int steps = c.fast ? 2000 : 300;
  for (int s = 0; s < steps && q.size(); ++s) {
    REQUIRE_THAT(q.isSorted(), "flag", "the event loop's queue is not sorted");
    W p = q.pop_current();
    REQUIRE_THAT(when.count(p.first) && when[p.first] == p.second, "time", "walker " << p.first << " released with another walker's time");
    REQUIRE_THAT(p.second >= now, "causality", "time runs backwards: " << p.second << " after " << now);
    now = p.second;
    for (auto& x : when) REQUIRE_THAT(x.second >= p.second, "order", "walker " << x.first << " at " << x.second << " should have come before " << p.second);
    if (r.chance(0.02)) {
      when.erase(p.first);
    } else {
      double t = p.second + (ties ? (double)r.range(0, 2) : -std::log(1 - r.uni()) * scale);
      when[p.first] = t;
      q.sortedAdd(W(p.first, t));
    }
    REQUIRE_THAT(q.size() == when.size(), "size", "queue holds " << q.size() << ", expected " << when.size());
    c.event("event-loop-steps");
  }
  c.mixsig(now);
  c.nontrivial = n > 2;
}
