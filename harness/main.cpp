#include "common.hpp"
using namespace vf;

struct Progress {
  volatile uint64_t caseIndex;
  volatile uint64_t active;
};
static Progress* prog;

static void onProf(int) {
  // CPU budget of one case used up
  static const char m[] = "CASE-CPU-LIMIT\n";
  if (write(2, m, sizeof m - 1) < 0) {
  }
  _exit(97);
}

static void setTimer(double s) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)s;
  it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &it, 0);
}

// usage: harness prop seed from to step out progress tier cpu_s [only-workload]
int main(int argc, char** argv) {
  if (argc < 10) return 2;
  std::string prop = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10), from = strtoull(argv[3], 0, 10), to = strtoull(argv[4], 0, 10),
           step = strtoull(argv[5], 0, 10);
  const char* out = argv[6];
  bool thorough = !strcmp(argv[8], "thorough");
  double cpu = atof(argv[9]);
  int fd = open(argv[7], O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) return 2;
  prog = (Progress*)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (prog == MAP_FAILED) return 2;
  signal(SIGPROF, onProf);

  std::vector<Workload> wl;
  int total = 0;
  for (auto& w : registry()) {
    if (prop != w.prop && (prop != "ALL" || !strcmp(w.prop, "ENDURANCE"))) continue;
    wl.push_back(w);
    total += w.weight;
  }
  if (wl.empty()) {
    fprintf(stderr, "no workload for %s\n", prop.c_str());
    return 2;
  }
  // deterministic order, whatever the link order was
  std::sort(wl.begin(), wl.end(), [](const Workload& a, const Workload& b) {
    int r = strcmp(a.prop, b.prop);
    return r ? r < 0 : strcmp(a.name, b.name) < 0;
  });

  std::map<std::string, uint64_t> counters;
  std::map<std::string, uint64_t> perWorkload;
  std::set<uint64_t> sigs;
  std::vector<std::string> samples, viol, traces;
  uint64_t evals = 0;
  for (uint64_t i = from; i < to; i += step) {
    Ctx c;
    c.index = i;
    c.thorough = thorough;
#ifdef VERIF_FAST
    c.fast = true;
#else
    c.fast = false;
#endif
    uint64_t h = mix(seed * 1000003ULL + 17);
    int slot = (int)(i % total);
    size_t k = 0;
    while (slot >= wl[k].weight) slot -= wl[k++].weight;
    for (const char* p = wl[k].name; *p; ++p) h = mix(h ^ (uint64_t)*p);
    for (const char* p = wl[k].prop; *p; ++p) h = mix(h ^ (uint64_t)*p);
    c.rng = Rng(mix(h ^ i));
    prog->caseIndex = i;
    prog->active = 1;
    setTimer(cpu);
    try {
      try {
        wl[k].fn(c);
      } catch (const Violation&) {
        throw;
      } catch (const std::exception& e) {
        throw Violation{"unexpected-exception", std::string("the library threw on a valid call: ") + e.what()};
      }
    } catch (const Violation& v) {
      std::ostringstream o;
      o << "{\"case\":" << i << ",\"workload\":\"" << wl[k].prop << "/" << wl[k].name << "\",\"key\":\"" << esc(v.key) << "\",\"msg\":\""
        << esc(v.msg) << "\"}";
      viol.push_back(o.str());
    }
    setTimer(0);
    prog->active = 0;
    ++evals;
    ++perWorkload[std::string(wl[k].prop) + "/" + wl[k].name];
    for (auto& p : c.counters) counters[p.first] += p.second;
    if (c.nontrivial) sigs.insert(c.sig);
    if (!c.sample.empty() && samples.size() < 3) {
      std::ostringstream o;
      o << "{\"case\":" << i << ",\"workload\":\"" << wl[k].prop << "/" << wl[k].name << "\",\"what\":\"" << esc(c.sample) << "\"}";
      samples.push_back(o.str());
    }
    if (!c.trace.empty()) traces.push_back("\"" + std::to_string(i) + "\":\"" + esc(c.trace) + "\"");
    if (prop != "ALL" && viol.size() >= 3) break;
  }
  FILE* f = fopen(out, "w");
  if (!f) return 2;
  fprintf(f, "{\"evaluations\":%llu,\"counters\":{", (unsigned long long)evals);
  bool first = true;
  for (auto& p : counters) {
    fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(p.first).c_str(), (unsigned long long)p.second);
    first = false;
  }
  fprintf(f, "},\"workloads\":{");
  first = true;
  for (auto& p : perWorkload) {
    fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(p.first).c_str(), (unsigned long long)p.second);
    first = false;
  }
  fprintf(f, "},\"sigs\":[");
  first = true;
  for (auto s : sigs) {
    fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)s);
    first = false;
  }
  fprintf(f, "],\"samples\":[");
  for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", samples[i].c_str());
  fprintf(f, "],\"violations\":[");
  for (size_t i = 0; i < viol.size(); ++i) fprintf(f, "%s%s", i ? "," : "", viol[i].c_str());
  fprintf(f, "],\"traces\":{");
  for (size_t i = 0; i < traces.size(); ++i) fprintf(f, "%s%s", i ? "," : "", traces[i].c_str());
  fprintf(f, "}}\n");
  if (fclose(f)) return 2;
  return 0;
}
