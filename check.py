#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, runs its
workloads under the monitors and reports.

  check.py <property>            VERIF_SEED, VERIF_TIER from the environment
  check.py --replay <file>       run one recorded case again
  check.py --selfcheck           are the tools here?

Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: the check itself could not give an answer (build failure, ...).
"""
import glob
import json
import os
import re
import resource
import shutil
import struct
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/CoarseGrainSites"
JOBS = 8
sys.path.insert(0, HERE)
from config import PROPS, SYSTEM_SOURCES, BUILDS  # noqa: E402

INCLUDES = [
    "-I" + SRC + "/include",
    "-I" + SRC + "/src",
    "-I" + SRC + "/src/libmythical",
    "-I" + SRC + "/src/libmythical/topologyfeatures",
    "-I" + HERE + "/stub/a/b/c",
    "-I" + HERE + "/stub/UGLY/include",
    "-I" + HERE + "/harness",
]


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(workdir, name, harness_files, system):
    """Compile the library and the harness of the property; returns the binary."""
    b = BUILDS[name]
    d = os.path.join(workdir, name)
    os.makedirs(d)
    srcs = sorted(glob.glob(SRC + "/src/libmythical/**/*.cpp", recursive=True))
    if not system:
        srcs = [s for s in srcs if os.path.basename(s) not in SYSTEM_SOURCES]
    if not srcs:
        raise CheckError("no sources under " + SRC)
    srcs += [HERE + "/harness/" + h for h in harness_files + ["main.cpp"]]
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s)))
        jobs.append((s, o, [b["cxx"], "-std=c++14"] + b["flags"] + INCLUDES + ["-c", s, "-o", o]))

    def one(j):
        p = subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return j[0], p.returncode, p.stdout.decode(errors="replace")

    # largest first, so that the long ones do not come last
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        for s, rc, out in ex.map(one, jobs):
            if rc:
                raise CheckError("compiling %s failed (%s build):\n%s" % (s, name, out[-4000:]))
    binary = os.path.join(d, "harness")
    # the library goes into an archive, so that only what the harness uses is linked
    lib = os.path.join(d, "libmythical.a")
    p = subprocess.run(["ar", "rcs", lib] + [j[1] for j in jobs if not j[0].startswith(HERE + "/harness/")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise CheckError("ar failed:\n" + p.stdout.decode(errors="replace")[-2000:])
    p = subprocess.run([b["cxx"]] + b["flags"] + [j[1] for j in jobs if j[0].startswith(HERE + "/harness/")] + [lib, "-o", binary],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise CheckError("linking failed (%s build):\n%s" % (name, p.stdout.decode(errors="replace")[-4000:]))
    for f in [j[1] for j in jobs] + [lib]:
        os.unlink(f)
    return binary


def sanitizer_env(leaks, extra=None):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=98:detect_leaks=%d:detect_stack_use_after_return=1:"
                         "strict_string_checks=1:check_initialization_order=1:hard_rss_limit_mb=3500:"
                         "allocator_may_return_null=0") % (1 if leaks else 0)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:second_deadlock_stack=1"
    if extra:
        e.update(extra)
    return e


def limits(rss_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if rss_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(rss_gb * 2**30), int(rss_gb * 2**30)))
    return f


class Run:
    """One shard of a harness execution."""

    def __init__(self, binary, build_name, which, seed, tier, frm, to, step, cpu, wd, leaks=False, tool=None, env=None):
        self.bin, self.build, self.which = binary, build_name, which
        self.seed, self.tier, self.frm, self.to, self.step = seed, tier, frm, to, step
        self.cpu, self.wd, self.leaks, self.tool, self.env = cpu, wd, leaks, tool, env
        self.tag = "%s_%s_%d_%d_%d_%d" % (build_name, which, frm, to, step, id(self))

    def go(self):
        out, prog, err = (os.path.join(self.wd, self.tag + x) for x in (".json", ".prog", ".err"))
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [self.bin, self.which, str(self.seed), str(self.frm), str(self.to), str(self.step), out, prog,
               self.tier, str(self.cpu)]
        if self.tool == "valgrind":
            cmd = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--leak-check=full",
                   "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite",
                   "--undef-value-errors=yes", "--max-stackframe=8000000"] + cmd
        asan = self.build.startswith(("asan", "tsan"))
        with open(err, "wb") as e:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=e, env=sanitizer_env(self.leaks, self.env),
                               preexec_fn=limits(None if asan or self.tool else 6))
        self.rc = p.returncode
        with open(err, "rb") as e:
            self.err = e.read()[-200000:].decode(errors="replace")
        self.case = None
        self.active = False
        if os.path.exists(prog) and os.path.getsize(prog) >= 16:
            with open(prog, "rb") as f:
                c, a = struct.unpack("QQ", f.read(16))
            self.case, self.active = c, bool(a)
        self.data = None
        if self.rc == 0:
            with open(out) as f:
                self.data = json.load(f)
        for f in (out, prog, err):
            if os.path.exists(f):
                os.unlink(f)
        return self

    def describe(self):
        """What ended a run that did not end by itself: (key, text)."""
        t = self.err
        if self.rc == 97:
            return "hang", "one case used more than %s s of CPU time" % self.cpu
        for pat, key in ((r"runtime error: (.*)", "undefined-behaviour"),
                         (r"ERROR: AddressSanitizer: (\S+)", "address-sanitizer"),
                         (r"WARNING: ThreadSanitizer: (.*?) \(pid", "data-race"),
                         (r"ERROR: LeakSanitizer: (.*)", "leak"),
                         (r"(hard rss limit exhausted.*)", "memory-exhausted"),
                         (r"==\d+== (Invalid (?:read|write).*|Conditional jump.*|Use of uninit.*|Syscall param.*|Invalid free.*|Mismatched.*|.*definitely lost.*)", "memcheck"),
                         (r"(Assertion .* failed\.)", "assertion"),
                         (r"(Error: attempt to .*)", "libstdcxx-assertion"),
                         (r"terminate called after throwing an instance of '(.*)'", "terminate")):
            m = re.search(pat, t)
            if m:
                where = ""
                for f in re.finditer(r"(?:#\d+ (?:0x\w+ in )?|(?:at|by) 0x\w+: )(.*)", t):
                    if "mythical" in f.group(1) and "/harness/" not in f.group(1):
                        where = " in " + f.group(1).strip()[:160]
                        break
                return key, (m.group(1) + where)[:400]
        return "crash", "the process ended with status %d: %s" % (self.rc, t[-300:])


def lsan_works(wd):
    """LeakSanitizer needs ptrace on its own thread; find out whether it may."""
    src = os.path.join(wd, "lsan.cpp")
    with open(src, "w") as f:
        f.write("int main(){return 0;}\n")
    exe = os.path.join(wd, "lsan_probe")
    if subprocess.run(["g++", "-fsanitize=address", src, "-o", exe]).returncode:
        return False
    return subprocess.run([exe], env=sanitizer_env(True), stderr=subprocess.DEVNULL).returncode == 0


def tsan_works(wd):
    """ThreadSanitizer needs its part of the address space; find out whether it gets it."""
    src = os.path.join(wd, "tsan.cpp")
    with open(src, "w") as f:
        f.write("#include <thread>\nint main(){int a=0;std::thread t([&]{a=1;});t.join();return a-1;}\n")
    exe = os.path.join(wd, "tsan_probe")
    if subprocess.run(["clang++", "-fsanitize=thread", src, "-o", exe]).returncode:
        return False
    return subprocess.run([exe], env=sanitizer_env(False), stderr=subprocess.DEVNULL).returncode == 0


def load_findings():
    """known_findings.txt: 'known: property=<id> key=<key> match=<regex> -- what fails'"""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) match=(.*?) -- (.*)", line.strip())
            if m:
                res.append((m.group(1), m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


class Outcome:
    def __init__(self):
        self.evals = 0
        self.sigs = set()
        self.counters = {}
        self.workloads = {}
        self.samples = []
        self.violations = []
        self.traces = {}
        self.notes = {}

    def merge(self, d, build_name):
        self.evals += d["evaluations"]
        self.sigs.update(d["sigs"])
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in d["workloads"].items():
            self.workloads[k] = self.workloads.get(k, 0) + v
        for s in d["samples"]:
            if len(self.samples) < 8:
                self.samples.append(dict(s, build=build_name))


def run_shards(runs):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda r: r.go(), runs))


def confirm(r, out, wd):
    """A shard died: attribute, try again, report. Returns (key, text, case) or None."""
    if r.rc == 2 or (r.rc == -9):
        raise CheckError("harness ended with status %d: %s" % (r.rc, r.err[-1500:]))
    if r.rc in (126, 127):
        raise CheckError("harness could not be started: " + r.err[-500:])
    key, text = r.describe()
    again = None
    if r.active and r.case is not None:
        again = Run(r.bin, r.build, r.which, r.seed, r.tier, r.case, r.case + 1, 1, r.cpu * (2 if r.rc == 97 else 1),
                    wd, r.leaks, r.tool, r.env).go()
        if again.rc not in (0, 2, -9):
            k2, t2 = again.describe()
            return k2, t2, r.case
    # not by itself: the whole sequence once more
    again = Run(r.bin, r.build, r.which, r.seed, r.tier, r.frm, r.to, r.step, r.cpu * (2 if r.rc == 97 else 1), wd,
                r.leaks, r.tool, r.env).go()
    if again.rc not in (0, 2, -9):
        k2, t2 = again.describe()
        return k2, t2, (again.case if again.active else None)
    if again.rc == 0 and (r.rc == 97 or key == "crash"):
        log("note: %s did not happen again (%s); not reported" % (key, text))
        out.merge(again.data, r.build)
        out.notes["unconfirmed"] = out.notes.get("unconfirmed", 0) + 1
        for v in again.data["violations"]:
            out.violations.append(dict(v, build=r.build, which=r.which, tool=r.tool))
        return None
    # a sanitizer report or a failed assertion is definite even if it depends on the addresses
    return key, text, r.case


def run_build(prop, cfg, name, binary, n, seed, tier, wd, out, leaks=False, tool=None, cpu=None, shards=JOBS, which=None, env=None,
              functional=True, collect_traces=False):
    which = which or prop
    cpu = cpu or cfg.get("cpu", 60)
    runs = [Run(binary, name, which, seed, tier, i, n, shards, cpu, wd, leaks, tool, env) for i in range(min(shards, n))]
    for r in run_shards(runs):
        if r.rc == 0:
            out.merge(r.data, name)
            if functional:
                for v in r.data["violations"]:
                    out.violations.append(dict(v, build=name, which=which, tool=tool))
            if collect_traces:
                out.traces.setdefault(collect_traces, {}).update(r.data.get("traces", {}))
        else:
            c = confirm(r, out, wd)
            if c:
                out.violations.append({"case": c[2], "workload": which, "key": c[0], "msg": c[1], "build": name,
                                       "which": which, "tool": tool, "shard": [r.frm, r.to, r.step]})


def main_check(prop):
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    out = Outcome()
    try:
        stages = cfg["stages"][tier]
        for st in stages:
            if out.violations:
                break
            name = st["build"]
            if name == "tsan":
                works = tsan_works(wd)
                out.counters["race-detector-runs"] = 1 if works else 0
                if not works:
                    log("%s: the race detector does not run here" % prop)
                    continue
            if name not in out.notes:
                b0 = time.time()
                out.notes[name] = build(wd, name, cfg["harness"], cfg.get("system", False))
                log("%s: %s build %.1f s" % (prop, name, time.time() - b0))
            leaks = False
            if st.get("leaks"):
                leaks = lsan_works(wd)
                out.counters["leak-detector-runs"] = out.counters.get("leak-detector-runs", 0) + (1 if leaks else 0)
            s0 = time.time()
            run_build(prop, cfg, name, out.notes[name], st["n"], seed, tier, wd, out, leaks=leaks, tool=st.get("tool"),
                      cpu=st.get("cpu"), which=st.get("which"), shards=st.get("shards", JOBS), env=st.get("env"),
                      functional=st.get("functional", True), collect_traces=st.get("traces"))
            log("%s: %s %d cases %.1f s" % (prop, name + (" " + st["tool"] if st.get("tool") else ""), st["n"], time.time() - s0))
        # offline comparison of the event logs of separate processes
        if cfg.get("compare") and not out.violations:
            a, b = (out.traces.get(x, {}) for x in cfg["compare"])
            common = sorted(set(a) & set(b), key=int)
            for k in common:
                if a[k] != b[k]:
                    out.violations.append({"case": int(k), "workload": prop, "key": "process-dependent",
                                           "msg": "two processes running the same calls with the same seed recorded different event logs",
                                           "build": cfg["stages"][tier][0]["build"], "which": prop, "tool": None})
                    break
            out.counters["event-logs-compared-between-processes"] = len(common)
            if not common:
                raise CheckError("no event logs to compare")
        if not out.violations:
            for cn in cfg.get("must", []):
                if out.counters.get(cn, 0) == 0:
                    raise CheckError("the monitors saw no '%s' event: %s" % (cn, json.dumps(out.counters)))
            if out.evals == 0 or not out.sigs:
                raise CheckError("nothing was observed")
        code, shown = report(prop, out, seed, tier)
        evidence(prop, cfg, out, seed, tier, time.time() - t0, shown)
        return code
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def report(prop, out, seed, tier):
    findings = load_findings()
    new, known = [], {}
    for v in out.violations:
        for p, k, rx, what in findings:
            if p == prop and k == v["key"] and rx.search(v["workload"] + " " + v["msg"]):
                known[what] = known.get(what, 0) + 1
                break
        else:
            new.append(v)
    for what in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if not new:
        print("OK property=%s cases=%d distinct=%d" % (prop, out.evals, len(out.sigs)))
        return 0, 0
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    new.sort(key=lambda v: (v["case"] is None, v["case"] or 0))
    v = new[0]
    path = os.path.join(d, "%s-%s-seed%d.json" % (prop, re.sub(r"\W+", "_", v["key"]), seed))
    rec = {"property": prop, "seed": seed, "tier": tier, "all": new[:20],
           "run": "python3 %s/check.py --replay %s" % (HERE, path)}
    rec.update(v)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
        f.write("\n")
    for x in new[:5]:
        print("  %s case %s: %s: %s" % (x["workload"], x["case"], x["key"], x["msg"][:600]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1, len(new)


def evidence(prop, cfg, out, seed, tier, wall, nviol):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": out.evals,
            "distinct_nontrivial": len(out.sigs),
            "rule": cfg["rule"],
            "samples": out.samples or [{"what": "violation", "detail": out.violations[:2]}],
            "events": dict(sorted(out.counters.items())),
            "cases_per_workload": dict(sorted(out.workloads.items())),
            "executions": [{k: v for k, v in st.items() if k in ("build", "n", "tool", "which", "env")} for st in cfg["stages"][tier]],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    if "unconfirmed" in out.notes:
        ev["coverage"]["unconfirmed_incidents"] = out.notes["unconfirmed"]
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def main_replay(path):
    rec = json.load(open(path))
    prop = rec["property"]
    cfg = PROPS[prop]
    wd = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        binary = build(wd, rec["build"], cfg["harness"], cfg.get("system", False))
        if rec["case"] is None:
            frm, to, step = rec["shard"]
        else:
            frm, to, step = rec["case"], rec["case"] + 1, 1
        r = Run(binary, rec["build"], rec["which"], rec["seed"], rec["tier"], frm, to, step, 120, wd,
                tool=rec.get("tool")).go()
        sys.stderr.write(r.err[-6000:])
        if r.rc == 0 and not r.data["violations"]:
            print("did not fail this time")
            return 0
        if r.rc == 0:
            for v in r.data["violations"]:
                print("%s case %s: %s: %s" % (v["workload"], v["case"], v["key"], v["msg"]))
        else:
            print("%s: %s" % r.describe())
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--selfcheck":
        for t in ("g++", "clang++", "valgrind"):
            if not shutil.which(t):
                log("missing tool", t)
                return 2
        return 0
    try:
        if len(sys.argv) == 3 and sys.argv[1] == "--replay":
            return main_replay(sys.argv[2])
        if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
            log(__doc__)
            return 2
        return main_check(sys.argv[1])
    except CheckError as e:
        log("CHECK-ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
