#!/usr/bin/env python3
"""Builds and runs the check of one property.

  run.py P03 [quick|thorough]     the registered check
  run.py P03 replay FILE          replays one case (VIOLATION lines name FILE)
  run.py build [P03 ...]          only builds

Everything is compiled from /repo's current working tree. Objects are cached in
/verif/build under a hash of everything they are made from, so a stale object can
never be used.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN  # noqa: E402

GCC = ["-std=c++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w"]
GCC_C = ["-std=gnu99", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"]
FUZZ = ["-fsanitize=fuzzer-no-link"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def walk(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


class Builder:
    def __init__(self, fuzz=False):
        self.fuzz = fuzz
        self.cxx = "clang++" if fuzz else "g++"
        self.cc = "clang" if fuzz else "gcc"
        self.cxxflags = GCC + (FUZZ if fuzz else [])
        self.cflags = GCC_C + (FUZZ if fuzz else [])
        self.inc = ["-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
        heads = walk(os.path.join(REPO, "include")) + [p for p in walk(os.path.join(REPO, "src")) if p.endswith((".h", ".hpp"))]
        self.repo_key = digest(heads + walk(os.path.join(VERIF, "stubs")), " ".join(self.cxxflags + self.cflags) + str(fuzz))
        self.harness_key = digest([p for p in walk(os.path.join(VERIF, "harness")) if p.endswith(".h")], self.repo_key)
        self.dir = os.path.join(BUILD, "fuzz" if fuzz else "asan")
        os.makedirs(self.dir, exist_ok=True)

    def obj(self, src, key, defs=()):
        k = digest([src], key + " ".join(defs))
        out = os.path.join(self.dir, os.path.basename(src) + "." + k + ".o")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            c = src.endswith(".c")
            cmd = [self.cc if c else self.cxx] + (self.cflags if c else self.cxxflags) + list(defs) + self.inc + ["-c", src, "-o", tmp]
            r = sh(cmd)
            if r.returncode:
                return src, None, " ".join(cmd) + "\n" + r.stdout[-4000:]
            os.rename(tmp, out)
        return src, out, ""

    def jobs(self, pid):
        """(source, key, defs) of everything the check of pid links or runs."""
        plan = PLAN[pid]
        lib_defs = tuple(plan.get("lib_flags", ())) if not self.fuzz else ()
        srcs = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*.c"))
        lib = []
        for s in srcs:
            with open(s, errors="replace") as f:
                text = f.read()
            if re.search(r"^\s*int\s+main\s*\(", text, re.M):
                continue
            lib.append((s, self.repo_key, lib_defs))
        h = [(os.path.join(VERIF, "harness", pid.lower() + ".cpp"), self.harness_key, ("-DPBT_LIBFUZZER",) if self.fuzz else ())]
        progs = [(os.path.join(REPO, p), self.repo_key, ()) for p in plan.get("programs", [])]
        return lib, h, progs

    def build(self, pids, pool):
        libs, progs, hs = {}, {}, {}
        for p in pids:
            libs[p], hs[p], g = self.jobs(p)
            for j in g:
                progs[j[0]] = j
        fut = {}
        # the slow ones first
        all_libs = {j for l in libs.values() for j in l}
        for j in [h[0] for h in hs.values()] + list(progs.values()) + sorted(all_libs, key=lambda j: (-os.path.getsize(j[0]), j)):
            if j not in fut:
                fut[j] = pool.submit(self.obj, *j)
        res = {j: f.result() for j, f in fut.items()}

        def archive(l):
            objs = sorted(res[j][1] for j in l if res[j][1])
            ar = os.path.join(self.dir, "lib." + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24] + ".a")
            if not os.path.exists(ar):
                tmp = ar + ".%d.tmp" % os.getpid()
                r = sh(["ar", "rcs", tmp] + objs)
                if r.returncode:
                    raise BuildError(r.stdout)
                os.rename(tmp, ar)
            return ar, "\n".join(res[j][2] for j in l if not res[j][1])

        outs = {}
        todo = [(p, res[hs[p][0]], libs[p], "-fsanitize=fuzzer" if self.fuzz else "") for p in pids]
        if not self.fuzz:
            plain = lambda l: [(s, k, ()) for s, k, _ in l]  # noqa: E731
            for p in pids:
                for j in self.jobs(p)[2]:
                    assert plain(libs[p]) == libs[p], "programs are built without lib_flags"
                    todo.append((os.path.basename(j[0]), res[j], libs[p], ""))
        for name, (src, o, err), l, extra in todo:
            if name in outs:
                continue
            ar, bad = archive(l)
            if not o:
                raise BuildError(err)
            key = hashlib.sha256((o + ar + extra).encode()).hexdigest()[:24]
            exe = os.path.join(self.dir, name + "." + key + ".exe")
            outs[name] = exe
            if os.path.exists(exe):
                continue
            tmp = exe + ".%d.tmp" % os.getpid()
            link_tail = [ar, os.path.join(REPO, "lib/linux/libsdd.a"), "-lgmp", "-lpthread", "-lm"]
            cmd = [self.cxx, "-fsanitize=address", "-no-pie"] + ([extra] if extra else []) + [o] + link_tail + ["-o", tmp]
            r = sh(cmd)
            if r.returncode:
                raise BuildError(bad + " ".join(cmd) + "\n" + r.stdout[-6000:])
            os.rename(tmp, exe)
        return outs


def env_for(outs):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=32"
    e["LC_ALL"] = "C"
    for n, p in outs.items():
        if n.endswith(".cpp"):
            e["PBT_PROG_" + n[:-4].upper()] = p
    e["PBT_REPO"] = REPO
    return e


def fuzz_campaign(pid, seed, pool, nproc, secs):
    """libFuzzer over the byte form of the same property. Returns a dict."""
    t0 = time.time()
    b = Builder(fuzz=True)
    outs = b.build([pid], pool)
    env = env_for(outs)
    import tempfile
    work = tempfile.mkdtemp(prefix="pbt_fuzz_", dir="/tmp")
    procs = []
    try:
        for i in range(nproc):
            d = os.path.join(work, "w%d" % i)
            os.makedirs(d + "/corpus")
            os.makedirs(d + "/scratch")
            e = dict(env, PBT_SCRATCH=d + "/scratch")
            cmd = [outs[pid], "-seed=%d" % (seed * 1000 + i + 1), "-max_total_time=%d" % secs, "-max_len=%d" % (600 * (1 + i % 4)), "-timeout=120",
                   "-rss_limit_mb=6000", "-print_final_stats=1", "-detect_leaks=0", "-artifact_prefix=" + d + "/art_", d + "/corpus"]
            with open(d + "/log", "w") as lf:
                procs.append((i, d, subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=lf, stdin=subprocess.DEVNULL)))
        execs, cov, corpus, art = 0, 0, 0, None
        for i, d, p in procs:
            try:
                p.wait(timeout=secs + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            with open(d + "/log", errors="replace") as f:
                log = f.read()
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
            execs += int(m.group(1)) if m else 0
            c = re.findall(r"cov: (\d+)", log)
            cov = max([cov] + [int(x) for x in c])
            corpus += len(os.listdir(d + "/corpus"))
            for a in sorted(glob.glob(d + "/art_*")):
                kind = os.path.basename(a)
                if kind.startswith(("art_crash", "art_timeout", "art_oom")) and art is None:
                    dst = os.path.join(VERIF, "replays", "%s_fuzz_s%d_%s" % (pid, seed, kind[4:24]))
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copy(a, dst)
                    m = re.findall(r"(PBT-FAILURE:.*|.*ERROR:.*|.*Assertion.*)", log)
                    art = {"replay": dst, "message": (m or [kind])[0][:600]}
        return {"executions": execs, "edges": cov, "corpus": corpus, "processes": nproc, "seconds": round(time.time() - t0, 1), "finding": art}
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+)\s+(.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    ncpu = min(8, os.cpu_count() or 8)
    pool = cf.ThreadPoolExecutor(ncpu)
    if sys.argv[1] == "build":
        pids = sys.argv[2:] or sorted(PLAN)
        try:
            Builder().build(pids, pool)
        except BuildError as e:
            print(e)
            return 2
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    plan = PLAN[pid]
    t0 = time.time()
    try:
        outs = Builder().build([pid], pool)
    except BuildError as e:
        print("BUILD-ERROR", pid)
        print(e)
        return 2
    t_build = time.time() - t0
    env = env_for(outs)
    if tier == "replay":
        return subprocess.run([outs[pid], "replay", sys.argv[3]], env=env).returncode
    if tier not in ("quick", "thorough"):
        print("unknown tier", tier)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    cases = plan["thorough"] if thorough else plan["quick"]
    if os.environ.get("VERIF_CASES"):
        cases = int(os.environ["VERIF_CASES"])
    resf = os.path.join(BUILD, "result.%s.%d.json" % (pid, os.getpid()))
    cmd = [outs[pid], "run", "--seed", str(seed), "--cases", str(cases), "--batch", str(plan.get("batch", 25)), "--workers", str(ncpu),
           "--out", resf, "--replays", os.path.join(VERIF, "replays")]
    if thorough:
        cmd.append("--thorough")
    if "cpu" in plan:
        cmd += ["--cpu", str(plan["cpu"])]
    r = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL)
    if not os.path.exists(resf):
        print("INTERNAL-ERROR", pid, "the runner ended with", r.returncode)
        return 2
    with open(resf) as f:
        res = json.load(f)
    os.unlink(resf)
    fuzz = None
    if thorough and plan.get("fuzz", 0) and not res["violation"]:
        secs = int(os.environ.get("VERIF_FUZZ_SECS", plan["fuzz"]))
        try:
            fuzz = fuzz_campaign(pid, seed, pool, ncpu, secs)
        except BuildError as e:
            print("BUILD-ERROR", pid, "(fuzz target)")
            print(e)
            return 2
        # a finding must reproduce in the plain harness to be reported
        if fuzz["finding"]:
            rr = sh([outs[pid], "replay", fuzz["finding"]["replay"]], env=env)
            fuzz["finding"]["reproduced"] = rr.returncode == 1
            if rr.returncode == 1:
                res["violation"] = {"replay": fuzz["finding"]["replay"], "message": fuzz["finding"]["message"], "case_text": rr.stdout[-3000:]}
    v = res["violation"]
    cov = {
        "evaluations": res["cases"] + (fuzz["executions"] if fuzz else 0),
        "distinct_nontrivial": res["distinct_nontrivial"],
        "rule": res["rule"],
        "samples": res["samples"] or (["the run stopped at its first failure: " + v["message"]] if v else []),
        "random_cases": res["cases"],
        "nontrivial": res["nontrivial"],
        "choices_drawn": res["draws"],
        "labels": res["labels"],
        "counters": res["counters"],
        "unreproduced_failures": res["unreproduced"],
        "build_s": round(t_build, 1),
        "search_s": res["wall_s"],
    }
    if fuzz:
        cov["libfuzzer"] = fuzz
    if v:
        cov["violation"] = v
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": plan.get("assumptions", []) + ["libsdd.a, GMP, libstdc++ and the harness's own reference models are trusted",
                                                       "a violation outside the generated sizes and value ranges would not be seen"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if v else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if v:
        print("%s: %s" % (pid, v["message"]))
        print((v.get("case_text") or "")[:2500])
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, no violation (build %.1f s, total %.1f s)%s" % (
        pid, tier, seed, res["cases"], res["distinct_nontrivial"], t_build, time.time() - t0,
        ", libFuzzer %d executions" % fuzz["executions"] if fuzz else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
