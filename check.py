#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property.

  check.py Cxx            quick or thorough according to VERIF_TIER (default quick), seed VERIF_SEED
  check.py Cxx --replay FILE   re-executes the execution recorded in a replay file

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line otherwise.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = "g++"
CPUS = sorted(os.sched_getaffinity(0))
NCPU = max(1, min(8, len(CPUS)))

ENGINES = {
    # name: (compile flags for instrumented code, link flags, runtime source)
    "sched": (["-O1", "-g1", "-fno-pie", "-fsanitize=thread"], ["-no-pie", "-lpthread", "-ldl"], "vs_runtime.cpp"),
    "asan": (["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
             ["-fsanitize=address,undefined", "-lpthread", "-ldl"], "vs_free.cpp"),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread", "-lpthread", "-ldl"], "vs_free.cpp"),
}
RUNENV = {
    "sched": {},
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=2:detect_stack_use_after_return=1:handle_abort=0",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=2"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=2:suppressions=%s/engine/tsan.supp" % VERIF},
}
# scenarios flags
SCHED_ONLY, FREE_ONLY, SEQ = 1, 2, 4


class BuildError(Exception):
    pass


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def uses_fences():
    for f in glob.glob(os.path.join(REPO, "portable_concurrency", "**", "*"), recursive=True):
        if os.path.isfile(f) and "thread_fence" in open(f, errors="replace").read():
            return True
    return False


def build(cfg, engines, bdir, log):
    lib_srcs = sorted(glob.glob(os.path.join(REPO, "portable_concurrency", "**", "*.cpp"), recursive=True))
    std = cfg.get("std", "gnu++17")
    jobs = []  # (key, cmd, is_harness)
    for e in engines:
        fl, ld, rt = ENGINES[e]
        inc = ["-I" + REPO, "-w"]
        for i, s in enumerate(lib_srcs):
            jobs.append((e, "lib%d" % i, [CXX, "-std=" + std] + fl + inc + ["-c", s, "-o", "%s/%s.lib%d.o" % (bdir, e, i)], False))
        for h in cfg["src"]:
            o = "%s/%s.%s.o" % (bdir, e, os.path.basename(h).replace(".cpp", ""))
            jobs.append((e, h, [CXX, "-std=" + std] + fl + inc + ["-c", os.path.join(VERIF, "harness", h), "-o", o], True))
        pie = ["-fno-pie"] if e == "sched" else []
        jobs.append((e, "rt", [CXX, "-std=gnu++17", "-O2", "-g1", "-w"] + pie + ["-c", os.path.join(VERIF, "engine", rt), "-o", "%s/%s.rt.o" % (bdir, e)], False))
    # biggest first
    jobs.sort(key=lambda j: not j[3])

    def one(j):
        p = run_cmd(j[2])
        if p.returncode:
            p = run_cmd(j[2])  # transient failures (memory pressure)
        return j, p

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, p in ex.map(one, jobs):
            if p.returncode:
                log.append("BUILD FAILED: %s\n%s" % (" ".join(j[2]), p.stdout))
                raise BuildError("harness" if j[3] else j[1])
    bins = {}
    for e in engines:
        out = "%s/%s.bin" % (bdir, e)
        p = run_cmd([CXX] + sorted(glob.glob("%s/%s.*.o" % (bdir, e))) + ["-o", out] + ENGINES[e][1])
        if p.returncode:
            log.append("LINK FAILED\n" + p.stdout)
            raise BuildError("harness")
        bins[e] = out
    return bins


def load_known(pid):
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) scen=(\S+) kind=(\S+) match=/(.*)/ :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append(m.groups()[1:])
    return res


VIOL_RE = re.compile(r"^VS(VIOL|HANG) scen=(\S+) seed=(\d+) index=(\d+) kind=(\S+) msg=(.*)$", re.M)


class Runner:
    def __init__(self, pid, cfg, tier, seed, bdir):
        self.pid, self.cfg, self.tier, self.seed, self.bdir = pid, cfg, tier, seed, bdir
        self.lock = threading.Lock()
        self.stop = False
        self.viol = None
        self.known_hits = {}
        self.stats = []
        self.sigs = set()
        self.hangs = 0
        self.errors = 0
        self.inconclusive = []
        self.known = load_known(pid)
        self.slots = list(range(NCPU))
        self.deadline = None

    def exec_bin(self, engine, binp, scen, frm, cnt, cpu, sigs=None, timeout=400, extra=()):
        cmd = [binp, "--scen", scen, "--seed", str(self.seed), "--from", str(frm), "--count", str(cnt), "--cpu", str(cpu)]
        if sigs:
            cmd += ["--sigs", sigs]
        cmd += list(extra)
        env = dict(os.environ)
        env.update(RUNENV[engine])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=self.bdir)
            return p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode(errors="replace")

    def matches_known(self, scen, kind, msg):
        for k in self.known:
            if (k[0] in ("*", scen)) and k[1] in ("*", kind) and re.search(k[2], msg):
                return k
        return None

    def shard(self, engine, binp, scen, frm, cnt):
        with self.lock:
            if self.stop:
                return
            if self.deadline and time.time() > self.deadline:
                self.inconclusive.append("time budget: %s/%s executions %d..%d not run" % (engine, scen, frm, frm + cnt))
                return
            slot = self.slots.pop()
        try:
            self._shard(engine, binp, scen, frm, cnt, CPUS[slot % len(CPUS)], slot)
        finally:
            with self.lock:
                self.slots.append(slot)

    def _shard(self, engine, binp, scen, frm, cnt, cpu, slot):
        end = frm + cnt
        retries = 0
        while frm < end and not self.stop:
            sp = "%s/sig.%s.%d" % (self.bdir, engine, slot)
            rc, out = self.exec_bin(engine, binp, scen, frm, end - frm, cpu, sp)
            m = VIOL_RE.search(out)
            if rc == 0 and not m:
                with self.lock:
                    for line in out.splitlines():
                        if line.startswith("VSSTAT "):
                            self.stats.append((engine, json.loads(line[7:])))
                    try:
                        b = open(sp, "rb").read()
                        self.sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                        os.unlink(sp)
                    except OSError:
                        pass
                return
            if m and m.group(1) == "HANG" or rc == "timeout":
                # free running hang: inconclusive unless it happens again
                idx = int(m.group(4)) if m else frm
                self.hangs += 1
                again = 0
                for _ in range(2):
                    rc2, out2 = self.exec_bin(engine, binp, scen, frm if not m else max(frm, idx - 50), 51 if m else end - frm, cpu)
                    m2 = VIOL_RE.search(out2)
                    if rc2 == "timeout" or (m2 and m2.group(1) == "HANG"):
                        again += 1
                        break
                    if m2:
                        m, out, rc = m2, out2, rc2
                        break
                if not again and not (m and m.group(1) == "VIOL"):
                    self.inconclusive.append("hang not reproduced: %s/%s near %d" % (engine, scen, idx))
                    frm = idx + 1
                    continue
                if again:
                    self.record(engine, scen, frm, idx, "hang", "execution does not terminate (reproduced)", out)
                    return
            if m and m.group(1) == "VIOL":
                kind, msg, idx = m.group(5), m.group(6), int(m.group(4))
                if m.group(2) == "exit":
                    idx = frm
                k = self.matches_known(scen, kind, msg)
                if k:
                    with self.lock:
                        self.known_hits[k] = self.known_hits.get(k, 0) + 1
                    frm = idx + 1
                    continue
                self.record(engine, scen, frm, idx, kind, msg, out)
                return
            if rc == 0:
                return
            # neither a verdict nor a clean end
            retries += 1
            if retries >= 3:
                if isinstance(rc, int) and rc < 0 and rc not in (-9, -15):
                    self.record(engine, scen, frm, frm, "crash", "process ended by signal %d" % -rc, out)
                else:
                    self.inconclusive.append("engine error %s in %s/%s: %s" % (rc, engine, scen, out[-300:]))
                    self.errors += 1
                return

    def record(self, engine, scen, frm, idx, kind, msg, out):
        with self.lock:
            if self.viol:
                return
            self.stop = True
            self.viol = dict(engine=engine, scen=scen, shard_from=frm, index=idx, kind=kind, msg=msg, out=out)


def symbolize(binp, text):
    pcs = sorted(set(re.findall(r"(?:pc=|VSSTACK.*?)\b([0-9a-f]{5,8})\b", text)) | set(x for l in text.splitlines() if l.startswith("VSSTACK") for x in l.split()[1:]))
    if not pcs or not shutil.which("addr2line"):
        return ""
    p = run_cmd(["addr2line", "-Cfpe", binp] + ["0x" + x for x in pcs[:120]])
    lines = p.stdout.splitlines()
    return "\n".join("%s %s" % (a, b) for a, b in zip(pcs, lines))


def main():
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed = replay["seed"]
    t0 = time.time()
    budget = cfg[tier]
    engines = [replay["engine"]] if replay else [e for e in ("sched", "asan", "tsan") if budget.get(e)]
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=ensure(os.path.join(VERIF, "build")))
    log = []
    rn = Runner(pid, cfg, tier, seed, bdir)
    rn.deadline = t0 + (budget.get("seconds") or (480 if tier == "quick" else 2700))
    code = 0
    try:
        try:
            bins = build(cfg, engines, bdir, log)
        except BuildError as e:
            if str(e) == "harness":
                rn.viol = dict(engine="build", scen="-", shard_from=0, index=0, kind="build", msg="client code using the public API no longer compiles", out=log[-1])
                bins = {}
            else:
                print("\n".join(log)[-4000:])
                print("ERROR: the library does not build")
                return 2
        t_build = time.time() - t0
        if replay and bins:
            e = replay["engine"]
            for frm, cnt in ((replay["index"], 1), (replay["shard_from"], replay["index"] - replay["shard_from"] + 1)):
                for _ in range(1 if e == "sched" else 20):
                    rc, out = rn.exec_bin(e, bins[e], replay["scen"], frm, cnt, CPUS[0])
                    if VIOL_RE.search(out) or rc != 0:
                        print(out)
                        print(symbolize(bins[e], out))
                        return 1
            print("replay: no violation")
            return 0
        if bins:
            skip = set()
            if "tsan" in bins and uses_fences():
                skip.add("tsan")  # ThreadSanitizer does not model fences and would report false races; the sched engine does
                rn.inconclusive.append("ThreadSanitizer pass skipped: the library uses atomic_thread_fence")
            if "tsan" in bins:
                p = run_cmd([bins["tsan"], "--list"])
                if p.returncode:
                    skip.add("tsan")
                    rn.inconclusive.append("ThreadSanitizer runtime does not start here: " + p.stdout[-200:])
            for e in engines:
                if e in skip or rn.stop:
                    continue
                scens = []
                p = run_cmd([bins[e], "--list"])
                for line in p.stdout.splitlines():
                    a = line.split()
                    if len(a) == 3:
                        scens.append((a[0], int(a[1]), int(a[2])))
                tot = sum(w for _, w, _ in scens) or 1
                jobs = []
                for name, w, fl in scens:
                    n = max(20, budget[e] * w // tot)
                    per = max(1, min(4000 if e == "sched" else 400, (n + NCPU - 1) // NCPU))
                    f = 0
                    k = 0
                    while f < n:
                        jobs.append((k, name, f, min(per, n - f)))
                        f += per
                        k += 1
                jobs.sort(key=lambda j: j[0])
                with cf.ThreadPoolExecutor(NCPU) as ex:
                    list(ex.map(lambda j: rn.shard(e, bins[e], j[1], j[2], j[3]), jobs))
        samples = []
        if bins.get("sched") and not rn.viol:
            p = run_cmd([bins["sched"], "--list"])
            for line in p.stdout.splitlines()[:6]:
                rc, out = rn.exec_bin("sched", bins["sched"], line.split()[0], 1, 1, CPUS[0], extra=["--dump"])
                samples += [x[7:] for x in out.splitlines() if x.startswith("VSDUMP ")]
        elif not rn.viol:
            samples = ["free running executions only"]
        if rn.viol:
            code = 1
            v = rn.viol
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, v["scen"], v["index"]))
            sym = symbolize(bins[v["engine"]], v["out"]) if v["engine"] == "sched" and bins else ""
            confirmed = None
            if v["engine"] == "sched" and bins:
                confirmed = "no"
                for frm, cnt, lab in ((v["index"], 1, "yes"), (v["shard_from"], v["index"] - v["shard_from"] + 1, "yes, from shard start")):
                    rc, out = rn.exec_bin("sched", bins["sched"], v["scen"], frm, cnt, CPUS[0])
                    if VIOL_RE.search(out):
                        confirmed = lab
                        break
            json.dump(dict(property=pid, engine=v["engine"], scen=v["scen"], seed=seed, index=v["index"], shard_from=v["shard_from"], kind=v["kind"], msg=v["msg"],
                           reproduced=confirmed, output=v["out"][-20000:], symbols=sym,
                           how="python3 check.py %s --replay %s" % (pid, os.path.relpath(rp, VERIF))), open(rp, "w"), indent=1)
            samples.append("violating execution: engine=%s scen=%s index=%d kind=%s msg=%s" % (v["engine"], v["scen"], v["index"], v["kind"], v["msg"]))
            print("engine=%s scenario=%s index=%d kind=%s: %s" % (v["engine"], v["scen"], v["index"], v["kind"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        for k, n in rn.known_hits.items():
            print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
        tot = {}
        per_scen = {}
        cover = {}
        for e, s in rn.stats:
            for k, x in s.items():
                if isinstance(x, (int, float)) and k not in ("distinct", "sec"):
                    tot[(e, k)] = tot.get((e, k), 0) + x
            key = e + "/" + s["scen"]
            per_scen[key] = per_scen.get(key, 0) + s["exec"]
            for c, n in s["cover"].items():
                cover[c] = cover.get(c, 0) + n
        nexec = sum(s["exec"] for _, s in rn.stats)
        cov = dict(
            evaluations=nexec,
            distinct_nontrivial=len(rn.sigs),
            rule="an evaluation is one complete execution of a randomly generated client program of the public API under one randomly chosen schedule with the property's oracle and the "
                 "race/lifetime/deadlock monitors attached; distinct = distinct 64-bit signature of (generated program, sequence of scheduled synchronisation operations) in the controlled "
                 "scheduler, of the generated program in the free running builds",
            samples=samples,
            executions_per_scenario=per_scen,
            observed={"%s.%s" % k: v for k, v in sorted(tot.items())},
            reached=cover,
            inconclusive=rn.inconclusive[:20],
            build_s=round(t_build, 1),
        )
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=["executions sampled, not enumerated", "sequentially consistent interleavings plus happens-before analysis of memory orders (no store-buffer values)",
                               "gcc 13 / libstdc++ / x86-64 Linux"],
                  wall_s=round(time.time() - t0, 2), violations=1 if rn.viol else 0)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: %d executions, %d distinct, %.1fs (build %.1fs), %s" % (pid, tier, nexec, len(rn.sigs), time.time() - t0, t_build, "VIOLATED" if code else "held"))
        for i in rn.inconclusive[:5]:
            print("inconclusive:", i)
        if not code and nexec == 0:
            print("ERROR: nothing was observed")
            return 2
        return code
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


if __name__ == "__main__":
    sys.exit(main())
