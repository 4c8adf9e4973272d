#!/usr/bin/env python3-vt
"""Decide one property:  check.py <ID> [--tier quick|thorough] [--only HARNESS]     replay:  check.py --replay FILE

Every run: compile the harness + the real sources of /repo to IR, generate all verification conditions, discharge
them with SMT solvers; in parallel run the same harness natively (ASan) on searched inputs (bounded cross-check).
"""
import sys, os, json, time, subprocess, threading, re, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

REPO = "/repo"
DEFS = ["-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1", "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1", "-DNDEBUG"]
INC = ["-I" + REPO + "/include", "-I" + REPO, "-I" + HERE + "/harness"]
SEED = os.environ.get("VERIF_SEED", "1")
CORES = 8


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -99, out.decode(errors="replace") + "\n(timeout)"


class Run:
    def __init__(self, pid, tier, only=None):
        self.p = props.PROPS[pid]
        self.pid = pid
        self.tier = tier
        self.hs = [h for h in self.p.harnesses if (not only or h.root == only) and (tier == "thorough" or not h.thorough_only)]
        self.dir = os.path.join(HERE, "build", "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.rep = os.path.join(HERE, "build", "replay")
        os.makedirs(self.rep, exist_ok=True)
        self.t0 = time.time()
        self.budget = 780 if tier == "quick" else 3000
        self.sem = threading.Semaphore(CORES)
        self.problems = []      # (harness, label, detail, replayfile or None, confirmed)
        self.results = {}
        self.fuzz = {}
        self.lock = threading.Lock()

    def left(self):
        return max(5, self.budget - (time.time() - self.t0))

    # ---------------------------------------------------------------- build
    def src(self, f):
        return os.path.join(HERE, "harness", f)

    def compile_bc(self, f):
        out = os.path.join(self.dir, f + ".bc")
        with self.sem:
            rc, o = sh(["clang++", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-g", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DV_SYMBOLIC=1"] + DEFS + INC + ["-emit-llvm", "-c", self.src(f), "-o", out], 300)
        return out if rc == 0 else None, o

    def compile_native(self, f):
        out = os.path.join(self.dir, f + ".bin")
        flags = ["-std=c++17", "-g1", "-w", "-O1", "-fsanitize=fuzzer,address", "-fno-sanitize-recover=all"] + DEFS + INC
        link = re.findall(r"^// link: (.*)$", open(self.src(f)).read(), re.M)
        extra = [os.path.join(REPO, x) for l in link for x in l.split()]
        with self.sem:
            rc, o = sh(["clang++"] + flags + ["-rdynamic", self.src(f)] + extra + [ os.path.join(HERE, "native", "v_native.cpp"), "-o", out, "-lsimdjson", "-ldl", "-lpthread"], 400)
        return out if rc == 0 else None, o

    # ---------------------------------------------------------------- proof
    def dump(self, h, bc):
        """IR of one harness, shared by all its cases"""
        if bc[0] is None:
            return None, "harness does not compile against this tree: " + bc[1][-1500:]
        js = os.path.join(self.dir, h.root + ".json")
        cmd = [os.path.join(HERE, "build", "irdump"), bc[0], js, "--root", h.root]
        for r in h.preds:
            cmd += ["--root", r]
        for a, b in h.replace.items():
            cmd += ["--replace", "%s=%s" % (a, b)]
        for k in h.keep:
            cmd += ["--keep", k]
        with self.sem:
            rc, o = sh(cmd, 120)
        return (js, "") if rc == 0 else (None, "irdump: " + o[-800:])

    def prove(self, h, jsr, case):
        js, err = jsr
        if js is None:
            return dict(error=err, obligations=[])
        jobs = h.jobs
        tag = h.root + "".join("_%s%d" % x for x in case.items())
        deadline = min(h.deadline * (4 if self.tier == "thorough" else 1), self.left() - 40)
        spec = dict(root=h.root, json=js, opts=dict(h.opts, splits=case), jobs=jobs, ms=h.ms * (4 if self.tier == "thorough" else 1), deadline=deadline, cover=h.cover)
        sp, rp = os.path.join(self.dir, tag + ".spec"), os.path.join(self.dir, tag + ".res")
        json.dump(spec, open(sp, "w"))
        for attempt in range(5):      # a crashed solver process (z3 bug, allocation-order dependent) is retried
            rc, o = sh([sys.executable, os.path.join(HERE, "engine", "worker.py"), sp, rp], deadline + 60, env=dict(PYTHONHASHSEED=str(attempt)))
            if rc >= 0:
                break
        try:
            r = json.load(open(rp))
            if not r.get("error") and r["splits"] != h.splits:
                r["error"] = "case split %s of the harness is not the enumerated one %s" % (r["splits"], h.splits)
            return r
        except Exception:
            return dict(error="verifier process died (rc %d) %s" % (rc, o[-600:]), obligations=[])

    # ---------------------------------------------------------------- native
    def native_replay(self, binf, root, lines, label):
        h = hashlib.sha1(("\n".join(lines)).encode()).hexdigest()[:12]
        f = os.path.join(self.rep, "%s-%s-%s.txt" % (self.pid, root, h))
        with open(f, "w") as fo:
            fo.write("# property=%s harness=%s file=%s\n# obligation: %s\n# replay: ./check.py --replay %s\nharness %s %s\n" % (self.pid, root, self.filof(root), label, f, self.filof(root), root))
            fo.write("\n".join(lines) + "\n")
        rc, o = sh([binf, "--replay", f], 60, env=dict(VROOT=root, VTRACE="1", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1"))
        bad = rc != 0 and rc != 3 and "out-of-memory" not in o and "allocation-size-too-big" not in o
        with open(f, "a") as fo:
            fo.write("# native run on the real code: %s\n" % ("FAILED (violation reproduced)" if bad else "did not fail"))
            for l in o[-4000:].split("\n"):
                fo.write("# | %s\n" % l)
        return bad, f, o

    def filof(self, root):
        return [h.file for h in self.p.harnesses if h.root == root][0]

    def run_fuzz(self, h, binf):
        t = h.fuzz * (10 if self.tier == "thorough" else 1)
        if t <= 0:
            return
        art = os.path.join(self.dir, "art-%s-" % h.root)
        corpus = os.path.join(self.dir, "corpus-" + h.root)
        os.makedirs(corpus, exist_ok=True)
        with self.sem:
            rc, o = sh([binf, corpus, "-max_total_time=%d" % t, "-seed=" + SEED, "-artifact_prefix=" + art, "-detect_leaks=0", "-rss_limit_mb=3000", "-timeout=30", "-max_len=%d" % h.max_len, "-use_value_profile=1", "-print_final_stats=0", "-verbosity=0", "-close_fd_mask=0"],
                       t + 120, env=dict(VROOT=h.root, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1"), cwd=self.dir)
        m = re.findall(r"VSTAT execs=(\d+) accepted=(\d+)", o)
        ex, ac = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.fuzz[h.root] = dict(executions=ex, accepted=ac, seconds=t)
        arts = [x for x in os.listdir(self.dir) if x.startswith("art-%s-" % h.root) and ("crash" in x or "timeout" in x)]
        for a in arts:
            data = open(os.path.join(self.dir, a), "rb").read()
            f = os.path.join(self.rep, "%s-%s-%s.txt" % (self.pid, h.root, hashlib.sha1(data).hexdigest()[:12]))
            rc2, o2 = sh([binf, os.path.join(self.dir, a), "-timeout=30"], 60, env=dict(VROOT=h.root, VTRACE="1", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1"))
            if rc2 == 0:
                continue
            lab = re.findall(r"VFAIL (.*)", o2) or re.findall(r"ERROR: (.*)", o2) or ["crash"]
            with open(f, "w") as fo:
                fo.write("# property=%s harness=%s file=%s\n# failing input found by bounded native search\n# %s\n# replay: ./check.py --replay %s\nharness %s %s\nfuzzdata %s\n" % (self.pid, h.root, h.file, lab[0], f, h.file, h.root, data.hex() or "-"))
                for l in o2[-5000:].split("\n"):
                    fo.write("# | %s\n" % l)
            with self.lock:
                self.problems.append((h.root, lab[0][:200], "native search", f, True))
            return

    # ---------------------------------------------------------------- main
    def go(self):
        files = sorted(set(h.file for h in self.hs))
        for f in os.listdir(self.rep):
            if f.startswith(self.pid + "-"):
                os.remove(os.path.join(self.rep, f))
        if not os.path.exists(os.path.join(HERE, "build", "irdump")):
            sh([os.path.join(HERE, "setup.sh")], 300)
        ex = ThreadPoolExecutor(256)
        proofs = [h for h in self.hs if not h.bounded_only]
        bcs = {f: ex.submit(self.compile_bc, f) for f in sorted(set(h.file for h in proofs))}
        nat = {f: ex.submit(self.compile_native, f) for f in files if any(h.native for h in self.hs if h.file == f)}
        gate = threading.Semaphore(CORES)

        def one(h, case):
            js = dumps[h.root].result()
            with gate:
                r = self.prove(h, js, case)
            with self.lock:
                old = self.results.get(h.root)
                if old is None:
                    r["cases"] = 1
                    self.results[h.root] = r
                else:       # merge the cases of one harness
                    old["cases"] += 1
                    old["error"] = old.get("error") or r.get("error")
                    old["obligations"] = old.get("obligations", []) + r.get("obligations", [])
                    for k in ("invariants", "notes", "trusted"):
                        old[k] = old.get(k, []) + [x for x in r.get(k, []) if x not in old.get(k, [])]
                    for c, v in r.get("cover", {}).items():
                        if old.setdefault("cover", {}).get(c) != "reachable":
                            old["cover"][c] = v
                    old["wall"] = old.get("wall", 0) + r.get("wall", 0)

        def fz(h):
            if not h.native:
                return
            b = nat[h.file].result()
            if b[0]:
                self.run_fuzz(h, b[0])
            else:
                self.fuzz[h.root] = dict(error=b[1][-1500:])
        order = sorted(proofs, key=lambda h: -h.weight)
        dex = ThreadPoolExecutor(8)
        dumps = {h.root: dex.submit(lambda h=h: self.dump(h, bcs[h.file].result())) for h in order}
        pf = [ex.submit(one, h, c) for h in order for c in h.cases()]
        ff = [ex.submit(fz, h) for h in self.hs if h.native]
        for x in pf + ff:
            x.result()
        # judge
        for h in self.hs:
            r = self.results.get(h.root)
            fzr = self.fuzz.get(h.root, {})
            if h.bounded_only:
                if "error" in fzr:
                    self.problems.append((h.root, "harness does not compile", fzr["error"], None, False))
                elif fzr.get("accepted", 0) == 0 and not any(p[0] == h.root for p in self.problems):
                    self.problems.append((h.root, "no accepted execution", json.dumps(fzr), None, False))
                continue
            if r.get("error"):
                self.problems.append((h.root, "verification conditions could not be generated", r["error"], None, False))
                continue
            if r["cases"] != len(h.cases()):
                self.problems.append((h.root, "not every case was verified", "", None, False))
            obs = r["obligations"]
            if len(obs) < h.min_obligations:
                self.problems.append((h.root, "only %d obligations generated (vacuous)" % len(obs), "", None, False))
            for c in h.cover:
                if r["cover"].get(c) == "unreachable" or c not in r["cover"]:
                    self.problems.append((h.root, "cover point %s unreachable (vacuous precondition)" % c, str(r["cover"]), None, False))
            failed = [o for o in obs if o["status"] != "proved"]
            conf = False
            nb = nat[h.file].result()[0] if h.file in nat else None
            tried = set()
            for o in failed:
                if o.get("model") and nb and len(tried) < 12:
                    k = "\n".join(o["model"])
                    if k in tried:
                        continue
                    tried.add(k)
                    bad, f, out = self.native_replay(nb, h.root, o["model"], "%s [%s] at %s" % (o["label"], o["kind"], o["where"]))
                    if bad:
                        self.problems.append((h.root, o["label"], "%s at %s, counterexample replayed" % (o["kind"], o["where"]), f, True))
                        conf = True
                        break
                    o["replay"] = f
            if failed and not conf:
                o = failed[0]
                self.problems.append((h.root, "%s (%s, %s) at %s" % (o["label"], o["kind"], o["status"], o["where"]), "\n".join("%s %s [%s] %s at %s" % (x["status"], x["label"], x["kind"], x["backend"], x["where"]) for x in failed[:40]), o.get("replay"), False))
        self.evidence()
        rc = 0
        if self.problems:
            rc = 1
            conf = [p for p in self.problems if p[4]]
            best = conf[0] if conf else self.problems[0]
            path = best[3]
            if path is None or not best[4]:
                f = os.path.join(self.rep, "%s-%s-undischarged.txt" % (self.pid, best[0]))
                with open(f, "w") as fo:
                    for root, lab, det, rp, c in self.problems:
                        fo.write("harness %s\nobligation: %s\n%s\ncandidate model (not reproduced natively): %s\n\n" % (root, lab, det, rp))
                path = f
            for root, lab, det, rp, c in self.problems:
                print("  problem: %s: %s | %s" % (root, lab, det.replace("\n", " ; ")[:400]))
            print("VIOLATION property=%s replay=%s%s" % (self.pid, path, "" if conf else " no-failing-input-found"))
        else:
            n = sum(len(r["obligations"]) for r in self.results.values())
            print("OK property=%s obligations=%d harnesses=%d wall=%.0fs" % (self.pid, n, len(self.hs), time.time() - self.t0))
        if os.environ.get("VKEEP") != "1":
            shutil.rmtree(self.dir, ignore_errors=True)
        return rc

    def evidence(self):
        obs = [o for r in self.results.values() for o in r.get("obligations", [])]
        be = {}
        for o in obs:
            if o["status"] == "proved":
                be[o["backend"]] = be.get(o["backend"], 0) + 1
        trusted = sorted(set(t for r in self.results.values() for t in r.get("trusted", [])) | set(props.TRUSTED) | set(self.p.trusted))
        fns = sorted(set(f for r in self.results.values() for f in r.get("functions", [])))
        cov = dict(
            obligations=len(obs), discharged=sum(1 for o in obs if o["status"] == "proved"),
            discharged_by_backend=be, solver_seconds=round(sum(o["time"] for o in obs), 1),
            loop_invariants=[i for r in self.results.values() for i in r.get("invariants", [])],
            checker_cmd="./check.py %s --tier %s" % (self.pid, self.tier),
            trusted_base=trusted,
            functions_under_contract=fns,
            harnesses={h.root: dict(file="harness/" + h.file, kind="bounded native stand-in, not proved" if h.bounded_only else "deductive proof", contract=h.doc, obligations=len(self.results.get(h.root, {}).get("obligations", [])),
                                    cover=self.results.get(h.root, {}).get("cover"), cases=self.results.get(h.root, {}).get("cases"), seconds=round(self.results.get(h.root, {}).get("wall", 0), 1), bounded=self.results.get(h.root, {}).get("bounded"), error=self.results.get(h.root, {}).get("error")) for h in self.hs},
            bounded_native_crosscheck=self.fuzz,
            evaluations=sum(f.get("executions", 0) for f in self.fuzz.values()),
            distinct_nontrivial=sum(f.get("accepted", 0) for f in self.fuzz.values()),
            rule="libFuzzer executions of the same harness on the real code (bounded cross-check, never counted as proof); non-trivial = every precondition of the contract held",
            samples=[dict(label=o["label"], kind=o["kind"], where=o["where"], status=o["status"], backend=o["backend"]) for o in obs if o["backend"] != "syntactic"][:25] or [str(self.fuzz)],
            undischarged=[dict(label=o["label"], where=o["where"], status=o["status"]) for o in obs if o["status"] != "proved"][:50],
            notes=sorted(set(n for r in self.results.values() for n in r.get("notes", []))),
            explanation=self.p.note,
        )
        ev = dict(property=self.pid, tier=self.tier, seed=int(SEED), level=self.p.level, coverage=cov, assumptions=trusted + self.p.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.problems))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.pid + ".json"), "w"), indent=1)


def replay(path):
    lines = open(path).read().split("\n")
    h = [l.split() for l in lines if l.startswith("harness ")][0]
    pid = [k for k, p in props.PROPS.items() if any(x.root == h[2] for x in p.harnesses)][0]
    r = Run(pid, "quick")
    b, o = r.compile_native(h[1])
    if not b:
        print(o)
        return 1
    fd = [l.split()[1] for l in lines if l.startswith("fuzzdata ")]
    env = dict(VROOT=h[2], VTRACE="1", ASAN_OPTIONS="detect_leaks=0")
    if fd:
        f = os.path.join(r.dir, "data")
        open(f, "wb").write(bytes.fromhex(fd[0] if fd[0] != "-" else ""))
        rc, o = sh([b, f], 60, env=env)
    else:
        rc, o = sh([b, "--replay", os.path.abspath(path)], 60, env=env)
    print(o)
    print("exit", rc)
    shutil.rmtree(r.dir, ignore_errors=True)
    return 1 if rc else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    try:
        rc = Run(sys.argv[1], tier, only).go()
    except Exception as e:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
