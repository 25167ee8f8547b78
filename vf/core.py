"""Builds /repo's sources for symbolic execution and for native replay, runs
the harnesses of a property and writes its evidence."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
ENGINE = os.path.join(BUILD, "symx")
NPROC = os.cpu_count() or 4

IR_FLAGS = ["-O1", "-gline-tables-only", "-w", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-fno-builtin-printf"]
PROG_FLAGS = ["-std=c99", "-D_XOPEN_SOURCE=600", "-D_FILE_OFFSET_BITS=64"]
ENV_FLAGS = ["-std=gnu11", "-D_GNU_SOURCE", "-D_FILE_OFFSET_BITS=64", "-w"]
OPT = "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)"


class Broken(Exception):
    """The check cannot answer."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = sorted(glob.glob(os.path.join(ROOT, "engine", "*")))
    h = hashlib.sha256()
    for s in src:
        h.update(open(s, "rb").read())
    stamp = os.path.join(BUILD, "symx.stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return
        sh(["clang++", "-O2", "-std=c++17", "-fno-rtti", os.path.join(ROOT, "engine", "symx.cpp"), "-o", ENGINE + ".new",
            "-I/usr/lib/llvm-18/include", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
        os.rename(ENGINE + ".new", ENGINE)
        open(stamp, "w").write(h.hexdigest())


def prog_sources():
    s = sorted(glob.glob(REPO + "/src/*.c"))
    s += sorted(glob.glob(REPO + "/third-party/CRegion/*.c"))
    s += [REPO + "/third-party/SipHash/siphash.c", REPO + "/third-party/BLAKE2/blake2b.c"]
    return s


def tag(path):
    return os.path.relpath(path, REPO).replace("/", "_")[:-2]


class Workspace:
    def __init__(self, keep=None):
        self.dir = keep or tempfile.mkdtemp(prefix="vf-")
        self.keep = keep is not None
        os.makedirs(self.dir, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self._native = None
        self.inc = ["-I" + REPO + "/src", "-I" + REPO + "/third-party"]

    def close(self):
        self.pool.shutdown(wait=True)
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    # -- bitcode
    def _bc(self, src, out, flags):
        raw = out + ".raw"
        sh(["clang"] + flags + IR_FLAGS + [src, "-o", raw])
        sh(["opt", "-passes=" + OPT, raw, "-o", out])
        os.unlink(raw)
        return out

    def build_prog(self):
        d = self.dir + "/bc"
        os.makedirs(d, exist_ok=True)
        fs = [self.pool.submit(self._bc, s, "%s/%s.bc" % (d, tag(s)), PROG_FLAGS + self.inc) for s in prog_sources()]
        self.prog = [f.result() for f in fs]

    def build_env(self, name):
        return self._bc(ROOT + "/env/" + name + ".c", self.dir + "/" + name + ".bc", ENV_FLAGS + self.inc + ["-I" + ROOT + "/env"])

    def build_harness(self, h, key):
        return self._bc(ROOT + "/h/" + h.file, "%s/h-%s.bc" % (self.dir, key),
                        ENV_FLAGS + self.inc + ["-I" + ROOT + "/env", "-I" + ROOT + "/h"] + ["-D" + x for x in h.defs])

    # -- native objects
    def native_async(self):
        if self._native is None:
            self._native = cf.ThreadPoolExecutor(1).submit(self._build_native)
        return self._native

    def _build_native(self):
        d = self.dir + "/nat"
        os.makedirs(d, exist_ok=True)
        asan = ["-fsanitize=address", "--param", "asan-globals=0", "-g1", "-O0", "-fno-inline", "-fno-pic", "-fno-zero-initialized-in-bss",
                "-fno-builtin", "-fno-common", "-U_FORTIFY_SOURCE", "-w", "-c"]
        pool = cf.ThreadPoolExecutor(NPROC)
        fs = [pool.submit(sh, ["gcc"] + PROG_FLAGS + self.inc + asan + [s, "-o", "%s/%s.o" % (d, tag(s))]) for s in prog_sources()]
        e = ["-O1", "-g1", "-fno-pic", "-fno-builtin", "-c", "-I" + ROOT + "/env"]
        for n in ("posix", "hash", "native"):
            fs.append(pool.submit(sh, ["gcc"] + ENV_FLAGS + self.inc + e + (["-DSX_ENTRY=harness"] if n == "native" else []) + [ROOT + "/env/%s.c" % n, "-o", "%s/env_%s.o" % (d, n)]))
        for f in fs:
            f.result()
        sh(["ld", "-r", "-o", d + "/prog.o"] + ["%s/%s.o" % (d, tag(s)) for s in prog_sources()])
        return d

    def native_link(self, h, key):
        d = self.native_async().result()
        ho = "%s/h-%s.o" % (d, key)
        sh(["gcc"] + ENV_FLAGS + self.inc + ["-O0", "-g1", "-fno-pic", "-fno-builtin", "-c", "-I" + ROOT + "/env", "-I" + ROOT + "/h"] +
           ["-D" + x for x in h.defs] + [ROOT + "/h/" + h.file, "-o", ho])

        def syms(o, defined):
            out = sh(["nm", "--defined-only" if defined else "-u", o])
            return {l.split()[-1] for l in out.splitlines() if l.strip()}
        envo = [d + "/env_posix.o", ho] + ([d + "/env_hash.o"] if h.hash else [])
        envdef = set()
        for o in envo:
            envdef |= syms(o, True)
        pdef, pund = syms(d + "/prog.o", True), syms(d + "/prog.o", False)
        args = ["--redefine-sym", "main=nb_main"]
        for u in sorted(pund):
            if "vx_" + u in envdef:
                args += ["--redefine-sym", "%s=vx_%s" % (u, u)]
        for o in sorted(envdef):
            if o.startswith("ov_") and o[3:] in pdef:
                args += ["--redefine-sym", "%s=%s" % (o[3:], o), "--weaken-symbol", o]
        for s in (".data", ".data.rel", ".data.rel.local"):
            args += ["--rename-section", "%s=nbdata" % s]
        po = "%s/prog-%s.o" % (d, key)
        sh(["objcopy"] + args + [d + "/prog.o", po])
        exe = "%s/replay-%s" % (d, key)
        sh(["gcc", "-fsanitize=address", "-no-pie", "-o", exe, po] + envo + [d + "/env_native.o", "-lm"])
        return exe


def replay(exe, case, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:color=never",
               UBSAN_OPTIONS="halt_on_error=1")
    try:
        r = subprocess.run([exe, case], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % timeout
    out = r.stdout
    if r.returncode == 0:
        return "clean", out
    if r.returncode == 77:
        return "assert", out
    if r.returncode in (78, 79):
        return "diverged", out
    return "memory", out


class H:
    """One harness run."""

    def __init__(self, file, covers=(), defs=(), hash=True, timeout=120, max_instr=60_000_000, what="", bounds="", samples=12,
                 tiers=("quick", "thorough"), max_enum=None, name=None, functions=()):
        self.file, self.covers, self.defs, self.hash = file, list(covers), list(defs), hash
        self.timeout, self.max_instr, self.what, self.bounds = timeout, max_instr, what, bounds
        self.samples, self.tiers, self.max_enum, self.functions = samples, tiers, max_enum, list(functions)
        self.name = name or (file[:-2] + ("-" + "-".join(d.lower().replace("=", "") for d in defs) if defs else ""))


def run_engine(ws, h, key, envs, hbc, seed, known=()):
    out = "%s/out-%s" % (ws.dir, key)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    cmd = [ENGINE]
    for b in ws.prog:
        cmd += ["--prog", b]
    cmd += ["--env", envs["posix"]]
    if h.hash:
        cmd += ["--env", envs["hash"]]
    cmd += ["--env", hbc, "--entry", "harness", "--out", out, "--timeout", str(h.timeout), "--jobs", str(NPROC), "--samples", str(h.samples),
            "--max-instr", str(h.max_instr), "--seed", str(seed)]
    for k in known:
        cmd += ["--known", k]
    if h.max_enum:
        cmd += ["--max-enum", str(h.max_enum)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        log, _ = p.communicate(timeout=h.timeout + 30)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise Broken("engine did not stop for " + h.name)
    except BaseException:
        os.killpg(p.pid, signal.SIGKILL)
        raise
    sf = out + "/stats.json"
    if not os.path.exists(sf):
        raise Broken("engine failed for %s: %s" % (h.name, log[-2000:]))
    st = json.load(open(sf))
    st["log"] = log[-2000:] if not os.environ.get('SYMX_FORKS') else log
    st["dir"] = out
    return st


def known_findings():
    p = ROOT + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def run_property(pid, harnesses, tier, seed, meta, only=None, keep=None, verbose=False):
    t0 = time.time()
    build_engine()
    ws = Workspace(keep)
    rows, viols, errors, samples = [], [], [], []
    known_hit = set()
    kf = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    try:
        ws.build_prog()
        ws.native_async()
        envs = {n: ws.build_env(n) for n in ("posix", "hash")}
        for i, h in enumerate(harnesses):
            if tier not in h.tiers or (only and h.name != only):
                continue
            if tier == "thorough":
                h.timeout = max(h.timeout, 1500)
                h.defs = h.defs + ["THOROUGH=1"]
            else:  # a slow machine gets more time, up to what a check may take
                h.timeout = max(60, min(max(h.timeout, 600), int(830 - (time.time() - t0))))
            key = "%d" % i
            hbc = ws.build_harness(h, key)
            st = run_engine(ws, h, key, envs, hbc, seed, [k["match"] for k in kf if k.get("harness", h.name) == h.name])
            row = {"harness": h.name, "what": h.what, "bounds": h.bounds, "paths": st["paths"], "assumed_away": st["assumed_away"], "forks": st["forks"],
                   "ir_instructions": st["instructions"], "queries": st["queries"], "sat": st["sat"], "unsat": st["unsat"], "unknown": st["unknown"],
                   "solver_s": st["solver_s"], "wall_s": st["wall_s"], "assertions_checked": st["asserts"], "assertions_by_solver": st["asserts_solver"],
                   "covers": st["covers"], "functions_encoded": st["functions"], "replayed": 0}
            rows.append(row)
            if verbose:
                print("%-28s paths %6d  queries %6d  solver %6.2fs  wall %6.2fs %s" % (h.name, st["paths"], st["queries"], st["solver_s"], st["wall_s"], st["error"]))
            exe = None
            for n, v in enumerate(st["violations"]):
                exe = exe or ws.native_link(h, key)
                kind, out = replay(exe, v["file"])
                same = kind in ("assert", "memory", "hang")
                row["replayed"] += 1
                if not same:
                    errors.append("%s: counterexample '%s' did not reproduce natively (%s): %s" % (h.name, v["message"], kind, out[-600:]))
                    continue
                msg = v["message"]
                k = next((k for k in kf if k["match"] in msg and k.get("harness", h.name) == h.name), None)
                if k:
                    known_hit.add(k["what"])
                    continue
                rd = "%s/replays" % ROOT
                os.makedirs(rd, exist_ok=True)
                rp = "%s/%s-%s-%d.txt" % (rd, pid, h.name, n)
                with open(rp, "w") as f:
                    f.write("property %s\nharness %s\ntier %s\n" % (pid, h.name, tier))
                    f.write(open(v["file"]).read())
                    f.write("# native replay (%s):\n" % kind + "".join("# " + l + "\n" for l in out[-3000:].splitlines()))
                viols.append((h.name, msg, rp))
            if viols:
                break
            if st["rc"] == 3 or st["incomplete"] or st["crashed"] or st["unknown"]:
                errors.append("%s: not decided: %s %s" % (h.name, st["error"], st["log"]))
            else:
                miss = [c for c in h.covers if not st["covers"].get(c)]
                if miss:
                    errors.append("%s: vacuous: never reached %s" % (h.name, miss))
            # engine against reality: sampled paths, run natively with the same observations
            cases = sorted(glob.glob(st["dir"] + "/sample-*.txt"))
            if cases:
                exe = exe or ws.native_link(h, key)
                for c, (kind, out) in zip(cases, ws.pool.map(lambda c: replay(exe, c), cases)):
                    row["replayed"] += 1
                    if kind != "clean":
                        errors.append("%s: native run of a sampled path differs (%s): %s" % (h.name, kind, out[-1500:]))
                for c in cases[:2] + cases[-1:]:
                    samples.append({"harness": h.name, "path": [l for l in open(c).read().splitlines() if l.startswith(("sym", "obs"))][:40]})
        if not samples and rows:
            samples.append({"harness": rows[0]["harness"], "note": "no completed path"})
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {
                  "states": sum(r["paths"] + r["assumed_away"] for r in rows),
                  "transitions": sum(r["ir_instructions"] for r in rows),
                  "traces_validated_against_impl": sum(r["replayed"] for r in rows),
                  "samples": samples[:12],
                  "explanation": "states: symbolic end states (paths of the real code's LLVM IR, each standing for all inputs satisfying its path condition); "
                                 "transitions: IR instructions executed symbolically; traces validated: paths re-run natively from solver models with equal observations",
                  "queries": sum(r["queries"] for r in rows), "solver_s": round(sum(r["solver_s"] for r in rows), 3),
                  "assertions_checked": sum(r["assertions_checked"] for r in rows),
                  "assertions_by_solver": sum(r["assertions_by_solver"] for r in rows),
                  "functions_encoded": sorted({f for r in rows for f in r["functions_encoded"]}),
                  "harnesses": rows},
              "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
        if errors:
            ev["coverage"]["errors"] = errors
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (ROOT, pid), "w") as f:
            json.dump(ev, f, indent=1)
    finally:
        ws.close()
    for k in kf:
        if k["what"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for name, msg, rp in viols:
        print("%s: %s" % (name, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if viols:
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    print("%s held: %d paths, %d queries, %.2f s solver, %d native replays, %.1f s" % (
        pid, ev["coverage"]["states"], ev["coverage"]["queries"], ev["coverage"]["solver_s"], ev["coverage"]["traces_validated_against_impl"], ev["wall_s"]))
    return 0
