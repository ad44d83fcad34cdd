#!/usr/bin/env python3
"""Driver: builds one check's harness against /repo's working tree, runs it on
several workers, replays any failure, writes evidence, prints VIOLATION lines.

  python3 run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]
"""
import argparse, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FUB_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks_config import CHECKS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
PY_INC = "/usr/include/python3.12"
MPI = "/usr/lib/x86_64-linux-gnu/openmpi"
DEFS = ["BOOST_ATOMIC_DYN_LINK", "BOOST_CHRONO_DYN_LINK", "BOOST_CONTAINER_DYN_LINK",
        "BOOST_FILESYSTEM_DYN_LINK", "BOOST_LOG_DYN_LINK", "BOOST_PROGRAM_OPTIONS_DYN_LINK",
        "BOOST_REGEX_DYN_LINK", "BOOST_SERIALIZATION_DYN_LINK", "BOOST_THREAD_DYN_LINK",
        "BOOST_ALL_NO_LIB", "FMT_HEADER_ONLY=1", "BOOST_LOG_USE_NATIVE_SYSLOG"]
DEFS = DEFS[:-1]
LIBDIR = "/usr/lib/x86_64-linux-gnu"
LIBS = ["boost_container", "boost_log", "boost_chrono", "boost_filesystem", "boost_regex",
        "boost_thread", "boost_atomic", "boost_program_options", "boost_serialization"]
LINK = ["-L" + LIBDIR] + ["-l" + l for l in LIBS] + \
       ["/usr/lib/libVc.a", "-lpython3.12", "-lgmp", "-lmpfr", "-L" + MPI + "/lib",
        "-Wl,-rpath," + MPI + "/lib", "-lmpi_cxx", "-lmpi", "-lgfortran", "-lquadmath"]
WORKERS = int(os.environ.get("FUB_WORKERS", "8"))


def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)


def make_config():
    """the generated header config.hpp (the build's cmake step), from its template"""
    src = os.path.join(REPO, "include/fub/config.hpp.in")
    text = open(src).read()
    chunk = "8"
    try:
        m = re.search(r"FUB_DEFAULT_CHUNK_SIZE\s+\"?(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
        if m:
            chunk = m.group(1)
    except OSError:
        pass
    vals = {"FUB_WITH_TBB": "", "FUB_WITH_OPENMP": "", "FUB_DEFAULT_CHUNK_SIZE": chunk}

    def rep(m):
        name = m.group(1)
        if name in vals:
            return ("#define %s %s" % (name, vals[name])).rstrip()
        return "/* #undef %s */" % name
    text = re.sub(r"#cmakedefine\s+(\w+)[^\n]*", rep, text)
    d = os.path.join(BUILD, "gen", "fub")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "config.hpp")
    if not os.path.exists(dst) or open(dst).read() != text:
        with open(dst, "w") as f:
            f.write(text)


def flags_for(cfg, sanitize):
    f = ["-std=c++17", cfg.get("opt", "-O1"), "-w", "-fvisibility=hidden"]
    if cfg.get("openmp"):
        f.append("-fopenmp")
    if sanitize:
        f += ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
              "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
    f += ["-D" + d for d in DEFS] + cfg.get("flags", [])
    f += ["-I" + REPO, "-I" + REPO + "/include", "-I" + BUILD + "/gen", "-I" + VERIF + "/lib",
          "-I" + VERIF + "/checks",
          "-isystem", MPI + "/include", "-isystem", MPI + "/include/openmpi",
          "-isystem", "/usr/include/eigen3", "-isystem", PY_INC]
    return f


def file_hash(p, memo={}):
    if p not in memo:
        try:
            memo[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        except OSError:
            memo[p] = None
    return memo[p]


def compile_one(src, flags):
    """compile src (content-hash cached); returns (object, error)"""
    key = hashlib.sha1("\0".join([src] + flags).encode()).hexdigest()[:20]
    base = os.path.join(OBJ, os.path.basename(src) + "-" + key)
    obj, meta = base + ".o", base + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(file_hash(p) == h for p, h in deps.items()):
                return obj, None
        except ValueError:
            pass
    if src.endswith(".f"):
        cmd = ["gfortran", "-O1", "-w", "-c", src, "-o", obj]
        dep = None
    elif src.endswith(".c"):
        dep = base + ".d"
        cmd = ["gcc"] + [f for f in flags if not f.startswith("-std=")] + ["-c", src, "-o", obj, "-MMD", "-MF", dep]
    else:
        dep = base + ".d"
        cmd = ["g++"] + flags + ["-c", src, "-o", obj, "-MMD", "-MF", dep]
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if os.environ.get("FUB_TIMES"):
        print("%6.1fs %s" % (time.time() - t, src), flush=True)
    if r.returncode:
        errs = [l[:400] for l in r.stdout.splitlines() if 'error' in l or 'required from here' in l]
        return None, "\n".join(errs[:12]) or r.stdout[-1500:]
    deps = [src]
    if dep:
        txt = open(dep).read().replace("\\\n", " ")
        deps = [os.path.abspath(x) for x in txt.split(":", 1)[1].split()]
    json.dump({p: file_hash(p) for p in deps}, open(meta, "w"))
    return obj, None


def library_sources():
    """all sources of the two compiled libraries as listed in CMakeLists.txt"""
    try:
        txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    except OSError:
        return []
    out = []
    for m in re.finditer(r"\bsrc/[\w/.]+\.(?:cpp|f|c)\b", txt):
        p = os.path.join(REPO, m.group(0))
        if "/AMReX/" in p or "/SAMRAI/" in p or p in out or not os.path.exists(p):
            continue
        if any(x in p for x in ("CVode", "CompressibleAdvection", "Version.cpp")):
            continue
        out.append(p)
    return out


def build(pid, cfg):
    os.makedirs(OBJ, exist_ok=True)
    make_config()
    san = cfg.get("sanitize", False)
    fl = flags_for(cfg, san)
    srcs = [os.path.join(VERIF, "lib/pbt_main.cpp")]
    srcs += [os.path.join(VERIF, "checks", h) for h in cfg["harness"]]
    for pat in cfg.get("sources", []):
        hit = sorted(glob.glob(os.path.join(REPO, pat)))
        srcs += hit

    def compile_all(srcs):
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda s: compile_one(s, fl), srcs))
        return res
    res = compile_all(srcs)
    bad = [(s, e) for s, (o, e) in zip(srcs, res) if o is None]
    if bad:
        for s, e in bad:
            print("COMPILE ERROR in", s)
            print(e)
        die("check %s does not build against the current tree" % pid)
    exe = os.path.join(BUILD, pid + ".exe")
    link_fl = ["-fopenmp"] if cfg.get("openmp") else []
    if san:
        link_fl += ["-fsanitize=address,undefined"]

    def link(objs):
        return subprocess.run(["g++"] + link_fl + ["-o", exe] + objs + LINK, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True)
    objs = [o for o, _ in res]
    r = link(objs)
    if r.returncode:
        # some symbol lives elsewhere (e.g. code moved between files): link the whole library
        und = sorted(set(re.findall(r"undefined reference to `([^']{1,200})", r.stdout)))[:3]
        print("link fallback: compiling the whole library;", und, flush=True)
        extra = [s for s in library_sources() if s not in srcs]
        res2 = compile_all(extra)
        lib = os.path.join(BUILD, pid + "-all.a")
        if os.path.exists(lib):
            os.unlink(lib)
        ar = subprocess.run(["ar", "rcs", lib] + [o for o, _ in res2 if o], stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)
        r = link(objs + [lib])
        if r.returncode:
            print(r.stdout[-6000:])
            die("check %s does not link against the current tree" % pid)
    return exe


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def env_for(cfg):
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = "165"
    e["OMP_NUM_THREADS"] = cfg.get("omp_threads", "1")
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:max_allocation_size_mb=4000:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:check_initialization_order=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["OMPI_ALLOW_RUN_AS_ROOT"] = "1"
    e["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
    e["OMPI_MCA_btl"] = "self"
    e["OMPI_MCA_plm"] = "isolated"
    e["OMPI_MCA_ess_singleton_isolated"] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def known_for(pid):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return {}
    return {k["key"]: k for k in d.get("findings", []) if k["property"] == pid}


def replay_once(exe, cfg, prop, choices, known, tmp, timeout=300):
    cf = os.path.join(tmp, "choices-%d" % os.getpid())
    with open(cf, "w") as f:
        f.write(" ".join(map(str, choices)))
    cmd = [exe, "--prop", prop, "--choices", cf]
    for k in known:
        cmd += ["--known", k]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", env=env_for(cfg), timeout=timeout, preexec_fn=limits, cwd=tmp)
    except subprocess.TimeoutExpired:
        return True, "timeout"
    return (r.returncode not in (0, 4)), r.stdout[-3000:]


def worker_cmd(exe, seed, w, n, tier, scale, maxs, prop, known, tmp):
    cmd = [exe, "--seed", str(seed), "--worker", str(w), "--workers", str(n), "--tier", tier,
           "--out", "%s/out%d" % (tmp, w), "--hashes", "%s/h%d" % (tmp, w),
           "--crash", "%s/crash%d" % (tmp, w), "--scale", str(scale), "--max-s", str(maxs)]
    if prop:
        cmd += ["--prop", prop]
    for k in known:
        cmd += ["--known", k]
    return cmd


def stream_once(exe, cfg, st, known, tmp):
    """runs one worker's whole stream of cases again: does it fail? (for failures which depend on what ran before,
    e.g. corrupted memory)"""
    w = st["worker"]
    for x in ("out%d" % w, "crash%d" % w):
        if os.path.exists(os.path.join(tmp, x)):
            os.unlink(os.path.join(tmp, x))
    cmd = worker_cmd(exe, st["seed"], w, st["workers"], st["tier"], st["scale"], st["max_s"], st["prop"], known, tmp)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=env_for(cfg), timeout=st["max_s"] + 300, preexec_fn=limits, cwd=tmp)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    crash = os.path.join(tmp, "crash%d" % w)
    if os.path.exists(crash):
        return True, open(crash, errors="replace").read()[-1000:] + r.stdout[-2000:]
    try:
        o = json.load(open(os.path.join(tmp, "out%d" % w)))
    except (OSError, ValueError):
        return False, r.stdout[-2000:]
    return bool(o["failures"]), json.dumps(o["failures"])[:2000]


def shrink_crash(exe, cfg, prop, choices, known, tmp):
    """shrinks a crashing choice sequence by running it in child processes"""
    best = list(choices)
    t0, budget = time.time(), 400

    def bad(ch):
        nonlocal budget
        budget -= 1
        if budget < 0 or time.time() - t0 > 40:
            return False
        return replay_once(exe, cfg, prop, ch, known, tmp, 150)[0]
    if not bad(best):
        return best
    k = max(1, len(best) // 2)
    while k >= 1:
        i = 0
        while i < len(best):
            c = best[:i] + best[i + k:]
            if len(c) < len(best) and bad(c):
                best = c
            else:
                i += k
        k //= 2
    for i in range(len(best)):
        if best[i]:
            for v in (0, 1, best[i] // 2):
                if v < best[i] and bad(best[:i] + [v] + best[i + 1:]):
                    best = best[:i] + [v] + best[i + 1:]
                    break
    return best


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--prop")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    pid = a.id
    cfg = CHECKS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    exe = build(pid, cfg)
    t_build = time.time() - t0
    if a.build_only:
        print("built in %.1fs" % t_build)
        return 0
    known = known_for(pid)
    tmp = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        if a.replay:
            rp = json.load(open(a.replay))
            if rp.get("stream"):
                bad, out = stream_once(exe, cfg, rp["stream"], known, tmp)
            else:
                bad, out = replay_once(exe, cfg, rp["prop"], rp["choices"], known, tmp)
            print(out)
            if bad:
                print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
            return 1 if bad else 0
        return search(pid, cfg, exe, tier, seed, known, tmp, a, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def search(pid, cfg, exe, tier, seed, known, tmp, a, t0, t_build):
    n = cfg.get("workers", WORKERS)
    maxs = cfg.get("max_s", 420) if tier == "quick" else cfg.get("max_s_thorough", 3600)
    procs = []
    for w in range(n):
        cmd = worker_cmd(exe, seed, w, n, tier, a.scale, maxs, a.prop, known, tmp)
        procs.append(subprocess.Popen(cmd, stdout=open("%s/log%d" % (tmp, w), "w"), stderr=subprocess.STDOUT,
                                      env=env_for(cfg), preexec_fn=limits, cwd=tmp))
    failures, evals, discards, props, samples, hits = [], 0, 0, {}, [], {}
    distinct = set()
    truncated = False
    errors = []
    for w, p in enumerate(procs):
        try:
            rc = p.wait(timeout=maxs + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -1
        crash = "%s/crash%d" % (tmp, w)
        log = open("%s/log%d" % (tmp, w), errors="replace").read()
        if os.path.exists(crash):
            lines = open(crash, errors="replace").read().split("\n")
            lines += [""] * 4
            failures.append({"prop": lines[0], "msg": "process died: " + lines[1], "case": lines[3],
                             "choices": [int(x) for x in lines[2].split()], "crash": True, "log": log[-4000:], "worker": w})
        elif rc != 0:
            errors.append("worker %d ended with status %s\n%s" % (w, rc, log[-2000:]))
            continue
        if not os.path.exists("%s/out%d" % (tmp, w)):
            continue
        try:
            o = json.load(open("%s/out%d" % (tmp, w)))
        except ValueError:
            continue
        truncated = truncated or o["truncated"]
        for k, v in o["props"].items():
            q = props.setdefault(k, {"run": 0, "nontrivial": 0, "discarded": 0, "labels": {}, "s": 0.0})
            for f in ("run", "nontrivial", "discarded"):
                q[f] += v[f]
            q["s"] = round(q["s"] + v["s"], 2)
            for l, c in v["labels"].items():
                q["labels"][l] = q["labels"].get(l, 0) + c
            evals += v["run"]
        samples += o["samples"]
        hits.update(o["known"])
        failures += [dict(f, worker=w) for f in o["failures"]]
        raw = open("%s/h%d" % (tmp, w), "rb").read()
        for i in range(0, len(raw), 8):
            distinct.add(raw[i:i + 8])
    # one failure per sub-property, the shortest
    best = {}
    for f in failures:
        if f["prop"] not in best or len(f["choices"]) < len(best[f["prop"]]["choices"]):
            best[f["prop"]] = f
    viol = []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for prop, f in sorted(best.items()):
        if f.get("crash"):
            f["choices"] = shrink_crash(exe, cfg, prop, f["choices"], known, tmp)
        outs = [replay_once(exe, cfg, prop, f["choices"], known, tmp) for _ in range(3)]
        if all(b for b, _ in outs):
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, re.sub(r"\W+", "_", prop)))
            f["replay_output"] = outs[0][1]
            json.dump(dict(f, property=pid, seed=seed), open(path, "w"), indent=1)
            viol.append((prop, f, path))
            continue
        # not a function of this case alone: the worker's stream of cases is the reproduction
        st = {"seed": seed, "worker": f["worker"], "workers": n, "tier": tier, "scale": a.scale, "max_s": maxs, "prop": a.prop}
        outs = [stream_once(exe, cfg, st, known, tmp) for _ in range(2)]
        if all(b for b, _ in outs):
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, re.sub(r"\W+", "_", prop)))
            f["replay_output"] = outs[0][1]
            f["msg"] += " (depends on the cases before it; the replay runs all of them)"
            json.dump(dict(f, property=pid, seed=seed, stream=st), open(path, "w"), indent=1)
            viol.append((prop, f, path))
        else:
            print("note: a failure of %s did not reproduce on replay and is not reported: %s" % (prop, f["msg"]))
            print(f.get("log", "")[-1800:])
            errors.append("unreproduced failure in %s: %s" % (prop, f["msg"]))
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k].get("what", hits[k])))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": cfg["rule"],
                       "samples": samples[:40], "per_subproperty": props, "budget_truncated": truncated},
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    ev["coverage"]["build_s"] = round(t_build, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for prop, f, path in viol:
        print("failing sub-property %s\n  %s\n  case: %s" % (prop, f["msg"], f["case"]))
        if f.get("crash"):
            print(f.get("log", "")[-2500:])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    print("%s %s: %d cases, %d distinct non-trivial, build %.0fs, total %.0fs%s" %
          (pid, tier, evals, len(distinct), t_build, time.time() - t0, ", truncated" if truncated else ""))
    if os.environ.get("FUB_TIMES"):
        for k, v in sorted(props.items()):
            print("  %-46s run %7d nontriv %7d disc %5d cpu %7.1fs %s" % (k, v["run"], v["nontrivial"], v["discarded"], v["s"],
                  json.dumps(v["labels"])))
    if viol:
        return 1
    if errors and evals == 0:
        die("\n".join(errors))
    for e in errors:
        print("warning:", e)
    return 0


if __name__ == "__main__":
    sys.exit(main())
