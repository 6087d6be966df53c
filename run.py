#!/usr/bin/env python3
"""Builds /repo's current tree, runs one property check and writes its evidence.

usage: run.py ID [--tier quick|thorough] [--seed N] [--cases N] [--time-limit S] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken.  Anything else: the check could not run.
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"

# variant -> (cmake options, compiler flags, libraries)
VARIANTS = {
    "plain": (["-DLIBCMAES_ENABLE_SURROG=OFF"], "-O1 -g0", ""),
    "surrog": (["-DLIBCMAES_ENABLE_SURROG=ON"], "-O1 -g0", ""),
    "asan": (["-DLIBCMAES_ENABLE_SURROG=OFF"], "-O1 -g1 -ftrivial-auto-var-init=pattern " + SAN, ""),
    "python": (["-DLIBCMAES_ENABLE_SURROG=ON", "-DLIBCMAES_BUILD_PYTHON=ON",
                "-DPYTHON_EXECUTABLE=/usr/bin/python3", "-DPYTHON_SITE_PACKAGES=lib/python3/dist-packages"],
               "-O1 -g0", ""),
}
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dn, fn in os.walk(root):
                dn.sort()
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def die(msg):
    print(msg)
    sys.exit(2)


def build(pid, spec):
    """Library from /repo's working tree plus this check's harness; returns the path of the harness."""
    variant = spec.get("variant", "plain")
    opts, flags, libs = VARIANTS[variant]
    bdir = os.path.join(BUILD, variant)
    src = [os.path.join(REPO, d) for d in ("src", "include", "CMakeLists.txt", "python", "cmake") if os.path.exists(os.path.join(REPO, d))]
    key = tree_hash(src) + flags + " ".join(opts) + REPO
    stamp = os.path.join(bdir, "stamp")
    have = os.path.exists(stamp) and open(stamp).read() == key
    # A different source tree is always built from nothing: file times are not trusted.
    if not have:
        shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(os.path.join(bdir, "lib"), exist_ok=True)
    if not have:
        env = dict(os.environ, CC="gcc", CXX="g++")
        r = sh(["cmake", "-S", REPO, "-B", os.path.join(bdir, "lib"), "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                "-DCMAKE_CXX_FLAGS=" + flags, "-DLIBCMAES_BUILD_SHARED_LIBS=OFF", "-DCMAKE_POSITION_INDEPENDENT_CODE=ON",
                "-DLIBCMAES_BUILD_TESTS=OFF", "-DLIBCMAES_BUILD_EXAMPLES=OFF", "-DLIBCMAES_USE_OPENMP=ON",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-Wno-dev"] + opts, env=env)
        if r.returncode:
            die("cmake failed:\n" + r.stdout[-4000:])
    procs = []
    if not have:
        procs.append(subprocess.Popen(["ninja", "-C", os.path.join(bdir, "lib")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    exe = None
    units = [u for u in spec.get("sources", [])]
    objs = []
    for u in units:
        s = os.path.join(HERE, "harness", u)
        obj = os.path.join(bdir, u + ".o")
        objs.append(obj)
        deps = [s] + [os.path.join(HERE, "harness", f) for f in sorted(os.listdir(os.path.join(HERE, "harness"))) if f.endswith(".hpp")]
        okey = tree_hash(deps)
        ostamp = obj + ".stamp"
        if os.path.exists(ostamp) and open(ostamp).read() == okey and os.path.exists(obj):
            continue
        cmd = ["g++", "-std=c++17", "-c", "-fopenmp", "-I" + os.path.join(REPO, "include"),
               "-I" + os.path.join(bdir, "lib", "include"), "-I/usr/include/eigen3", "-DVERIF_REPO_DIR=\"%s\"" % REPO,
               s, "-o", obj] + flags.split() + spec.get("cflags", [])
        if variant in ("surrog", "python"):
            cmd += ["-DHAVE_SURROG"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p.okey = (ostamp, okey)
        procs.append(p)
    for p in procs:
        out = p.communicate()[0]
        if p.returncode:
            die("build failed:\n" + out[-6000:])
        if hasattr(p, "okey"):
            with open(p.okey[0], "w") as f:
                f.write(p.okey[1])
    if not have:
        with open(stamp, "w") as f:
            f.write(key)
    if units:
        lib = os.path.join(bdir, "lib", "src", "libcmaes.a")
        exe = os.path.join(bdir, pid)
        r = sh(["g++", "-fopenmp", "-o", exe] + objs + [lib] + flags.split() + spec.get("ldflags", []))
        if r.returncode:
            die("link failed:\n" + r.stdout[-6000:])
    return bdir, exe


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--time-limit", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    spec = CHECKS[a.id]
    t0 = time.time()
    bdir, exe = build(a.id, spec)
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    env = dict(os.environ)
    env.setdefault("OMP_WAIT_POLICY", "passive")
    env["OMP_NUM_THREADS"] = "2"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"
    env["VERIF_BDIR"] = bdir
    env["VERIF_TMP"] = tmp
    env["VERIF_EXE"] = exe or ""
    if "script" in spec:
        cmd = [spec.get("python", "/opt/veriftools/pyvenv/bin/python"), os.path.join(HERE, "harness", spec["script"])]
    else:
        cmd = [exe]
    try:
        if a.replay:
            r = subprocess.run(cmd + ["--tmp", tmp, "--replay", a.replay], env=env)
            if r.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
            sys.exit(r.returncode)
        # a thorough run is bounded by time, a quick run by its number of cases (the time limit is a safety net).
        tl = a.time_limit or (float(os.environ.get("VERIF_THOROUGH_S", "900")) if a.tier == "thorough" else 300.0)
        cmd += ["--seed", str(a.seed), "--tier", a.tier, "--workers", str(a.workers), "--tmp", tmp, "--time-limit", str(tl)]
        if a.cases:
            cmd += ["--cases", str(a.cases)]
        t1 = time.time()
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tr = time.time() - t1
        if r.returncode != 0:
            die("harness ended with %d:\n%s" % (r.returncode, r.stdout[-4000:]))
        ev = disc = 0
        digests, labels, samples, fails, flaky = set(), {}, [], [], []
        for f in sorted(os.listdir(tmp)):
            p = os.path.join(tmp, f)
            if f.startswith("worker."):
                lines = open(p).read().split("\n")
                x = lines[0].split()
                ev += int(x[0]); disc += int(x[1])
                for l in lines[1:]:
                    if l[:2] == "D ": digests.add(l[2:])
                    elif l[:2] == "L ":
                        n, lab = l[2:].split(" ", 1)
                        labels[lab] = labels.get(lab, 0) + int(n)
                    elif l[:2] == "S ": samples.append(l[2:])
            elif f.startswith("fail.") and f.endswith(".flaky"): flaky.append(p)
            elif f.startswith("fail."): fails.append(p)
        rule = open(os.path.join(tmp, "rule")).read() if os.path.exists(os.path.join(tmp, "rule")) else ""
        known = []
        kf = os.path.join(tmp, "known")
        if os.path.exists(kf):
            known = [l for l in open(kf).read().split("\n") if l]
        for l in sorted(set(known)):
            print("KNOWN-FINDING: property=%s %s" % (a.id, l))
        rd = os.path.join(HERE, "replay")
        viol = []
        fails.sort(key=lambda p: os.path.getsize(p))
        for i, p in enumerate(fails):
            os.makedirs(rd, exist_ok=True)
            dst = os.path.join(rd, "%s-%d.replay" % (a.id, i))
            shutil.copy(p, dst)
            viol.append(dst)
        for p in flaky:
            os.makedirs(rd, exist_ok=True)
            shutil.copy(p, os.path.join(rd, "%s.flaky" % a.id))
        evidence = {
            "property": a.id, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": a.seed, "level": "exploration",
            "coverage": {"evaluations": ev, "distinct_nontrivial": len(digests), "rule": rule.strip(),
                         "samples": samples[:6], "discarded": disc, "case_classes": labels,
                         "not_reproducible": len(flaky)},
            "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": len(viol),
            "assumptions": spec.get("assumptions", []),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print("%s: %d cases, %d distinct non-trivial, %d discarded, build %.1fs, run %.1fs" % (a.id, ev, len(digests), disc, tb, tr))
        for v in viol[:3]:
            txt = open(v).read().split("\n")
            print("\n".join("  " + l[:1500] for l in txt if l.startswith("key") or l.startswith("#")))
        if viol:
            for v in viol:
                print("VIOLATION property=%s replay=%s" % (a.id, v))
            sys.exit(1)
        if ev == 0:
            die("no case was run")
        sys.exit(0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
