#!/usr/bin/env python3
"""Run the runtime-monitoring check of one property against /repo's working tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the check itself could not decide (build failure, harness error, time-out).
"""
import argparse, fcntl, hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "meta"))
import checks as CH  # noqa: E402

GCC, CLANG = "/usr/bin/gcc", "clang"
NODEBUG = ["-DBFDEV_DEBUG_%s=OFF" % n for n in "LIST SLIST HLIST ILIST RBTREE HEAP REFCNT MEMALLOC".split()] + ["-DBFDEV_CRC_EXTEND=OFF"]
def switches(on):
    return ["-DBFDEV_DEBUG_%s=%s" % (n, "ON" if n in on else "OFF") for n in "LIST SLIST HLIST ILIST RBTREE HEAP REFCNT MEMALLOC".split()]
VARIANTS = {
    "asan": dict(cc="gcc", flags="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=pointer-overflow"),
    "msan": dict(cc="clang", flags="-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all"),
    "tsan": dict(cc="gcc", flags="-O1 -g -fno-omit-frame-pointer -fsanitize=thread --param=tsan-distinguish-volatile=0 -include " + os.path.join(VERIF, "harness", "tsan_once.h")),
    "plain": dict(cc="gcc", flags="-O2 -g"),
    # the builds whose observations C47 compares
    "gcc-o0": dict(cc="gcc", flags="-O0 -g"),
    "gcc-o3": dict(cc="gcc", flags="-O3 -g -funsigned-char", cmake=NODEBUG),
    "clang-o2": dict(cc="clang", flags="-O2 -g"),
    "gcc-os-mixed": dict(cc="gcc", flags="-Os -g", cmake=switches("LIST HLIST RBTREE REFCNT".split()) + ["-DBFDEV_CRC_EXTEND=OFF"]),
    "clang-o1-mixed": dict(cc="clang", flags="-O1 -g -funsigned-char", cmake=switches("SLIST ILIST HEAP MEMALLOC".split())),
    "nodebug": dict(cc="gcc", flags="-O2 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=pointer-overflow",
                    cmake=NODEBUG),
}
ENV = dict(os.environ,
           ASAN_OPTIONS="exitcode=72:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000:handle_abort=0:detect_stack_use_after_return=1:symbolize=1:max_allocation_size_mb=1024",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=72",
           MSAN_OPTIONS="exitcode=72:allocator_may_return_null=1:symbolize=1",
           TSAN_OPTIONS="exitcode=72:allocator_may_return_null=1:report_thread_leaks=0:halt_on_error=1:second_deadlock_stack=1",
           LANG="C", LC_ALL="C")
for k in ("CFLAGS", "LDFLAGS", "CC"):
    ENV.pop(k, None)


class Inconclusive(Exception):
    pass


def run(cmd, what, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout)
    if r.returncode:
        text = r.stdout.decode(errors="replace")
        bad = [l for l in text.split("\n") if "error" in l or "undefined reference" in l]
        sys.stdout.write("\n".join(bad[:15] or text.split("\n")[-15:]) + "\n")
        raise Inconclusive("%s failed (%d)" % (what, r.returncode))
    return r.stdout


def header_key():
    h = hashlib.sha256()
    for top in ("include", "arch", "src", "scripts"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                h.update(os.path.join(d, f).encode())
                if f.endswith((".cmake", ".txt", ".in")):
                    h.update(open(os.path.join(d, f), "rb").read())
    for f in ("CMakeLists.txt", "build.cmake"):
        h.update(open(os.path.join(REPO, f), "rb").read())
    return h.hexdigest()


def build_lib(variant):
    v = VARIANTS[variant]
    bdir = os.path.join(BUILD, "lib-" + variant)
    key = header_key() + REPO + v["flags"]
    kf = os.path.join(bdir, ".vf-key")
    if not os.path.exists(kf) or open(kf).read() != key:
        if os.path.isdir(bdir):
            subprocess.run(["rm", "-rf", bdir], check=True)
        os.makedirs(bdir, exist_ok=True)
        cc = GCC if v["cc"] == "gcc" else CLANG
        run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_BUILD_TYPE=None",
             "-DBFDEV_STRICT=OFF", "-DBFDEV_EXAMPLES=OFF", "-DBFDEV_TESTSUITE=OFF",
             "-DCMAKE_C_FLAGS=" + v["flags"]] + v.get("cmake", []), "cmake (%s)" % variant)
        open(kf, "w").write(key)
    # twice: the CRC tables are undeclared outputs of the generators
    for _ in range(2):
        run(["ninja", "-C", bdir, "bfdev_static"], "library build (%s)" % variant)
    return bdir


COPIES = 4


def build_module(harness, variant, bdir):
    """A harness as a loadable module, in several copies (one per thread that runs it)."""
    v = VARIANTS[variant]
    out = os.path.join(BUILD, "mod-%s-%s" % (harness, variant))
    cc = GCC if v["cc"] == "gcc" else CLANG
    run([cc, "-std=gnu11", "-w", "-fPIC", "-shared", "-fvisibility=hidden", "-DVF_MODULE"] + v["flags"].split() + [
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(bdir, "generated"),
        "-I" + os.path.join(REPO, "arch/generic/include"), "-I" + os.path.join(VERIF, "harness"), "-I" + REPO,
        "-o", out + ".0.so", os.path.join(VERIF, "harness", harness + ".c"), "-lpthread", "-lm"], "module build (%s)" % harness)
    for k in range(1, COPIES):
        shutil.copyfile(out + ".0.so", out + ".%d.so" % k)


def build_harness(harness, variant, bdir, extra, modules=()):
    v = VARIANTS[variant]
    exe = os.path.join(BUILD, "%s-%s" % (harness, variant))
    src = os.path.join(VERIF, "harness", harness + ".c")
    cc = GCC if v["cc"] == "gcc" else CLANG
    cmd = [cc, "-std=gnu11", "-w"] + ([] if cc == GCC else ["-Wno-error=incompatible-function-pointer-types"]) + v["flags"].split() + [
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(bdir, "generated"),
        "-I" + os.path.join(REPO, "arch/generic/include"), "-I" + os.path.join(VERIF, "harness"),
        "-I" + REPO] + extra + ["-o", exe, src, "-Wl,--whole-archive", os.path.join(bdir, "libbfdev.a"), "-Wl,--no-whole-archive", "-lpthread", "-lm"]
    if modules:
        cmd += ["-rdynamic", "-ldl", '-DMODULES="%s"' % " ".join(modules), '-DMODPATH="%s/mod-%%s-%s.%%d.so"' % (BUILD, variant), "-DCOPIES=%d" % COPIES]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda m: build_module(m, variant, bdir), modules))
    run(cmd, "harness build (%s, %s)" % (harness, variant))
    return exe


class Finding:
    def __init__(self, key, case, detail, exe, harness, variant, seed, deep):
        self.__dict__.update(locals())


def frames(text):
    out = []
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ (?:in )?(\S+) ([^\n]*)", text):
        fn, loc = m.group(1), m.group(2)
        if fn.startswith("__interceptor") or "libsanitizer" in loc or "compiler-rt" in loc:
            continue
        if "/src/" in loc or "/include/" in loc or "/harness/" in loc:
            out.append(fn)
    for m in re.finditer(r"#\d+ (\S+) (/\S+)", text):   # tsan style
        if "/src/" in m.group(2) or "/include/" in m.group(2) or "/harness/" in m.group(2):
            out.append(m.group(1))
    return out


def classify(rc, err):
    """-> (key suffix or full key, detail) for a dead worker."""
    m = re.findall(r"VF-FAIL key=(\S+) case=(-?\d+) msg=(.*)", err)
    if m:
        return m[-1][0], m[-1][2]
    if "VF-HARNESS-ERROR" in err:
        raise Inconclusive("harness error: " + err[err.index("VF-HARNESS-ERROR"):][:300])
    m = re.search(r"(?:ERROR|WARNING): (\w+Sanitizer): ([\w-]+(?: race)?)", err)
    fr = frames(err[m.start():] if m else err)
    top = fr[0] if fr else "?"
    if m:
        return "%s-%s@%s" % (m.group(1).replace("Sanitizer", "San"), m.group(2).replace(" ", "-"), top), err[m.start():][:1500]
    m = re.search(r"(\S+:\d+):\d+: runtime error: ([^\n]*)", err)
    if m:
        return "UBSan@%s" % top, "%s %s" % (m.group(1), m.group(2))
    if "hard rss limit" in err:
        return "memory-runaway", err[-600:]
    if rc == -6 or rc == 134:
        return "library-abort", err[-600:]
    if rc < 0 or rc > 128:
        return "signal-%d" % (-rc if rc < 0 else rc - 128), err[-600:]
    return "exit-%d" % rc, err[-600:]


def run_case(exe, seed, deep, case, trace=False, cpu=60):
    cmd = [exe, "--seed", str(seed), "--deep", str(deep), "--from", str(case), "--to", str(case + 1), "--cpu", str(cpu)]
    if trace:
        cmd.append("--trace")
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, timeout=300)
        return 71 if r.returncode == -24 else r.returncode, r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return None, ""


def worker(job):
    exe, harness, variant, seed, deep, w, nw, total, known, scn_of, outdir, deadline, digest, cpu = job
    tag = os.path.join(outdir, "%s-%s-%d" % (harness, variant, w))
    prog, stats = tag + ".prog", tag + ".stats"
    for f in (prog, stats):
        if os.path.exists(f):
            os.unlink(f)
    finds, texts, cur, fresh, restarts, hangs = [], [], w, 0, 0, 0
    while cur < total:
        left = deadline - time.time()
        if left <= 0:
            raise Inconclusive("wall-clock budget used up in %s at case %d of %d" % (harness, cur, total))
        cmd = [exe, "--seed", str(seed), "--deep", str(deep), "--from", str(cur), "--to", str(total),
               "--step", str(nw), "--progress", prog, "--stats", stats, "--cpu", str(cpu)] + (["--digest", digest] if digest else [])
        errf = tag + ".err"
        with open(errf, "wb") as ef:
            try:
                rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, timeout=left).returncode
            except subprocess.TimeoutExpired:
                raise Inconclusive("wall-clock budget used up in %s" % harness)
        rc = 71 if rc == -24 else rc       # ended by the kernel's CPU limit
        if os.path.exists(stats):
            texts.append(open(stats).read())
            os.unlink(stats)
        if rc == 0:
            break
        with open(errf, "rb") as ef:
            ef.seek(0, 2)
            n = ef.tell()
            ef.seek(max(0, n - 200000))
            err = ef.read().decode(errors="replace")
        case = struct.unpack("q", open(prog, "rb").read(8))[0] if os.path.exists(prog) else -1
        if case < 0:
            raise Inconclusive("%s died before its first case (%d): %s" % (harness, rc, err[-500:]))
        if rc == -9:
            restarts += 1
            if restarts > 2:
                raise Inconclusive("%s was killed repeatedly (memory pressure?)" % harness)
            cur = case
            continue
        if rc == 71 and not digest and known("hang") and known(scn_of(case) + ":hang"):      # some other property's business
            finds.append(Finding(scn_of(case) + ":hang", case, "no end", exe, harness, variant, seed, deep))
            hangs += 1
            if hangs >= 3:
                break
            cur = case + nw
            continue
        if rc == 71:        # CPU watchdog: decide only after a second, longer look
            rc2, err2 = run_case(exe, seed, deep, case, cpu=max(90, cpu))
            if rc2 is None:
                raise Inconclusive("time-out while re-running case %d of %s" % (case, harness))
            if rc2 == 0:
                cur = case + nw
                continue
            rc, err = rc2, err2 if rc2 != 71 else err
            key, detail = (scn_of(case) + ":hang", "no end within 90 s of CPU time") if rc2 == 71 else classify(rc2, err2)
        else:
            key, detail = classify(rc, err)
        if ":" not in key:
            key = scn_of(case) + ":" + key
        finds.append(Finding(key, case, detail, exe, harness, variant, seed, deep))
        if not known(key):
            fresh += 1
            if fresh >= 3:
                break
        if len(finds) > 400:
            break
        cur = case + nw
    counts = []
    if os.path.exists(prog):
        with open(prog, "rb") as f:
            d = f.read(4096)
        counts = list(struct.unpack("%dq" % (len(d) // 8), d))[1:]
    return finds, texts, counts


def load_known(prop):
    """known_findings.txt: '<property> <key regex> | <what fails>' per line; 'fixed:' lines suppress nothing."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            head, _, what = line.partition("|")
            p, _, rx = head.strip().partition(" ")
            if p == prop:
                out.append((re.compile(rx.strip() + r"\Z"), what.strip()))
    return out


def compare_builds(digests, finds, seed, deep, skip):
    """Per case: every build has to observe the same, or to fail at the same oracle."""
    out, compared = [], 0
    died = {}
    for f in finds:
        died[f.harness, f.variant, f.case] = f.key
    for harness, vs in digests.items():
        data = {}
        for v, (path, total, exe, scn_of) in vs.items():
            d = open(path, "rb").read()
            data[v] = struct.unpack("%dQ" % (len(d) // 8), d)
        for c in range(min(len(d) for d in data.values())):
            got = {v: died.get((harness, v, c)) or data[v][c] for v in data}
            if 0 in got.values() or (harness, vs[next(iter(vs))][3](c)) in skip:       # a build given up early; results that follow addresses
                continue
            compared += 1
            if len(set(got.values())) > 1:
                common = max(set(got.values()), key=list(got.values()).count)
                v = [v for v in got if got[v] != common][0]
                _, _, exe, scn_of = vs[v]
                out.append(Finding("%s:%s-build-differs" % (scn_of(c), v), c, "observed %s" % ", ".join("%s=%s" % (k, "%x" % x if isinstance(x, int) else x) for k, x in got.items()), exe, harness, v, seed, deep))
    return out, compared


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CH.CHECKS[prop]
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 7200)
    os.makedirs(BUILD, exist_ok=True)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    outdir = os.path.join(BUILD, "run-" + prop)
    os.makedirs(outdir, exist_ok=True)
    kn = load_known(prop)
    only = re.compile(spec.get("only", ""))     # failures of another kind belong to another property's check
    known = lambda key: not only.match(key) or any(rx.match(key) for rx, _ in kn)  # noqa: E731

    finds, ev, scen, samples, builds = [], {}, {}, [], []
    tot = dict(cases=0, obs=0, checks=0)
    sigs = set()
    deep = 1 if tier == "thorough" else 0
    other = {}
    runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    exes, compare, digests, per_case = [], spec.get("compare"), {}, 0
    if compare:
        known = lambda key: True  # noqa: E731  what fails alike in every build is another property's business
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        libs = {}
        for r in runs:
            if r["variant"] not in libs:
                libs[r["variant"]] = build_lib(r["variant"])
        with ThreadPoolExecutor(8) as ex:
            exes = list(ex.map(lambda r: build_harness(r["harness"], r["variant"], libs[r["variant"]], r.get("flags", []), r.get("modules", ())), runs))
    for r, exe in zip(runs, exes):
        total = int((r["thorough"] if tier == "thorough" else r["quick"]) * a.scale)
        lst = [l.split() for l in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, env=ENV, check=True).stdout.decode().split("\n") if l]
        tw = sum(int(w) for _, w in lst)
        ring = [n for n, w in lst for _ in range(int(w))]
        total = max(total, tw)
        nw = min(r.get("jobs", a.jobs), total)
        scn_of = lambda c, ring=ring, tw=tw: ring[c % tw]  # noqa: E731
        digest = None
        if compare:
            digest = os.path.join(outdir, "%s-%s.digest" % (r["harness"], r["variant"]))
            if os.path.exists(digest):
                os.unlink(digest)
            digests.setdefault(r["harness"], {})[r["variant"]] = (digest, total, exe, scn_of)
        mine = known if "only" not in r else lambda key, rx=re.compile(r["only"]): not rx.match(key) or known(key)
        jobs = [(exe, r["harness"], r["variant"], seed, deep, w, nw, total, mine, scn_of, outdir, deadline, digest, r.get("cpu", 20)) for w in range(nw)]
        with ThreadPoolExecutor(nw) as ex:
            res = list(ex.map(worker, jobs))
        pre = "" if len(runs) == 1 else r["harness"] + "/" + r["variant"] + "/"
        for fs, texts, counts in res:
            if "only" in r:
                for f in fs:
                    if not re.match(r["only"], f.key):
                        other[f.key] = other.get(f.key, 0) + 1
                fs = [f for f in fs if re.match(r["only"], f.key)]
            finds += fs
            for (n, _), c in zip(lst, counts):
                scen[pre + n] = scen.get(pre + n, 0) + c
            for t in texts:
                for line in t.split("\n"):
                    p = line.split()
                    if not p:
                        continue
                    if p[0] == "s":
                        sigs.add((r["harness"], r["variant"], p[1]))
                    elif p[0] == "ev":
                        ev[p[1]] = ev.get(p[1], 0) + int(p[2])
                    else:
                        tot[p[0]] += int(p[1])
        builds.append("%s on %s build (%s): %d cases" % (r["harness"], r["variant"], VARIANTS[r["variant"]]["flags"], total))
        if len(samples) < 6:
            for n, _ in lst[:3]:
                c = ring.index(n) + tw
                rc, err = run_case(exe, seed, deep, c, trace=True)
                ops = [l[3:] for l in err.split("\n") if l.startswith("OP ")]
                samples.append({"harness": r["harness"], "variant": r["variant"], "scenario": n, "case": c, "exit": rc, "ops": ops[:25], "ops_total": len(ops)})

    if compare:
        finds, per_case = compare_builds(digests, finds, seed, deep, compare)
        tot["checks"] += per_case
    fresh, hit = {}, {}
    for f in finds:
        if not only.match(f.key):
            other[f.key] = other.get(f.key, 0) + 1
            continue
        for rx, what in kn:
            if rx.match(f.key):
                hit.setdefault((rx.pattern, what), f)
                break
        else:
            fresh.setdefault(f.key, f)
    for (_, what) in [(rx.pattern, w) for rx, w in kn]:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for f in fresh.values():
        _, err = run_case(f.exe, f.seed, f.deep, f.case, trace=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", f.key)[:80]))
        json.dump(dict(property=prop, key=f.key, case=f.case, seed=f.seed, tier=tier, harness=f.harness, variant=f.variant, detail=f.detail,
                       command="%s --seed %d --deep %d --from %d --to %d --trace" % (f.exe, f.seed, f.deep, f.case, f.case + 1),
                       witness=err[-12000:]), open(path, "w"), indent=1)
        print("%s case=%d %s" % (f.key, f.case, f.detail[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not fresh:
        if tot["cases"] == 0 or len(sigs) < 2 or any(v == 0 for v in scen.values()):
            raise Inconclusive("monitors observed too little: %r %r" % (tot, scen))
        for e in spec.get("must_see", []):
            if not ev.get(e):
                raise Inconclusive("event %s was never observed" % e)
    json.dump(dict(
        property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
        coverage=dict(
            evaluations=tot["cases"], distinct_nontrivial=len(sigs),
            rule=spec["rule"] + " A case is counted as distinct and non-trivial when the hash of everything its oracle observed differs from all other cases and it made at least two observations.",
            samples=samples[:6], observations=tot["obs"], oracle_checks=tot["checks"], **({"cases_ended_by_other_properties": other} if other else {}), events=dict(sorted(ev.items())), cases_per_scenario=scen, builds=builds),
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh)),
        open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct, %d oracle checks, %.1fs, %s" % (prop, tier, tot["cases"], len(sigs), tot["checks"], time.time() - t0, "VIOLATED" if fresh else "held"))
    return 1 if fresh else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Inconclusive as e:
        print("INCONCLUSIVE: %s" % e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("INCONCLUSIVE: %s" % e)
        sys.exit(2)
