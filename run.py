#!/usr/bin/env python3
"""Runtime-verification driver.

  run.py <PROP> [quick|thorough]    run one property's check
  run.py replay <file>              re-run one recorded case verbosely
  run.py list                       list properties and shards

Exit 0: property held on everything explored (listed known findings aside).
Exit 1: VIOLATION line printed.  Exit 2: the check could not decide (build error,
killed by the environment, ...).
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import shards as SH

PLAT = {"seq": "sequential", "opt": "optimized_sequential"}
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

SAN = {
    # name: (compiler, flags)
    "asan": ("clang++", "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"),
    "gasan": ("g++", "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"),
    "tsan": ("clang++", "-O1 -g1 -fsanitize=thread"),
    "plain": ("g++", "-O2 -D_GLIBCXX_ASSERTIONS"),
    "vg": ("g++", "-O1 -g"),
}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:detect_stack_use_after_return=1:hard_rss_limit_mb=3500:print_suppressions=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
ENV["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=98:second_deadlock_stack=1"
ENV["LC_ALL"] = "C"


class BuildError(Exception):
    pass


def base_cmd(sh):
    comp, flags = SAN[sh.san]
    cmd = [comp, "-std=c++17", "-w"] + flags.split()
    cmd += ["-I%s/src" % REPO, "-I%s/src/graphblas/platforms/%s" % (REPO, PLAT[sh.plat]), "-I%s/harness" % HERE]
    cmd += ["-D%s=%s" % kv for kv in sorted(sh.defs.items())]
    cmd += ["-D" + ("VH_SEQ" if sh.plat == "seq" else "VH_OPT")]
    return cmd


def binkey(sh):
    return "_".join([sh.src, sh.plat, sh.san] + ["%s%s" % kv for kv in sorted(sh.defs.items())]).replace("/", "-")


def units(sh, bdir):
    """Translation units of a shard: (object path, command).  The library's headers define non-inline
    functions, so multi-unit binaries are linked with -z muldefs (all definitions are identical)."""
    out = []
    for src, defs in [(sh.src, {})] + [(s, d) for s, d in sh.objs]:
        base = dict(sh.defs)
        if src != sh.src: base = {k: v for k, v in base.items() if k == "PROFILE"}
        o = os.path.join(bdir, "_".join([src, sh.plat, sh.san] + ["%s%s" % kv for kv in sorted({**base, **defs}.items())]) + ".o")
        out.append((o, base_cmd(sh) + ["-D%s=%s" % kv for kv in sorted(defs.items())] + ["-c", os.path.join(HERE, "harness", src + ".cpp"), "-o", o]))
    return out


def compile_unit(o, cmd, log):
    t = time.time()
    for attempt in (0, 1):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0 or "error:" in r.stdout:      # a real diagnostic: no point in retrying
            break
    log("build %s %.1fs rc=%d" % (os.path.basename(o), time.time() - t, r.returncode))
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (os.path.basename(o), r.stdout[-3000:]))


def link(sh, bdir, objs):
    out = os.path.join(bdir, binkey(sh))
    comp, flags = SAN[sh.san]
    cmd = [comp] + flags.split() + objs + ["-o", out, "-pthread"] + (["-Wl,-z,muldefs"] if len(objs) > 1 else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0: raise BuildError("link %s\n%s" % (binkey(sh), r.stdout[-3000:]))
    return out


def build_all(shards_, wdir, ex, log):
    """Submit every unit, then every link; returns binkey -> future of the binary path."""
    futs, plan = {}, {}
    for s in shards_:
        if binkey(s) in plan: continue
        plan[binkey(s)] = (s, units(s, wdir))
    # expensive units first
    every = {o: cmd for _, us in plan.values() for o, cmd in us}
    cost = lambda o: -SH.COST.get(os.path.basename(o).split("_")[0] + ("" if "GROUP" not in o else "G" + o.split("GROUP")[1][0]), 10)
    for o in sorted(every, key=cost):
        futs[o] = ex.submit(compile_unit, o, every[o], log)
    def do_link(s, us):
        for o, _ in us: futs[o].result()
        return link(s, wdir, [o for o, _ in us])
    return {k: ex.submit(do_link, s, us) for k, (s, us) in plan.items()}


def exec_once(sh, binary, seed, frm, count, outf, verbose=False, extra_env=None):
    env = dict(ENV)
    if sh.leaks:
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    if extra_env:
        env.update(extra_env)
    cmd = [binary, "--shard", sh.name(), "--seed", str(seed), "--from", str(frm), "--count", str(count), "--out", outf]
    if verbose:
        cmd += ["--verbose", "1"]
    if sh.san == "vg":
        cmd = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--leak-check=no", "--track-origins=no"] + cmd
    errf = outf + ".err"
    with open(errf, "wb") as e:
        try:
            r = subprocess.run(cmd, stdout=e, stderr=e, env=env, timeout=sh.wall)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 97
    err = open(errf, "rb").read()[-200000:].decode("utf8", "replace")
    return rc, err


def read_state(outf):
    try:
        b = open(outf + ".state", "rb").read(1024)
        case = b[:60].split(b"\0")[0].decode() or "0"
        lab = b[64:].split(b"\0")[0].decode("utf8", "replace")
        return int(case), lab
    except Exception:
        return None, "?"


def classify(rc, err):
    """-> (kind, where) for an abnormal end; kind None when it is the environment's fault."""
    if rc in (-9, 137):
        return None, "killed"
    if "hard rss limit exhausted" in err:
        return "unbounded-memory", ""
    if rc == 97:
        return "hang", ""
    if "LeakSanitizer has encountered a fatal error" in err:
        return None, "lsan unavailable"
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w\-]+)", err)
    if m: kind = "asan:" + m.group(1)
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if not kind and m2: kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m2.group(1))[:80]
    m3 = re.search(r"ERROR: LeakSanitizer: ([^\n]*)", err)
    if not kind and m3: kind = "lsan:leak"
    m4 = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if not kind and m4: kind = "tsan:" + m4.group(1).strip()
    m5 = re.search(r"==\d+== (Conditional jump[^\n]*|Use of uninit[^\n]*|Invalid (?:read|write)[^\n]*|Syscall param[^\n]*)", err)
    if not kind and m5: kind = "memcheck:" + m5.group(1).strip()
    m6 = re.search(r"Assertion '([^']*)' failed", err)
    if not kind and m6: kind = "glibcxx-assert:" + m6.group(1)[:60]
    if not kind:
        kind = "crash:rc%d" % rc
    where = ""
    for fn in re.finditer(r"(?:in|by|at [^:]*:) ([^\n]*?) (/[^\s:]*/src/(?:graphblas|algorithms)/[^\s:]+):\d+", err):
        where = os.path.basename(fn.group(2))
        break
    if not where:
        m = re.search(r"/src/((?:graphblas|algorithms)/[^\s:]+):\d+", err)
        if m: where = os.path.basename(m.group(1))
    return kind, where


class Result:
    def __init__(self):
        self.evaluations = self.observations = self.nontrivial = 0
        self.distinct = set(); self.counters = {}; self.samples = []
        self.viols = []          # dict(sig, shard, case, detail)
        self.inconclusive = []

    def absorb(self, sh, d):
        self.evaluations += d["evaluations"]; self.observations += d["observations"]; self.nontrivial += d["nontrivial"]
        self.distinct.update(binkey(sh) + h for h in d["distinct"])
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples += ["[%s] %s" % (sh.name(), s) for s in d["samples"][:1]]
        for v in d["violations"]:
            self.viols.append(dict(sig=v["sig"], shard=sh, case=v["case"], detail=v["detail"], n=v["n"]))


def run_chunk(sh, binary, seed, frm, count, wdir, lock, res, log):
    end = frm + count
    crashes = 0
    noleak = {}
    while frm < end:
        outf = os.path.join(wdir, "r_%s_%d" % (re.sub(r"\W", "_", sh.name()), frm))
        t = time.time()
        rc, err = exec_once(sh, binary, seed, frm, end - frm, outf, extra_env=noleak)
        log("run %s from=%d rc=%d %.1fs" % (sh.name(), frm, rc, time.time() - t))
        done = None
        if os.path.exists(outf):
            try: done = json.load(open(outf))
            except Exception: done = None
        if done is not None:
            with lock: res.absorb(sh, done)
        if rc == 0 and done is not None:
            return
        kind, where = classify(rc, err)
        case, lab = read_state(outf)
        if kind is None:
            if where.startswith("lsan") and not noleak:
                noleak = {"ASAN_OPTIONS": ENV["ASAN_OPTIONS"]}
                if done is not None:       # everything ran; only the leak pass failed
                    with lock: res.inconclusive.append("leak pass unavailable in " + sh.name())
                    return
                continue
            rc2, err2 = exec_once(sh, binary, seed, frm, end - frm, outf, extra_env=noleak)
            if rc2 == 0 and os.path.exists(outf):
                with lock: res.absorb(sh, json.load(open(outf)))
                return
            with lock: res.inconclusive.append("%s from %d: %s" % (sh.name(), frm, where))
            return
        if kind == "hang":
            # a hang must repeat on the single case before it counts
            c = case if case is not None else frm
            o2 = outf + ".hang"
            rc2, err2 = exec_once(sh, binary, seed, c, 1, o2, extra_env=noleak)
            if rc2 == 0:
                with lock: res.inconclusive.append("%s case %s exceeded its CPU budget once, not again" % (sh.name(), c))
                try:
                    with lock: res.absorb(sh, json.load(open(o2)))
                except Exception: pass
                frm = c + 1
                continue
        if done is not None and kind in ("lsan:leak",) or (done is not None and kind.startswith("tsan")):
            with lock: res.viols.append(dict(sig="%s|%s" % (kind, where), shard=sh, case=frm, detail=err[-6000:], n=1, span=count))
            return
        sig = "%s|%s|%s" % (kind, where, lab)
        with lock: res.viols.append(dict(sig=sig, shard=sh, case=case if case is not None else frm, detail=err[:6000], n=1))
        crashes += 1
        if crashes >= 4 or case is None: return
        frm = case + 1


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == prop]


def read_logs(wdir, sh):
    """Observation logs of a shard: case -> list of 'hash:what' items."""
    d = {}
    pre = "r_%s_" % re.sub(r"\W", "_", sh.name())
    for f in os.listdir(wdir):
        if f.startswith(pre) and re.search(r"\.log\d+$", f):
            for l in open(os.path.join(wdir, f)):
                if not l.endswith("\n"): continue          # cut off by an abnormal end
                p = l[:-1].split("\t")
                d[int(p[0])] = p[1:]
    return d


def same_obs(a, b):
    if a == b: return True
    if a[:1] != "~" or b[:1] != "~": return False
    va, na = a[1:].rsplit(":", 1); vb, nb = b[1:].rsplit(":", 1)
    xa, xb = va.split(",")[:-1], vb.split(",")[:-1]
    if na != nb or len(xa) != len(xb): return False
    for x, y in zip(xa, xb):
        x, y = float(x), float(y)
        if x != y and not (x != x and y != y) and not abs(x - y) <= 1e-4 + 1e-4 * max(abs(x), abs(y)): return False
    return True


def diff_obs(seq, opt):
    for k in range(max(len(seq), len(opt))):
        x = seq[k] if k < len(seq) else "(nothing)"
        y = opt[k] if k < len(opt) else "(nothing)"
        if not same_obs(x, y): return k, x, y
    return None


def compare_platforms(res, wdir, shards_):
    for s in shards_:
        o = [t for t in shards_ if t.src == s.src and t.defs == s.defs and t.plat == "opt"]
        if s.plat != "seq" or not o: continue
        a, b = read_logs(wdir, s), read_logs(wdir, o[0])
        both = sorted(set(a) & set(b)); n = 0
        for c in both:
            d = diff_obs(a[c], b[c]); n += len(a[c])
            if d:
                what = d[1].rsplit(":", 1)[-1]
                res.viols.append(dict(sig="platforms differ|" + what, shard=o[0], case=c, n=1, cross=s.name(),
                                      detail="observation %d (%s) is %s on the sequential and %s on the optimised platform" % (d[0], what, d[1][:200], d[2][:200])))
        res.counters["observations compared across platforms"] = res.counters.get("observations compared across platforms", 0) + n
        res.counters["programs compared across platforms"] = res.counters.get("programs compared across platforms", 0) + len(both)
        if not both: res.inconclusive.append("nothing to compare for " + s.name())


def run_check(prop, tier):
    t0 = time.time()
    chk = SH.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("VERIF_ONLY")
    shards_ = [s for s in chk["shards"] if not only or re.search(only, s.name())]
    wdir = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    lock = threading.Lock()
    verbose = os.environ.get("VERIF_LOG")
    def log(m):
        if verbose: print("  .. %6.1f %s" % (time.time() - t0, m), file=sys.stderr, flush=True)
    res = Result()
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            order = sorted(shards_, key=lambda s: -s.weight)
            bins = build_all(order, wdir, ex, log)
            pend = []
            def chunk_task(s, frm, cnt):
                run_chunk(s, bins[binkey(s)].result(), seed, frm, cnt, wdir, lock, res, log)
            # builds were submitted first, so waiting inside a chunk cannot deadlock
            for s in order:
                total = s.thorough if tier == "thorough" else s.quick
                scale = float(os.environ.get("VERIF_SCALE", "1"))
                total = max(1, int(total * scale))
                parts = max(1, min(s.parts * (4 if tier == "thorough" else 1), total))
                step = (total + parts - 1) // parts
                for frm in range(0, total, step):
                    pend.append(ex.submit(chunk_task, s, frm, min(step, total - frm)))
            for b in bins.values(): b.result()
            for p in pend: p.result()
    except BuildError as e:
        print("BUILD-ERROR property=%s %s" % (prop, e))
        shutil.rmtree(wdir, ignore_errors=True)
        return 2
    # optional cross-shard comparison
    post = chk.get("post")
    if post == 'cross': compare_platforms(res, wdir, shards_)
    shutil.rmtree(wdir, ignore_errors=True)

    # ---- verdict
    known = load_known(prop)
    groups = {}
    for v in res.viols:
        full = "%s|%s|%s" % (v["shard"].plat if v["shard"] else "*", v["shard"].src if v["shard"] else "*", v["sig"])
        groups.setdefault(full, v)
    new, hit = [], {}
    for full, v in sorted(groups.items()):
        for k in known:
            if k.get("status") == "finding" and re.search(k["match"], full) and re.search(k.get("detail_match", ""), v["detail"]):
                hit[k["id"]] = k
                break
        else:
            new.append((full, v))
    for k in known:
        if k.get("status") == "finding":
            print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["id"] in hit else " (not met by this run)"))
    rdir = os.path.join(HERE, "replay")
    if new:
        os.makedirs(rdir, exist_ok=True)
    for n, (full, v) in enumerate(new[:25]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        json.dump(dict(property=prop, signature=full, shard=v["shard"].name() if v["shard"] else None, seed=seed, case=v["case"],
                       count=v.get("span", 1), cross=v.get("cross"), detail=v["detail"]), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("    %s (seed %d case %s): %s" % (full, seed, v["case"], v["detail"].replace("\n", " ")[:300]))
    if len(new) > 25: print("    ... and %d more signatures" % (len(new) - 25))
    for i in res.inconclusive: print("INCONCLUSIVE property=%s %s" % (prop, i))

    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=res.evaluations, distinct_nontrivial=len(res.distinct), rule=chk["rule"],
                            samples=res.samples[:8] or ["(none)"], nontrivial_cases=res.nontrivial,
                            state_observations=res.observations, counters=res.counters,
                            shards=[dict(name=s.name(), sanitizer=s.san, cases=(s.thorough if tier == "thorough" else s.quick)) for s in shards_],
                            inconclusive=res.inconclusive, known_findings_met=sorted(hit)),
              assumptions=chk.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct nontrivial, %d observations, %d new violation signature(s), %.1fs" %
          (prop, tier, res.evaluations, len(res.distinct), res.observations, len(new), wall))
    if new: return 1
    if res.evaluations == 0 or len(res.distinct) == 0:
        print("CHECK-ERROR property=%s nothing was observed" % prop)
        return 2
    if res.inconclusive and res.evaluations < chk.get("min_eval", 1): return 2
    return 0


def replay(path):
    d = json.load(open(path))
    sh = [s for s in SH.CHECKS[d["property"]]["shards"] if s.name() == d["shard"]][0]
    wdir = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            b = build_all([sh], wdir, ex, lambda m: None)[binkey(sh)].result()
        rc, err = exec_once(sh, b, d["seed"], d["case"], d.get("count", 1), os.path.join(wdir, "o"), verbose=True)
        print(err)
        try: vs = json.load(open(os.path.join(wdir, "o")))["violations"]
        except Exception: vs = ["abnormal end rc=%d" % rc]
        if d.get("cross"):
            sh2 = [s for s in SH.CHECKS[d["property"]]["shards"] if s.name() == d["cross"]][0]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                b2 = build_all([sh2], wdir, ex, lambda m: None)[binkey(sh2)].result()
            for s, bb in ((sh, b), (sh2, b2)):
                exec_once(s, bb, d["seed"], d["case"], 1, os.path.join(wdir, "r_%s_0" % re.sub(r"\W", "_", s.name())))
            x, y = read_logs(wdir, sh2).get(d["case"], []), read_logs(wdir, sh).get(d["case"], [])
            vs = diff_obs(x, y)
            print("sequential vs optimised:", vs)
        print("reproduced" if vs or rc else "not reproduced")
        return 1 if vs or rc else 0
    finally:
        shutil.rmtree(wdir, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) < 2: sys.exit(__doc__)
    if sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "list":
        for k, c in SH.CHECKS.items(): print(k, [s.name() for s in c["shards"]])
        sys.exit(0)
    sys.exit(run_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
