#!/usr/bin/env python3
"""check.py PROPERTY [TIER] -- decide one property on /repo's working tree.

Builds the property's harness together with the library sources found in
$VERIF_REPO (default /repo), runs its generated-input search with fixed case
counts, writes evidence/<id>.json and prints the verdict.

exit 0  held on everything explored (known findings are printed, not raised)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the machinery itself did not work (nothing is claimed)
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(HERE, "src")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS  # noqa: E402

WORKERS = min(8, os.cpu_count() or 8)


def die(msg, code=2):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(code)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def compile_obj(out, cmd):
    r = sh(cmd + ["-o", out])
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-3000:])
    return out


def lib_sources(v):
    if v.get("split"):
        return ["tg.c", "deps/json.c", "deps/fp.c"]
    return ["tg.c"]


def build(work, pid, variant, fuzz=False):
    """Compile harness + library for one variant; returns the path of the binary."""
    v = VARIANTS[variant]
    cfg = CHECKS[pid]
    tag = "%s-%s%s" % (pid, variant, "-fuzz" if fuzz else "")
    flags = list(v["cflags"])
    if fuzz:
        flags += ["-fsanitize=fuzzer-no-link"]
    defs = list(v.get("defs", []))
    jobs = []
    for s in lib_sources(v):
        jobs.append((os.path.join(work, tag + "-" + s.replace("/", "_") + ".o"),
                     [v["cc"], "-std=gnu11", "-w", "-I", REPO, "-I", os.path.join(REPO, "deps")] + flags + defs +
                     ["-c", os.path.join(REPO, s)]))
    hdefs = ["-DPBT_FUZZ"] if fuzz else []
    hdefs += ["-DVARIANT_" + variant.upper()]
    jobs.append((os.path.join(work, tag + "-h.o"),
                 [v["cxx"], "-std=gnu++17", "-w", "-I", REPO, "-I", SRC] + flags + hdefs +
                 cfg.get("hflags", []) + ["-c", os.path.join(SRC, cfg["src"])]))
    with ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    out = os.path.join(work, tag)
    link = [v["cxx"]] + flags + (["-fsanitize=fuzzer"] if fuzz else []) + objs + \
        v.get("ldflags", []) + ["-lm", "-lpthread", "-ldl"]
    compile_obj(out, link)
    return out


def build_libs(work, names):
    """Shared objects: the library in several builds, each with the same driver (for C29)."""
    glue = compile_obj(os.path.join(work, "glue.o"),
                       ["clang++", "-std=gnu++17", "-w", "-O1", "-fPIC", "-fvisibility=hidden", "-I", REPO, "-I", SRC,
                        "-c", os.path.join(SRC, "c29_lib.cpp")])

    def one(n):
        v = VARIANTS[n]
        objs = []
        for s in lib_sources(v):
            o = os.path.join(work, "lib-%s-%s.o" % (n, s.replace("/", "_")))
            src = os.path.join(REPO, s)
            if v.get("subst"):
                txt = read(src).decode()
                for a, b in v["subst"]:
                    txt = txt.replace(a, b)
                src = os.path.join(work, "lib-%s-%s" % (n, os.path.basename(s)))
                with open(src, "w") as f:
                    f.write(txt)
            objs.append(compile_obj(o, [v["cc"], "-std=gnu11", "-w", "-fPIC", "-I", REPO, "-I", os.path.join(REPO, "deps")] +
                                    list(v["cflags"]) + list(v.get("defs", [])) + ["-c", src]))
        return compile_obj(os.path.join(work, "lib-%s.so" % n),
                           ["clang++", "-shared", "-Wl,-Bsymbolic"] + objs + [glue, "-lm"])
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, names))


def known_entries(pid):
    """known: property=<id> name=<probe> <what fails>   (see known_findings.txt)"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) name=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: check.py PROPERTY [quick|thorough]")
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & ((1 << 63) - 1)
    except ValueError:
        seed = 1
    cfg = CHECKS[pid]
    t0 = time.time()
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")):
        os.unlink(f)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = run(pid, tier, seed, cfg, t0, rdir, work)
    except BuildError as e:
        die("build failed:\n" + str(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(pid, tier, seed, cfg, t0, rdir, work):
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    stages = cfg["stages"]
    variants = []
    for st in stages:
        if st["variant"] not in variants and (tier == "thorough" or st.get("quick", 0)):
            variants.append(st["variant"])
    fuzz = cfg.get("fuzz") if tier == "thorough" else None
    todo = [(v, False) for v in variants] + ([(fuzz["variant"], True)] if fuzz else [])
    with ThreadPoolExecutor(4) as ex:
        bins = dict(zip(todo, ex.map(lambda t: build(work, pid, t[0], t[1]), todo)))
    env = dict(os.environ, PBT_PID=pid)
    env["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:report_signal_unsafe=0:history_size=4"
    if cfg.get("libs"):
        env["VERIF_LIBS"] = ":".join(build_libs(work, cfg["libs"]))
    results, violations = [], []
    for st in stages:
        n = st.get(tier, 0)
        if not n:
            continue
        n = max(WORKERS, int(n * scale))
        out = os.path.join(work, "out.json")
        t1 = time.time()
        r = subprocess.run([bins[(st["variant"], False)], "run", "--seed", str(seed), "--cases", str(n),
                            "--workers", str(WORKERS), "--out", out, "--replay-dir", rdir] + st.get("args", []),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode not in (0, 1):
            die("%s harness (%s) failed: exit %s\n%s" % (pid, st["variant"], r.returncode, r.stdout[-2000:]))
        d = json.load(open(out))
        d["variant"] = st["variant"]
        d["wall_s"] = round(time.time() - t1, 1)
        results.append(d)
        for v in d["violations"]:
            v["variant"] = st["variant"]
            violations.append(v)
        if violations:
            break
    fuzz_info = None
    if fuzz and not violations:
        fuzz_info, v = run_fuzz(pid, fuzz, bins, seed, rdir, work, env)
        violations += v
    # recorded findings
    known = known_entries(pid)
    printed = []
    first = bins[(variants[0], False)]
    r = sh([first, "known"], env=env)
    for line in r.stdout.splitlines():
        m = re.match(r"known (\S+) (holds|fails)$", line)
        if not m:
            continue
        if m.group(2) == "fails":
            if m.group(1) in known:
                printed.append("KNOWN-FINDING: property=%s %s: %s" % (pid, m.group(1), known[m.group(1)]))
            else:
                path = os.path.join(rdir, "%s-probe-%s.txt" % (pid, m.group(1)))
                with open(path, "w") as f:
                    f.write("fixed probe %s of %s does not hold\n" % (m.group(1), cfg["src"]))
                violations.append({"facet": "probe", "kind": m.group(1), "message": "fixed probe does not hold",
                                   "input": m.group(1), "replay": path, "choices": 0})
    evals = sum(d["done"] for d in results)
    dist = sum(d["distinct_nontrivial"] for d in results)
    labels, samples, per = {}, [], []
    for d in results:
        for k, v in d["labels"].items():
            if not k.startswith("facet:"):
                labels[k] = labels.get(k, 0) + v
        for s in d["samples"]:
            if len(samples) < 24:
                samples.append(s["facet"] + ": " + s["case"][:400])
        per.append({"variant": d["variant"], "cases": d["done"], "discarded": d["discarded"],
                    "nontrivial": d["nontrivial"], "distinct_nontrivial": d["distinct_nontrivial"],
                    "wall_s": d["wall_s"],
                    "facets": {f["name"]: {"what": f["what"], "cases": f["cases"]} for f in d["facets"]}})
    cov = {"evaluations": evals, "distinct_nontrivial": dist, "rule": results[0]["rule"],
           "samples": samples, "stages": per, "labels": labels}
    if fuzz_info:
        cov["coverage_guided"] = fuzz_info
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(violations),
          "known_findings": printed}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in printed:
        print(line)
    for v in violations:
        print("%s/%s: %s\n  input: %s" % (v["facet"], v["kind"], v["message"][:800], v["input"][:800]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1fs" %
          (pid, tier, seed, evals, dist, len(violations), time.time() - t0))
    return 1 if violations else 0


def run_fuzz(pid, fz, bins, seed, rdir, work, env):
    """Coverage-guided stage: libFuzzer drives the same facets, run counts fixed."""
    binf = bins[(fz["variant"], True)]
    plain = bins.get((fz["variant"], False))
    if plain is None:
        plain = build(work, pid, fz["variant"], False)
    jobs = []
    for k in range(WORKERS):
        cdir = os.path.join(work, "corpus%d" % k)
        adir = os.path.join(work, "art%d" % k)
        os.makedirs(cdir)
        os.makedirs(adir)
        cmd = [binf, "-runs=%d" % (fz["runs"] // WORKERS), "-seed=%d" % ((seed * 1000 + k) % 2000000000 + 1),
               "-max_len=%d" % fz.get("max_len", 600), "-len_control=20", "-timeout=30", "-rss_limit_mb=3000",
               "-max_total_time=%d" % fz.get("max_s", 600),
               "-print_final_stats=1", "-artifact_prefix=" + adir + "/", cdir]
        if "dict" in fz:
            cmd.insert(1, "-dict=" + os.path.join(SRC, fz["dict"]))
        log = open(os.path.join(work, "fuzz%d.log" % k), "w")
        jobs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env), adir, log, cdir))
    info = {"engine": "libFuzzer", "runs": 0, "corpus": 0, "edges": 0}
    viol = []
    for k, (p, adir, log, cdir) in enumerate(jobs):
        p.wait()
        log.close()
        txt = open(log.name, errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units: (\d+)", txt)
        if m:
            info["runs"] += int(m[-1])
        m = re.findall(r"cov: (\d+)", txt)
        if m:
            info["edges"] = max(info["edges"], int(m[-1]))
        info["corpus"] += len(os.listdir(cdir))
        for a in sorted(os.listdir(adir)):
            rp = os.path.join(rdir, "%s-fuzz-%s.replay" % (pid, a[-16:]))
            r = sh([plain, "frombytes", os.path.join(adir, a), rp], env=env)
            if r.returncode == 1 and not viol:
                lines = r.stdout.strip().splitlines()
                viol.append({"facet": "coverage-guided", "kind": lines[0], "message": " ".join(lines[2:])[:1500],
                             "input": lines[1] if len(lines) > 1 else "", "replay": rp, "choices": 0})
    return info, viol


if __name__ == "__main__":
    main()
