"""Mutation campaign: which small changes to tg.c pass the repository's tests, and do the harnesses see them?
Usage: mutate.py OUTDIR COUNT SEED [JOBS] [LO HI]
Development aid only: no check uses it. Works outside /repo and /verif; needs
OUTDIR/cov/<harness>.txt (llvm-cov show of tg.c per harness, see `cov` below)."""
import concurrent.futures as cf, glob, json, os, random, re, subprocess, sys, time
sys.path.insert(0, "/verif")
from checks import CHECKS, VARIANTS
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
JOBS = int(sys.argv[4]) if len(sys.argv) > 4 else 8
LO = int(sys.argv[5]) if len(sys.argv) > 5 else 1
HI = int(sys.argv[6]) if len(sys.argv) > 6 else 10**9
REPO = "/repo"
os.makedirs(OUT, exist_ok=True)
B = OUT + "/base"; os.makedirs(B, exist_ok=True)
PIDS = [p for p in sorted(CHECKS) if p not in ("C28", "C29")]
CF = VARIANTS["asan"]["cflags"]

def sh(cmd, t=900, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, shell=isinstance(cmd, str), errors="replace", text=True, **kw)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -999, "timeout"

def hobj(p):
    o = "%s/%s.o" % (B, p)
    s = "/verif/src/" + CHECKS[p]["src"]
    new = max(os.path.getmtime(f) for f in glob.glob("/verif/src/*.hpp") + [s])
    if not os.path.exists(o) or os.path.getmtime(o) < new:
        rc, t = sh(["clang++", "-std=gnu++17", "-w", "-I", REPO, "-I", "/verif/src"] + CF + ["-DVARIANT_ASAN", "-c", s, "-o", o] + CHECKS[p].get("hflags", []))
        assert rc == 0, t
    return o
with cf.ThreadPoolExecutor(JOBS) as ex: OBJ = dict(zip(PIDS, ex.map(hobj, PIDS)))

SRC = open(REPO + "/tg.c").read().split("\n")
COV = {}
for p in PIDS:
    c = {}
    for l in open("/tmp/cov/%s.txt" % p.lower()):
        m = re.match(r"\s*(\d+)\|\s*([\d.]+)([kMG]?)\|", l)
        if m: c[int(m.group(1))] = float(m.group(2)) * {"": 1, "k": 1e3, "M": 1e6, "G": 1e9}[m.group(3)]
    COV[p] = c

OPS = [
    (r"(?<![<>=!-])<(?![<=])(?= )", ["<="]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])(?= )", [">="]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<=[\w)\]]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w)\]]) - (?=[\w(])", [" + "]),
    (r"(?<=[\w)\]])\+1\b", ["", "+2"]), (r"(?<=[\w)\]])-1\b", ["", "-2"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!(?=[a-z(])", [""]),
    (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]),
    (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\bmin\b(?=\.)", ["max"]), (r"\bmax\b(?=\.)", ["min"]),
    (r"\bfmin0\b|\bfmin\b", ["fmax"]), (r"\bfmax0\b|\bfmax\b", ["fmin"]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
    (r"(?<![\w.])4(?![\w.])", ["3", "5"]), (r"\+=", ["-=", "="]), (r"\|=", ["="]), (r"\+\+", ["--"]),
    (r"^(\s+)([\w\[\].>*-]+(?: [-+|&]?= [^;{}]*|\([^;{}]*\)|\+\+|--));$", ["\\1;"]),
    (r"^(\s+)(\w+)(\([^;{}]*\));$", ["\\1;"]),
    (r"if \((.*)\) (\{|goto|return|break|continue)", ["if (0) \\2", "if (1) \\2"]),
    (r"\ba\b(?=[.;,)])", ["b"]), (r"\bb\b(?=[.;,)])", ["a"]), (r"\bi\b(?=[\])])", ["0"]), (r"\bd\b(?=[.;,)])", ["c"]),
]
def mutants_of(n):
    l = SRC[n - 1]
    if re.match(r"\s*(//|/\*|\*|#)", l) or not l.strip(): return []
    code = l.split("//")[0]
    out = []
    for pat, reps in OPS:
        for m in re.finditer(pat, code):
            for r in reps:
                new = code[:m.start()] + m.expand(r) + code[m.end():]
                if new != code: out.append(new)
    return out

rnd = random.Random(SEED)
SKIP = eval(os.environ.get("SKIP", "[]"))
lines = [n for n in range(1, len(SRC) + 1) if LO <= n <= HI and not any(a <= n <= b for a, b in SKIP) and any(COV[p].get(n, 0) > 0 for p in PIDS) and mutants_of(n)]
tests = sorted(glob.glob(REPO + "/_build/amalga/test_*.o"))

def run_tests(d):
    rc, t = sh("gcc-13 -O0 -g0 -w -I%s -c %s/tg.c -o %s/tg0.o" % (REPO, d, d))
    if rc: return "nocompile"
    def one(o):
        b = d + "/" + os.path.basename(o)[:-2]
        rc, t = sh("gcc-13 -Wl,--wrap=strstr -o %s %s %s/_build/amalga/exact.o %s/tg0.o %s/_build/amalga/json.o -lm" % (b, o, REPO, d, REPO))
        if rc: return False
        w = b + ".w"; os.makedirs(w + "/svg", exist_ok=True)
        rc, t = sh([b], t=100, cwd=w)
        sh("rm -rf %s %s" % (w, b))
        return rc == 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return "ok" if all(ex.map(one, tests)) else "killed"

def run_h(d, p, frac, seed=1, workers=1):
    b = d + "/" + p
    rc, t = sh(["clang++"] + CF + [OBJ[p], d + "/tg.o", "-o", b, "-lm", "-lpthread", "-ldl"])
    if rc: return p, "nolink"
    cases = max(200, int(CHECKS[p]["stages"][0]["quick"] * frac))
    rc, t = sh([b, "run", "--seed", str(seed), "--cases", str(cases), "--workers", str(workers), "--out", d + "/" + p + ".json", "--replay-dir", d], t=600)
    os.unlink(b)
    return p, {0: "quiet", 1: "caught"}.get(rc, "rc%s" % rc)

def campaign():
    done = 0; tried = set()
    log = open(OUT + "/log.jsonl", "a")
    while done < N:
        n = rnd.choice(lines)
        new = rnd.choice(mutants_of(n))
        if (n, new) in tried: continue
        tried.add((n, new))
        d = OUT + "/w"; sh("rm -rf " + d); os.makedirs(d)
        src = list(SRC); src[n - 1] = new
        open(d + "/tg.c", "w").write("\n".join(src))
        t0 = time.time()
        r = run_tests(d)
        if r != "ok":
            continue
        done += 1
        rc, t = sh(["clang", "-std=gnu11", "-w", "-I", REPO, "-I", REPO + "/deps"] + CF + ["-c", d + "/tg.c", "-o", d + "/tg.o"])
        rel = sorted([p for p in PIDS if COV[p].get(n, 0) > 0], key=lambda p: -COV[p][n] / (1 + max(COV[p].values())))
        caught = []
        for frac in (0.02, 0.15):
            if frac > 0.1: rel = rel[:12]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                futs = [ex.submit(run_h, d, p, frac, 1) for p in rel]
                for f in cf.as_completed(futs):
                    p, r = f.result() if not f.cancelled() else (None, "")
                    if p and r != "quiet": caught.append(p + ":" + r)
                    if caught:
                        for g in futs: g.cancel()
                        break
            if caught: break
        rec = {"line": n, "old": SRC[n - 1], "new": new, "caught": caught, "rel": rel, "s": round(time.time() - t0)}
        log.write(json.dumps(rec) + "\n"); log.flush()
        print(n, "CAUGHT " + caught[0] if caught else "MISSED", repr(SRC[n-1].strip()), "->", repr(new.strip()), rec["s"], flush=True)
campaign()
