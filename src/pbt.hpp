// A small property-based-testing engine.
//
// Every random decision a property makes is drawn from a Src ("choice source").
// In search mode the choices come from a seeded generator, in replay/shrink
// mode from a recorded list, and in the coverage-guided build from libFuzzer's
// bytes.  A failing case is therefore always a list of integers, which is what
// gets shrunk and what a replay file holds.
//
// Cases run in forked workers, so a crash of the code under test (sanitizer
// report, fatal signal, runaway CPU) is just another way for a case to fail.
#pragma once
#include <memory>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

static inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static inline uint64_t hash_str(const char *s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ull;
    return h;
}
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

// Thrown by a property to report a violation. `kind` is a short stable label:
// the shrinker only accepts candidates failing with the same kind.
struct Fail {
    std::string kind, msg;
};
// Thrown to give up on a case (not a failure and not counted as non-trivial).
struct Discard {};

[[noreturn]] static inline void fail(const char *kind, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] static inline void fail(const char *kind, const char *fmt, ...) {
    char *buf = nullptr;
    va_list ap;
    va_start(ap, fmt);
    if (vasprintf(&buf, fmt, ap) < 0) buf = nullptr;
    va_end(ap);
    Fail f{kind, buf ? buf : ""};
    free(buf);
    throw f;
}

// Shared record of the choices drawn by the running case, so the parent still
// has them after the child crashed.
struct SharedRec {
    static constexpr size_t CAP = 1 << 17;
    std::atomic<uint64_t> n;
    uint64_t v[CAP];
    char kind[128];
    char msg[1 << 16];
    char note[1 << 16];
};

struct Src {
    // random mode
    uint64_t state = 0;
    // replay mode
    const std::vector<uint64_t> *list = nullptr;
    size_t pos = 0;
    // bytes mode
    const uint8_t *bytes = nullptr;
    size_t nbytes = 0, bpos = 0;
    enum { RANDOM, LIST, BYTES } mode = RANDOM;
    SharedRec *rec = nullptr;
    uint64_t hash = 1469598103934665603ull;
    uint64_t count = 0;

    uint64_t next64() {
        state += 0x9E3779B97F4A7C15ull;
        uint64_t x = state;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    // Uniform in [0, n). 0 is the simplest choice.
    uint64_t below(uint64_t n) {
        uint64_t v = 0;
        if (n > 1) {
            switch (mode) {
            case RANDOM: v = next64() % n; break;
            case LIST:
                v = pos < list->size() ? (*list)[pos] : 0;
                pos++;
                if (v >= n) v = v % n;
                break;
            case BYTES: {
                int nb = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
                for (int i = 0; i < nb; i++) {
                    uint64_t b = bpos < nbytes ? bytes[bpos++] : 0;
                    v |= b << (8 * i);
                }
                v %= n;
                break;
            }
            }
        } else if (mode == LIST) {
            pos++;
        }
        if (rec) {
            uint64_t k = rec->n.load(std::memory_order_relaxed);
            if (k < SharedRec::CAP) {
                rec->v[k] = v;
                rec->n.store(k + 1, std::memory_order_relaxed);
            }
        }
        hash = (hash ^ v) * 1099511628211ull;
        hash ^= hash >> 29;
        count++;
        return v;
    }
    uint64_t u64() { // all 64 bits, as two draws so n never overflows
        uint64_t hi = below(1ull << 32);
        uint64_t lo = below(1ull << 32);
        return hi << 32 | lo;
    }
    int64_t range(int64_t lo, int64_t hi) { // inclusive, lo simplest
        return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
    }
    bool chance(int num, int den) { // true with probability num/den; false simplest
        return below(den) >= (uint64_t)(den - num);
    }
    bool flip() { return below(2) == 1; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    // small-biased size in [lo, hi]
    int size(int lo, int hi) {
        int span = hi - lo;
        switch (below(4)) {
        case 0: return lo + (int)below(std::min(span, 3) + 1);
        case 1: return lo + (int)below(std::min(span, 8) + 1);
        default: return lo + (int)below(span + 1);
        }
    }
};

struct Ctx {
    bool nontrivial = false;
    bool verbose = false;                  // replay mode: say what happens
    std::map<std::string, uint64_t> *labels = nullptr;
    std::string sample;                    // human-readable rendering of the case
    SharedRec *rec = nullptr;
    void label(const char *l) {
        if (labels) (*labels)[l]++;
    }
    void interesting() { nontrivial = true; }
    // Describe the input before it is exercised (kept if the process dies).
    void note(const std::string &s) {
        if (sample.size() < 4000) {
            if (!sample.empty()) sample += " | ";
            sample += s.size() > 4000 ? s.substr(0, 4000) + "..." : s;
        }
        if (rec) {
            snprintf(rec->note, sizeof rec->note, "%s", sample.c_str());
        }
        if (verbose) printf("  %s\n", s.c_str());
    }
};

typedef void (*PropFn)(Src &, Ctx &);
struct Facet {
    const char *name;
    PropFn fn;
    int weight;       // share of the cases
    const char *what; // what one case is
};

// Provided by each harness.
extern const char *property_id;
extern const char *nontrivial_rule;
std::vector<Facet> &facets();
void case_setup();    // run before every case
void case_teardown(); // run after every case that ended normally; may throw Fail

struct Adder {
    Adder(const char *n, PropFn f, int w, const char *what) { facets().push_back({n, f, w, what}); }
};
#define FACET(name, weight, what)                                     \
    static void facet_##name(pbt::Src &, pbt::Ctx &);                 \
    static pbt::Adder add_##name(#name, facet_##name, weight, what);  \
    static void facet_##name(pbt::Src &s, pbt::Ctx &c)

// A recorded defect of the code under test: a fixed input on which the property
// is known not to hold. The function says whether it holds now.
struct Known {
    const char *name;
    bool (*holds)();
};
inline std::vector<Known> &knowns() {
    static std::vector<Known> k;
    return k;
}
struct KnownAdder {
    KnownAdder(const char *n, bool (*f)()) { knowns().push_back({n, f}); }
};
#define KNOWN(name)                                                \
    static bool known_##name();                                    \
    static pbt::KnownAdder addk_##name(#name, known_##name);       \
    static bool known_##name()

enum Outcome { PASS, FAILED, DISCARDED };

static inline Outcome run_once(const Facet &f, Src &s, Ctx &c, Fail &out) {
    try {
        case_setup();
        f.fn(s, c);
        case_teardown();
        return PASS;
    } catch (Fail &e) {
        out = e;
        return FAILED;
    } catch (Discard &) {
        try {
            case_teardown();
        } catch (Fail &e) {
            out = e;
            return FAILED;
        }
        return DISCARDED;
    }
}

#ifndef PBT_FUZZ

static SharedRec *new_rec() {
    void *p = mmap(nullptr, sizeof(SharedRec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return (SharedRec *)p;
}

static void arm_cpu(int secs) {
    struct itimerval it = {};
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// CPU seconds (not wall-clock) after which a case counts as hanging. Cases take
// milliseconds; the margin is three orders of magnitude.
static const int CASE_CPU_SECS = 20;
static const int SHRINK_WALL_SECS = 45; // minimisation only, never the verdict

static std::string describe_status(int st) {
    char b[128];
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGPROF) return "hang";
        snprintf(b, sizeof b, "signal-%d", sg);
        return b;
    }
    if (WIFEXITED(st)) {
        if (WEXITSTATUS(st) == 77) return "sanitizer";
        snprintf(b, sizeof b, "exit-%d", WEXITSTATUS(st));
        return b;
    }
    return "unknown";
}

// Set by harnesses whose cases start threads: a failure there is real however
// rarely it comes.
inline bool &schedule_dependent() {
    static bool b = false;
    return b;
}
// Cases of the search that are run first, in the same process, when a failure
// needs what they left behind.
struct Before {
    uint64_t seed = 0;
    std::vector<uint64_t> idx;
};
static const Facet &facet_for(uint64_t idx);
static uint64_t case_seed(uint64_t seed, uint64_t idx);

struct Result1 {
    Outcome o;
    std::string kind, msg, note;
    std::vector<uint64_t> choices;
};

// Runs one case in a forked child, from a choice list or from a seed.
static Result1 run_isolated(const Facet &f, const std::vector<uint64_t> *list, uint64_t seed,
                            SharedRec *rec, bool quiet, bool verbose = false, const Before *before = nullptr) {
    rec->n.store(0);
    rec->kind[0] = rec->msg[0] = rec->note[0] = 0;
    char errpath[64] = "";
    int errfd = -1;
    if (quiet) {
        snprintf(errpath, sizeof errpath, "/tmp/pbt-err-XXXXXX");
        errfd = mkstemp(errpath);
    }
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(3);
    }
    if (pid == 0) {
        if (quiet) {
            if (errfd >= 0) dup2(errfd, 2);
            int dn = open("/dev/null", O_WRONLY);
            if (dn >= 0) dup2(dn, 1);
        }
        if (before)
            for (uint64_t i : before->idx) {
                arm_cpu(CASE_CPU_SECS);
                Src s0;
                s0.state = case_seed(before->seed, i);
                Ctx c0;
                Fail e0;
                run_once(facet_for(i), s0, c0, e0);
            }
        arm_cpu(CASE_CPU_SECS);
        Src s;
        if (list) {
            s.mode = Src::LIST;
            s.list = list;
        } else {
            s.state = seed;
        }
        s.rec = rec;
        Ctx c;
        c.rec = rec;
        c.verbose = verbose;
        Fail e;
        Outcome o = run_once(f, s, c, e);
        if (o == FAILED) {
            snprintf(rec->kind, sizeof rec->kind, "%s", e.kind.c_str());
            snprintf(rec->msg, sizeof rec->msg, "%s", e.msg.c_str());
            fflush(stdout);
            _exit(21);
        }
        fflush(stdout);
        _exit(o == PASS ? 20 : 22);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    Result1 r;
    std::string errtext;
    if (errfd >= 0) {
        char b[6000];
        lseek(errfd, 0, SEEK_SET);
        ssize_t k = read(errfd, b, sizeof b - 1);
        if (k > 0) {
            b[k] = 0;
            errtext = b;
        }
        close(errfd);
        unlink(errpath);
    }
    r.note = rec->note;
    uint64_t n = rec->n.load();
    r.choices.assign(rec->v, rec->v + n);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 20) {
        r.o = PASS;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 22) {
        r.o = DISCARDED;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 21) {
        r.o = FAILED;
        r.kind = rec->kind;
        r.msg = rec->msg;
    } else {
        r.o = FAILED;
        r.kind = "crash:" + describe_status(st);
        // keep the interesting line of a sanitizer report
        size_t p = errtext.find("runtime error:");
        if (p == std::string::npos) p = errtext.find("ERROR: AddressSanitizer");
        if (p == std::string::npos) p = errtext.find("WARNING: ThreadSanitizer");
        if (p == std::string::npos) p = errtext.find("WARNING: MemorySanitizer");
        if (p == std::string::npos) p = 0;
        r.msg = errtext.substr(p, 1500);
    }
    return r;
}

// Shrinks a failing choice list. Candidates must fail with the same kind.
static std::vector<uint64_t> shrink(const Facet &f, std::vector<uint64_t> best, const std::string &kind,
                                    SharedRec *rec, int budget, Result1 &last) {
    if (kind == "crash:hang") return best;
    struct timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    auto try_ = [&](const std::vector<uint64_t> &cand) -> bool {
        if (budget <= 0) return false;
        struct timespec t1;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec - t0.tv_sec > SHRINK_WALL_SECS) {
            budget = 0;
            return false;
        }
        budget--;
        Result1 r = run_isolated(f, &cand, 0, rec, true);
        if (r.o != FAILED || r.kind != kind) return false;
        // adopt what was actually consumed
        std::vector<uint64_t> used = r.choices;
        while (!used.empty() && used.back() == 0) used.pop_back();
        if (used.size() > cand.size()) used = cand;
        best = used;
        last = r;
        return true;
    };
    bool improved = true;
    while (improved && budget > 0) {
        improved = false;
        // drop blocks
        for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1 && budget > 0; blk /= 2) {
            for (size_t i = best.size(); i-- > 0 && budget > 0;) {
                if (i + blk > best.size()) continue;
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + i, c.begin() + i + blk);
                if (try_(c)) {
                    improved = true;
                    if (i > best.size()) i = best.size();
                } else if (blk > 4) {
                    i -= std::min(i, blk / 4);
                }
            }
            if (blk == 1) break;
        }
        // drop a block and decrement an earlier count
        for (size_t i = 0; i + 1 < best.size() && budget > 0; i++) {
            if (best[i] == 0 || best[i] > 64) continue;
            for (size_t blk : {1, 2, 3, 4}) {
                if (i + 1 + blk > best.size()) break;
                std::vector<uint64_t> c = best;
                c[i]--;
                c.erase(c.begin() + i + 1, c.begin() + i + 1 + blk);
                if (try_(c)) {
                    improved = true;
                    break;
                }
            }
        }
        // zero blocks
        for (size_t blk : {8, 4, 2, 1}) {
            for (size_t i = 0; i + blk <= best.size() && budget > 0; i += blk) {
                bool allz = true;
                for (size_t k = 0; k < blk; k++)
                    if (best[i + k]) allz = false;
                if (allz) continue;
                std::vector<uint64_t> c = best;
                for (size_t k = 0; k < blk; k++) c[i + k] = 0;
                if (try_(c)) improved = true;
            }
        }
        // lower values
        for (size_t i = 0; i < best.size() && budget > 0; i++) {
            uint64_t lo = 0;
            while (i < best.size() && best[i] > lo && budget > 0) {
                uint64_t mid = lo + (best[i] - lo) / 2;
                if (mid == best[i]) break;
                std::vector<uint64_t> c = best;
                c[i] = mid;
                if (try_(c)) {
                    improved = true;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    return best;
}

static std::string json_escape(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += (char)ch;
        } else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else {
            o += (char)ch;
        }
    }
    return o;
}

static bool write_replay(const std::string &path, const Facet &f, const std::vector<uint64_t> &ch,
                         const Result1 &r, const Before *before = nullptr) {
    FILE *fp = fopen(path.c_str(), "w");
    if (!fp) return false;
    std::string msg = r.msg, note = r.note;
    auto clean = [](std::string &m) {
        for (char &c : m)
            if (c == '\n' || c == '\r') c = ' ';
    };
    clean(msg);
    clean(note);
    fprintf(fp, "pbt-replay 1\nproperty %s\nfacet %s\nkind %s\n", property_id, f.name, r.kind.c_str());
    if (before && !before->idx.empty()) {
        fprintf(fp, "before %" PRIu64 " %zu", before->seed, before->idx.size());
        for (auto i : before->idx) fprintf(fp, " %" PRIu64, i);
        fprintf(fp, "\n");
    }
    fprintf(fp, "input %s\nmessage %s\nchoices %zu\n", note.c_str(), msg.c_str(), ch.size());
    for (size_t i = 0; i < ch.size(); i++) fprintf(fp, "%" PRIu64 "%c", ch[i], i % 16 == 15 ? '\n' : ' ');
    fprintf(fp, "\n");
    fclose(fp);
    return true;
}

struct Shared { // per worker progress
    std::atomic<uint64_t> cur;     // index of running case + 1
    std::atomic<uint64_t> done;    // cases finished
    std::atomic<uint64_t> discard;
    std::atomic<uint64_t> nontriv;
    std::atomic<int> nfails;
    struct {
        uint64_t idx;
        char kind[128];
    } fails[64];
};

static uint64_t case_seed(uint64_t seed, uint64_t idx) {
    return mix64(mix64(seed ^ hash_str(property_id)) + mix64(idx * 0x9E3779B97F4A7C15ull + 1));
}

static const Facet &facet_for(uint64_t idx) {
    int total = 0;
    for (auto &f : facets()) total += f.weight;
    // Low-discrepancy interleaving: walk the weights with a multiplicative step
    uint64_t k = mix64(idx ^ 0xfacefacefaceull) % total;
    for (auto &f : facets()) {
        if (k < (uint64_t)f.weight) return f;
        k -= f.weight;
    }
    return facets().back();
}

static int main_run(int argc, char **argv) {
    uint64_t seed = 1, cases = 1000;
    int workers = 8;
    std::string out = "/dev/stdout", rdir = ".";
    std::string only;
    int shrink_budget = 4000, maxreport = 3;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        else if (a == "--cases") cases = strtoull(argv[i + 1], 0, 10);
        else if (a == "--workers") workers = atoi(argv[i + 1]);
        else if (a == "--out") out = argv[i + 1];
        else if (a == "--replay-dir") rdir = argv[i + 1];
        else if (a == "--facet") only = argv[i + 1];
        else if (a == "--shrink") shrink_budget = atoi(argv[i + 1]);
        else if (a == "--max-report") maxreport = atoi(argv[i + 1]);
    }
    if (!only.empty()) {
        std::vector<Facet> keep;
        for (auto &f : facets())
            if (only == f.name) keep.push_back(f);
        facets() = keep;
    }
    if (facets().empty()) {
        fprintf(stderr, "no such facet\n");
        return 3;
    }
    std::sort(facets().begin(), facets().end(),
              [](const Facet &a, const Facet &b) { return strcmp(a.name, b.name) < 0; });
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) return 3;
    char tmpl[] = "/tmp/pbt-run-XXXXXX";
    if (!mkdtemp(tmpl)) return 3;
    std::string tdir = tmpl;
    std::vector<pid_t> pids(workers, 0);
    std::vector<int> gen(workers, 0);
    std::vector<std::pair<uint64_t, std::string>> crashed; // idx, kind
    auto spawn = [&](int w, uint64_t start) {
        int g = gen[w]++;
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            exit(3);
        }
        if (pid) {
            pids[w] = pid;
            return;
        }
        std::string base = tdir + "/w" + std::to_string(w) + "." + std::to_string(g);
        int fd = open((base + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        if (fd >= 0) dup2(fd, 2);
        std::unordered_set<uint64_t> hashes;
        std::map<std::string, uint64_t> labels;
        std::map<std::string, std::vector<std::string>> samples;
        for (uint64_t i = start; i < cases; i += workers) {
            sh[w].cur.store(i + 1);
            arm_cpu(CASE_CPU_SECS);
            const Facet &f = facet_for(i);
            Src s;
            s.state = case_seed(seed, i);
            Ctx c;
            c.labels = &labels;
            Fail e;
            clock_t k0 = clock();
            Outcome o = run_once(f, s, c, e);
            if (const char *sl = getenv("PBT_SLOW")) { // tuning: which cases come near the limit
                double secs = (double)(clock() - k0) / CLOCKS_PER_SEC;
                if (secs > 0.7)
                    if (FILE *fp = fopen(sl, "a")) {
                        fprintf(fp, "%s %s seed=%" PRIu64 " case %" PRIu64 " %.1fs\n", getenv("PBT_PID") ? getenv("PBT_PID") : "", f.name, seed, i, secs);
                        fclose(fp);
                    }
            }
            labels[std::string("facet:") + f.name]++;
            if (o == FAILED) {
                if (getenv("PBT_VERBOSE")) dprintf(1, "FAILED case %" PRIu64 " %s: %s\n  %s\n", i, e.kind.c_str(), e.msg.c_str(), c.sample.c_str());
                int k = sh[w].nfails.load();
                if (k < 64) {
                    sh[w].fails[k].idx = i;
                    snprintf(sh[w].fails[k].kind, 128, "%s", e.kind.c_str());
                    sh[w].nfails.store(k + 1);
                }
                if (k >= 8) break; // enough; state may be off after a failure
            } else if (o == DISCARDED) {
                sh[w].discard++;
            } else if (c.nontrivial) {
                sh[w].nontriv++;
                hashes.insert(mix64(s.hash ^ hash_str(f.name)));
                auto &v = samples[f.name];
                if (v.size() < 2 && !c.sample.empty() && c.sample.size() < 1500) v.push_back(c.sample);
            }
            sh[w].done++;
        }
        arm_cpu(0);
        FILE *fp = fopen((base + ".dat").c_str(), "w");
        if (fp) {
            for (auto &h : hashes) fprintf(fp, "h %" PRIx64 "\n", h);
            for (auto &l : labels) fprintf(fp, "l %" PRIu64 " %s\n", l.second, l.first.c_str());
            for (auto &sv : samples)
                for (auto &x : sv.second) {
                    std::string y = json_escape(x);
                    fprintf(fp, "s %s %s\n", sv.first.c_str(), y.c_str());
                }
            fclose(fp);
        }
        _exit(0);
    };
    int alive = 0;
    for (int w = 0; w < workers; w++) {
        if ((uint64_t)w < cases) {
            spawn(w, w);
            alive++;
        }
    }
    while (alive > 0) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) {
            if (errno == EINTR) continue;
            break;
        }
        int w = -1;
        for (int i = 0; i < workers; i++)
            if (pids[i] == p) w = i;
        if (w < 0) continue;
        alive--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        uint64_t idx = sh[w].cur.load();
        if (idx == 0) {
            fprintf(stderr, "worker died before its first case (%s)\n", describe_status(st).c_str());
            return 3;
        }
        idx--;
        crashed.push_back({idx, "crash:" + describe_status(st)});
        if (crashed.size() < 12 && idx + workers < cases) {
            spawn(w, idx + workers);
            alive++;
        }
    }
    uint64_t done = 0, discard = 0, nontriv = 0;
    std::map<uint64_t, std::string> failing;
    for (auto &c : crashed) failing[c.first] = c.second;
    for (int w = 0; w < workers; w++) {
        done += sh[w].done.load();
        discard += sh[w].discard.load();
        nontriv += sh[w].nontriv.load();
        for (int k = 0; k < sh[w].nfails.load(); k++) failing[sh[w].fails[k].idx] = sh[w].fails[k].kind;
    }
    // merge worker reports
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::pair<std::string, std::string>> samples;
    std::map<std::string, int> nsamp;
    for (int w = 0; w < workers; w++)
        for (int g = 0; g < gen[w]; g++) {
            std::string base = tdir + "/w" + std::to_string(w) + "." + std::to_string(g);
            FILE *fp = fopen((base + ".dat").c_str(), "r");
            if (fp) {
                static char line[20000];
                while (fgets(line, sizeof line, fp)) {
                    line[strcspn(line, "\n")] = 0;
                    if (line[0] == 'h') hashes.insert(strtoull(line + 2, 0, 16));
                    else if (line[0] == 'l') {
                        char *e;
                        uint64_t v = strtoull(line + 2, &e, 10);
                        labels[e + 1] += v;
                    } else if (line[0] == 's') {
                        char *sp = strchr(line + 2, ' ');
                        if (sp) {
                            *sp = 0;
                            if (nsamp[line + 2]++ < 2) samples.push_back({line + 2, sp + 1});
                        }
                    }
                }
                fclose(fp);
            }
            unlink((base + ".dat").c_str());
            unlink((base + ".err").c_str());
        }
    rmdir(tdir.c_str());
    // confirm and shrink
    SharedRec *rec = new_rec();
    struct Rep {
        std::string facet, kind, msg, note, path;
        size_t size;
    };
    std::vector<Rep> reps;
    std::set<std::string> seen;
    std::map<std::string, int> tried;
    int unconfirmed = 0;
    for (auto &fl : failing) {
        const Facet &f = facet_for(fl.first);
        std::string key = std::string(f.name) + "/" + fl.second;
        if (seen.count(key)) continue;
        if ((int)reps.size() >= maxreport) break;
        if (tried[key]++ >= 3 || unconfirmed >= 10) continue;
        Result1 r;
        for (int k = 0; k < (schedule_dependent() ? 40 : 1); k++) {
            r = run_isolated(f, nullptr, case_seed(seed, fl.first), rec, true);
            if (r.o == FAILED) break;
        }
        Before before;
        before.seed = seed;
        if (r.o != FAILED && !schedule_dependent()) {
            // does it need the cases that ran before it?
            for (uint64_t len = 4;; len *= 8) {
                before.idx.clear();
                for (uint64_t k = std::min<uint64_t>(len, fl.first / workers); k >= 1; k--) before.idx.push_back(fl.first - k * workers);
                r = run_isolated(f, nullptr, case_seed(seed, fl.first), rec, true, false, &before);
                if (r.o == FAILED || len >= fl.first / workers || len > 20000) break;
            }
            // fewer of them
            int tries = 150;
            for (size_t blk = std::max<size_t>(1, before.idx.size() / 2); r.o == FAILED && tries > 0; blk /= 2) {
                for (size_t i = 0; i + blk <= before.idx.size() && tries-- > 0;) {
                    Before b = before;
                    b.idx.erase(b.idx.begin() + i, b.idx.begin() + i + blk);
                    Result1 r2 = run_isolated(f, nullptr, case_seed(seed, fl.first), rec, true, false, &b);
                    if (r2.o == FAILED) before = b;
                    else i += blk;
                }
                if (blk <= 1) break;
            }
            if (r.o == FAILED) r = run_isolated(f, nullptr, case_seed(seed, fl.first), rec, true, false, &before);
        }
        if (r.o != FAILED && schedule_dependent()) {
            r.o = FAILED;
            r.kind = fl.second;
            r.msg = "seen once; it depends on how the threads are scheduled";
        }
        if (r.o != FAILED) {
            unconfirmed++;
            continue;
        }
        seen.insert(key);
        std::vector<uint64_t> ch = r.choices;
        Result1 last = r;
        std::string kind = r.kind;
        if (schedule_dependent() || !before.idx.empty()) {
            char nm[512];
            snprintf(nm, sizeof nm, "%s/%s-%s-%016" PRIx64 ".replay", rdir.c_str(), property_id, f.name,
                     hash_bytes(ch.data(), ch.size() * 8, hash_str(kind.c_str())));
            if (!before.idx.empty()) last.msg = "(after " + std::to_string(before.idx.size()) + " other case(s)) " + last.msg;
            write_replay(nm, f, ch, last, &before);
            reps.push_back({f.name, kind, last.msg, last.note, nm, ch.size()});
            continue;
        }
        if (r.choices.size() < SharedRec::CAP) {
            Result1 r2 = run_isolated(f, &ch, 0, rec, true);
            if (r2.o == FAILED && r2.kind == kind) ch = shrink(f, ch, kind, rec, shrink_budget, last);
        }
        // replay three times before it is reported
        int again = 0;
        for (int k = 0; k < 3; k++) {
            Result1 r3 = run_isolated(f, &ch, 0, rec, true);
            if (r3.o == FAILED && r3.kind == kind) {
                again++;
                last = r3;
            }
        }
        if (again < 3) {
            unconfirmed++;
            continue;
        }
        char nm[512];
        snprintf(nm, sizeof nm, "%s/%s-%s-%016" PRIx64 ".replay", rdir.c_str(), property_id, f.name,
                 hash_bytes(ch.data(), ch.size() * 8, hash_str(kind.c_str())));
        write_replay(nm, f, ch, last);
        reps.push_back({f.name, kind, last.msg, last.note, nm, ch.size()});
    }
    FILE *fp = fopen(out.c_str(), "w");
    if (!fp) {
        perror(out.c_str());
        return 3;
    }
    fprintf(fp, "{\"property\":\"%s\",\"seed\":%" PRIu64 ",\"cases\":%" PRIu64 ",\"done\":%" PRIu64
                ",\"discarded\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"distinct_nontrivial\":%zu,"
                "\"rule\":\"%s\",\"failing_cases\":%zu,\"unconfirmed\":%d,\"labels\":{",
            property_id, seed, cases, done, discard, nontriv, hashes.size(),
            json_escape(nontrivial_rule).c_str(), failing.size(), unconfirmed);
    bool first = true;
    for (auto &l : labels) {
        fprintf(fp, "%s\"%s\":%" PRIu64, first ? "" : ",", json_escape(l.first).c_str(), l.second);
        first = false;
    }
    fprintf(fp, "},\"facets\":[");
    first = true;
    for (auto &f : facets()) {
        fprintf(fp, "%s{\"name\":\"%s\",\"what\":\"%s\",\"cases\":%" PRIu64 "}", first ? "" : ",", f.name,
                json_escape(f.what).c_str(), labels[std::string("facet:") + f.name]);
        first = false;
    }
    fprintf(fp, "],\"samples\":[");
    first = true;
    for (auto &s : samples) {
        fprintf(fp, "%s{\"facet\":\"%s\",\"case\":\"%s\"}", first ? "" : ",", s.first.c_str(), s.second.c_str());
        first = false;
    }
    fprintf(fp, "],\"violations\":[");
    first = true;
    for (auto &r : reps) {
        fprintf(fp, "%s{\"facet\":\"%s\",\"kind\":\"%s\",\"message\":\"%s\",\"input\":\"%s\",\"replay\":\"%s\",\"choices\":%zu}",
                first ? "" : ",", r.facet.c_str(), json_escape(r.kind).c_str(), json_escape(r.msg).c_str(),
                json_escape(r.note).c_str(), json_escape(r.path).c_str(), r.size);
        first = false;
    }
    fprintf(fp, "]}\n");
    fclose(fp);
    return reps.empty() ? 0 : 1;
}

static int main_known() {
    for (auto &k : knowns()) {
        bool h = false;
        try {
            case_setup();
            h = k.holds();
            case_teardown();
        } catch (Fail &) {
            h = false;
        }
        printf("known %s %s\n", k.name, h ? "holds" : "fails");
        fflush(stdout);
    }
    return 0;
}

// Turns an input of the coverage-guided build into a replay file.
static int main_frombytes(int argc, char **argv) {
    if (argc < 4) return 3;
    FILE *fp = fopen(argv[2], "rb");
    if (!fp) return 3;
    static uint8_t buf[1 << 20];
    size_t n = fread(buf, 1, sizeof buf, fp);
    fclose(fp);
    if (n < 1) return 3;
    std::sort(facets().begin(), facets().end(),
              [](const Facet &a, const Facet &b) { return strcmp(a.name, b.name) < 0; });
    const Facet &f = facets()[buf[0] % facets().size()];
    SharedRec *rec = new_rec();
    // run once in a child to learn the choices
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
        arm_cpu(CASE_CPU_SECS);
        Src s;
        s.mode = Src::BYTES;
        s.bytes = buf + 1;
        s.nbytes = n - 1;
        s.rec = rec;
        Ctx c;
        Fail e;
        run_once(f, s, c, e);
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    uint64_t k = rec->n.load();
    std::vector<uint64_t> ch(rec->v, rec->v + k);
    Result1 r = run_isolated(f, &ch, 0, rec, true);
    if (r.o != FAILED) {
        printf("passes\n");
        return 0;
    }
    Result1 last = r;
    ch = shrink(f, ch, r.kind, rec, 4000, last);
    int again = 0;
    for (int i = 0; i < 3; i++) {
        Result1 r3 = run_isolated(f, &ch, 0, rec, true);
        if (r3.o == FAILED && r3.kind == r.kind) {
            again++;
            last = r3;
        }
    }
    if (again < 3) {
        printf("passes\n");
        return 0;
    }
    if (!write_replay(argv[3], f, ch, last)) return 3;
    printf("FAILS kind=%s\n  input: %s\n  %s\n", last.kind.c_str(), last.note.c_str(), last.msg.c_str());
    return 1;
}

static int main_replay(int argc, char **argv) {
    const char *path = argc > 2 ? argv[2] : "";
    FILE *fp = fopen(path, "r");
    if (!fp) {
        perror(path);
        return 3;
    }
    static char line[1 << 18];
    std::string facet, kind;
    std::vector<uint64_t> ch;
    Before before;
    std::sort(facets().begin(), facets().end(),
              [](const Facet &a, const Facet &b) { return strcmp(a.name, b.name) < 0; });
    while (fgets(line, sizeof line, fp)) {
        if (!strncmp(line, "facet ", 6)) {
            facet = line + 6;
            facet.erase(facet.find_last_not_of("\n") + 1);
        } else if (!strncmp(line, "kind ", 5)) {
            kind = line + 5;
            kind.erase(kind.find_last_not_of("\n") + 1);
        } else if (!strncmp(line, "before ", 7)) {
            char *e;
            before.seed = strtoull(line + 7, &e, 10);
            size_t n = strtoull(e, &e, 10);
            for (size_t i = 0; i < n; i++) before.idx.push_back(strtoull(e, &e, 10));
        } else if (!strncmp(line, "choices ", 8)) {
            size_t n = strtoull(line + 8, 0, 10);
            for (size_t i = 0; i < n; i++) {
                uint64_t v;
                if (fscanf(fp, "%" SCNu64, &v) != 1) break;
                ch.push_back(v);
            }
        }
    }
    fclose(fp);
    for (auto &f : facets()) {
        if (facet == f.name) {
            SharedRec *rec = new_rec();
            Result1 r;
            for (int k = 0; k < (schedule_dependent() ? 200 : 1); k++) {
                r = run_isolated(f, &ch, 0, rec, false, true, &before);
                if (r.o == FAILED) break;
            }
            if (r.o == FAILED) {
                printf("FAILS kind=%s\n  input: %s\n  %s\n", r.kind.c_str(), r.note.c_str(), r.msg.c_str());
                return 1;
            }
            printf("passes\n");
            return 0;
        }
    }
    fprintf(stderr, "unknown facet %s\n", facet.c_str());
    return 3;
}

#endif // !PBT_FUZZ
} // namespace pbt

#ifndef PBT_FUZZ
#define PBT_MAIN(id, rule)                                                  \
    namespace pbt {                                                         \
    const char *property_id = id;                                           \
    const char *nontrivial_rule = rule;                                     \
    std::vector<Facet> &facets() {                                          \
        static std::vector<Facet> f;                                        \
        return f;                                                           \
    }                                                                       \
    }                                                                       \
    int main(int argc, char **argv) {                                       \
        if (argc > 1 && !strcmp(argv[1], "run")) return pbt::main_run(argc, argv);       \
        if (argc > 1 && !strcmp(argv[1], "replay")) return pbt::main_replay(argc, argv); \
        if (argc > 1 && !strcmp(argv[1], "known")) return pbt::main_known();             \
        if (argc > 1 && !strcmp(argv[1], "frombytes")) return pbt::main_frombytes(argc, argv); \
        fprintf(stderr, "usage: %s run|replay ...\n", argv[0]);             \
        return 3;                                                           \
    }
#else
#define PBT_MAIN(id, rule)                                                  \
    namespace pbt {                                                         \
    const char *property_id = id;                                           \
    const char *nontrivial_rule = rule;                                     \
    std::vector<Facet> &facets() {                                          \
        static std::vector<Facet> f;                                        \
        return f;                                                           \
    }                                                                       \
    }                                                                       \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t n) {  \
        using namespace pbt;                                                \
        static bool sorted = false;                                         \
        if (!sorted) {                                                      \
            std::sort(facets().begin(), facets().end(), [](const Facet &a, const Facet &b) { \
                return strcmp(a.name, b.name) < 0; });                      \
            sorted = true;                                                  \
        }                                                                   \
        if (n < 1) return 0;                                                \
        Src s;                                                              \
        s.mode = Src::BYTES;                                                \
        s.bytes = data + 1;                                                 \
        s.nbytes = n - 1;                                                   \
        Ctx c;                                                              \
        Fail e;                                                             \
        const Facet &f = facets()[data[0] % facets().size()];               \
        if (run_once(f, s, c, e) == FAILED) {                               \
            fprintf(stderr, "PBT-FAIL facet=%s kind=%s\n  input: %s\n  %s\n", f.name, e.kind.c_str(), \
                    c.sample.c_str(), e.msg.c_str());                       \
            abort();                                                        \
        }                                                                   \
        return 0;                                                           \
    }
#endif
