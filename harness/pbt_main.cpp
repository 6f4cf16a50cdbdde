#include "pbt.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>

using namespace pbt;

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x7f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static uint64_t hvec(const std::vector<uint64_t> &v, uint64_t h) { for (uint64_t x : v) h = mix(h, x); return h; }

enum { OK = 0, FAIL = 1, DISCARDED = 2 };
static const size_t LIVE_CAP = 1 << 16;
static const size_t MSG_CAP = 1 << 14;
static int g_cpu_limit = 30;

struct Slot {                       // shared memory, one per worker
    volatile int state;             // 0 running, 1 finished, 2 failed (message set)
    volatile long law, index;
    volatile long first_index;      // first case of this law run by this process
    char msg[MSG_CAP];
    char desc[MSG_CAP];
    uint64_t live[LIVE_CAP];
    uint64_t final_n;
    uint64_t final_choices[LIVE_CAP];
};

static void arm(int sec) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}

static int runOne(const Law &l, Case &c, std::string &msg) {
    try {
        l.fn(c);
        return OK;
    } catch (const Discard &) {
        return DISCARDED;
    } catch (const Failure &f) {
        msg = f.msg;
        return FAIL;
    } catch (const std::exception &e) {
        msg = std::string("unexpected exception: ") + e.what();
        return FAIL;
    } catch (...) {
        msg = "unexpected exception of unknown type";
        return FAIL;
    }
}

static void setstr(char *dst, const std::string &s) { size_t n = std::min(s.size(), MSG_CAP - 1); memcpy(dst, s.data(), n); dst[n] = 0; }

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

static std::string crashText(int status, const std::string &log) {
    std::ostringstream os;
    if (WIFSIGNALED(status)) {
        int s = WTERMSIG(status);
        if (s == SIGPROF) os << "did not terminate within " << g_cpu_limit << " s of CPU time (a case normally takes milliseconds)";
        else os << "killed by signal " << s << " (" << strsignal(s) << ")";
    } else os << "process ended with status " << WEXITSTATUS(status);
    std::ifstream f(log);
    std::string line; int n = 0;
    while (n < 400 && std::getline(f, line)) {
        n++;
        if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("SUMMARY") != std::string::npos || line.find("Assertion") != std::string::npos || line.find("#0 ") != std::string::npos || line.find("#1 ") != std::string::npos || line.find("#2 ") != std::string::npos)
            os << "\n" << line;
        if (os.str().size() > 3000) break;
    }
    return os.str();
}

static void quiet(const std::string &errlog) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    int e = open(errlog.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(e >= 0 ? e : dn, 2);
}

// run one case (given choices) or a history of generated cases in a fresh child; returns true if it fails
struct Attempt { bool fails; std::vector<uint64_t> choices; std::string msg, desc; };
static std::string g_tmp = "/tmp";
static Slot *g_shrink_slot;

static Attempt attempt(const Law &l, const std::vector<uint64_t> &choices) {
    Slot *s = g_shrink_slot;
    s->state = 0; s->msg[0] = 0; s->desc[0] = 0; s->live[0] = 0; s->final_n = 0;
    std::string log = g_tmp + "/attempt." + std::to_string(getpid()) + ".log";
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        quiet(log);
        arm(g_cpu_limit);
        Case c; c.replaying = true; c.in = choices; c.live = s->live; c.live_cap = LIVE_CAP;
        std::string msg;
        int r = runOne(l, c, msg);
        setstr(s->desc, c.desc.str());
        if (c.out.size() < LIVE_CAP) { s->final_n = c.out.size(); memcpy(s->final_choices, c.out.data(), 8 * c.out.size()); }
        if (r == FAIL) { setstr(s->msg, msg); s->state = 2; }
        else s->state = 1;
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    Attempt a;
    a.fails = s->state != 1;
    if (s->state == 2) { a.msg = s->msg; a.choices.assign(s->final_choices, s->final_choices + s->final_n); }
    else if (s->state == 0) { a.msg = crashText(st, log); a.choices.assign(s->live + 1, s->live + 1 + s->live[0]); }
    else a.choices = choices;
    a.desc = s->desc;
    unlink(log.c_str());
    return a;
}

static uint64_t caseSeed(uint64_t seed, const Law &l, long index) { return mix(mix(seed, hstr(l.prop + "/" + l.name)), (uint64_t) index); }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static Attempt shrink(const Law &l, Attempt best, double budget_s) {
    double t0 = now();
    bool hang = best.msg.find("did not terminate") != std::string::npos;
    if (hang) { g_cpu_limit = 10; }
    int tries = 0;
    auto consider = [&](const std::vector<uint64_t> &cand) {
        if (now() - t0 > budget_s || tries > 6000) return false;
        if (!simpler(cand, best.choices)) return false;
        tries++;
        Attempt a = attempt(l, cand);
        if (a.fails && simpler(a.choices, best.choices)) { best = a; return true; }
        if (a.fails && simpler(cand, best.choices) && a.choices.size() <= cand.size()) { a.choices = cand; best = a; return true; }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget_s) {
        progress = false;
        for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1; k = k / 2) {
            for (size_t i = 0; i + k <= best.choices.size();) {
                std::vector<uint64_t> cand = best.choices;
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (consider(cand)) progress = true; else i += k;
                if (now() - t0 > budget_s) break;
            }
            if (k == 1) break;
        }
        for (size_t k = 8; k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= best.choices.size(); i += k) {
                std::vector<uint64_t> cand = best.choices;
                bool any = false;
                for (size_t j = i; j < i + k; ++j) { if (cand[j]) any = true; cand[j] = 0; }
                if (any && consider(cand)) progress = true;
            }
        }
        for (size_t i = 0; i < best.choices.size(); ++i) {
            uint64_t lo = 0, hi = best.choices[i];
            while (lo < hi && i < best.choices.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> cand = best.choices; cand[i] = mid;
                if (consider(cand)) { progress = true; if (i >= best.choices.size()) break; hi = best.choices[i]; } else lo = mid + 1;
                if (now() - t0 > budget_s) break;
            }
        }
        // delete one and decrement an earlier one (list lengths)
        for (size_t i = 0; i + 1 < best.choices.size(); ++i) {
            if (best.choices[i] == 0 || best.choices[i] > 4096) continue;
            for (size_t k : {1, 2, 3, 4}) {
                for (size_t j = i + 1; j + k <= best.choices.size() && j < i + 40; ++j) {
                    std::vector<uint64_t> cand = best.choices; cand[i]--; cand.erase(cand.begin() + j, cand.begin() + j + k);
                    if (consider(cand)) { progress = true; break; }
                }
                if (i >= best.choices.size() || best.choices[i] == 0) break;
            }
            if (now() - t0 > budget_s) break;
        }
    }
    return best;
}

#ifdef PBT_FUZZ
// libFuzzer entry: PBT_LAW selects the law; the bytes are the choices (1..8 bytes each, length-prefixed by range)
static const Law *fuzzLaw() {
    static const Law *l = nullptr;
    if (!l) { const char *n = getenv("PBT_LAW"); for (auto &x : laws()) if (x.prop + "/" + x.name == (n ? n : "")) l = &x; if (!l) { fprintf(stderr, "no law\n"); _exit(3); } }
    return l;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    const Law *l = fuzzLaw();
    Case c; c.replaying = true;
    for (size_t i = 0; i + 4 <= size; i += 4) { uint32_t v; memcpy(&v, data + i, 4); c.in.push_back(v); }
    std::string msg;
    int r = runOne(*l, c, msg);
    if (r == FAIL) {
        const char *o = getenv("PBT_OUT");
        if (o) { std::ofstream f(o); for (auto v : c.out) f << v << "\n"; }
        fprintf(stderr, "PBT-FAIL %s\n", msg.c_str());
        __builtin_trap();
    }
    return r == DISCARDED ? -1 : 0;
}
#else

int main(int argc, char **argv) {
    std::string prop, tier = "quick", out, lawname, replay, hist;
    uint64_t seed = 1; int jobs = 8; double cap_s = 240; double scale = 1.0; bool verbose = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = val(); else if (a == "--tier") tier = val(); else if (a == "--seed") seed = std::stoull(val());
        else if (a == "--out") out = val(); else if (a == "--law") lawname = val(); else if (a == "--jobs") jobs = std::stoi(val());
        else if (a == "--cap") cap_s = std::stod(val()); else if (a == "--scale") scale = std::stod(val()); else if (a == "--tmp") g_tmp = val();
        else if (a == "--replay") replay = val(); else if (a == "--history") hist = val(); else if (a == "--verbose") verbose = true;
        else if (a == "--list") { for (auto &l : laws()) std::cout << l.prop << " " << l.name << " " << l.quick << " " << l.thorough << "\n"; return 0; }
        else { std::cerr << "unknown argument " << a << "\n"; return 2; }
    }
    g_shrink_slot = (Slot *) mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    if (!hist.empty()) {         // from:to:step; runs the generated cases of one law one after another in this process
        long from, to, step; sscanf(hist.c_str(), "%ld:%ld:%ld", &from, &to, &step);
        for (auto &l : laws()) if (l.prop == prop && l.name == lawname) {
            for (long i = from; i <= to; i += step) {
                Case c; c.rng = caseSeed(seed, l, i); std::string msg;
                if (runOne(l, c, msg) == FAIL) { std::cout << "case " << i << ": " << c.desc.str() << "\nresult: FAILS: " << msg << "\n"; return 1; }
            }
            std::cout << "result: holds\n"; return 0;
        }
        return 2;
    }
    if (!replay.empty()) {       // file of whitespace separated choices; --prop and --law select the law. exit 1 if it fails
        std::ifstream f(replay); std::vector<uint64_t> ch; uint64_t v; while (f >> v) ch.push_back(v);
        for (auto &l : laws()) if (l.prop == prop && l.name == lawname) {
            if (verbose) {
                Case c; c.replaying = true; c.in = ch; c.verbose = true; std::string msg; int r = runOne(l, c, msg);
                std::cout << "case: " << c.desc.str() << "\nresult: " << (r == OK ? "holds" : r == DISCARDED ? "discarded" : "FAILS: " + msg) << "\n";
                return r == FAIL;
            }
            Attempt a = attempt(l, ch);
            std::cout << "case: " << a.desc << "\nresult: " << (a.fails ? "FAILS: " + a.msg : "holds") << "\n";
            return a.fails ? 1 : 0;
        }
        std::cerr << "no such law\n"; return 2;
    }

    std::vector<Law> todo;
    for (auto &l : laws()) if (l.prop == prop && (lawname.empty() || l.name == lawname)) todo.push_back(l);
    if (todo.empty()) { std::cerr << "no law for " << prop << "\n"; return 2; }

    double t0 = now();
    std::vector<Slot *> slots;
    for (int j = 0; j < jobs; ++j) slots.push_back((Slot *) mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

    std::ostringstream lawsj;
    bool violated = false; long total_eval = 0, total_distinct = 0;
    std::string viol_json = "null";
    std::vector<std::string> unrepro;
    int li = 0;
    for (auto &l : todo) {
        double tl0 = now();
        double cap = cap_s * (li + 1) / todo.size();   // share of the time cap (unused time carries over)
        long n = (long) ((tier == "quick" ? l.quick : l.thorough) * scale);
        n = std::max(1L, n);
        long evals = 0, disc = 0, nontriv = 0;
        std::map<std::string, uint64_t> labels;
        std::set<uint64_t> seen;
        std::vector<std::string> samples;
        // worker j runs cases j, j+jobs, ...
        std::vector<pid_t> pids(jobs, -1);
        auto statfile = [&](int j) { return g_tmp + "/stat." + std::to_string(j); };
        auto errfile = [&](int j) { return g_tmp + "/err." + std::to_string(j); };
        for (int j = 0; j < jobs; ++j) {
            Slot *s = slots[j];
            s->state = 0; s->index = -1; s->msg[0] = 0; s->desc[0] = 0; s->live[0] = 0; s->first_index = j;
            unlink(statfile(j).c_str());
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                quiet(errfile(j));
                std::map<std::string, uint64_t> lab; std::set<uint64_t> hs; std::vector<std::string> smp; long ev = 0, di = 0, nt = 0;
                int since = 0;
                for (long i = j; i < n; i += jobs) {
                    if (now() - t0 > cap) break;
                    s->index = i; s->live[0] = 0;
                    if (since-- <= 0) { arm(g_cpu_limit * 2); since = 0; }
                    Case c; c.rng = caseSeed(seed, l, i); c.live = s->live; c.live_cap = LIVE_CAP;
                    std::string msg;
                    int r = runOne(l, c, msg);
                    ev++;
                    if (r == DISCARDED) { di++; continue; }
                    if (r == FAIL) {
                        setstr(s->msg, msg); setstr(s->desc, c.desc.str());
                        s->final_n = std::min(c.out.size(), LIVE_CAP - 1); memcpy(s->final_choices, c.out.data(), 8 * s->final_n);
                        s->state = 2; break;
                    }
                    for (auto &k : c.labels) lab[k.first]++;
                    if (c.is_nontrivial) { if (hs.insert(hvec(c.out, 7)).second) { nt++; if (smp.size() < 1 + (j == 0 ? 1 : 0) && c.desc.str().size()) smp.push_back(c.desc.str().substr(0, 700)); } }
                }
                std::ofstream f(statfile(j));
                f << ev << " " << di << " " << nt << " " << lab.size() << "\n";
                for (auto &k : lab) f << k.second << " " << k.first << "\n";
                f << hs.size() << "\n"; for (auto h : hs) f << h << "\n";
                f << smp.size() << "\n"; for (auto &x : smp) { std::string y = x; for (auto &ch : y) if (ch == '\n') ch = '|'; f << y << "\n"; }
                f.close();
                if (s->state == 0) s->state = 1;
                _exit(0);
            }
            pids[j] = p;
        }
        std::vector<int> failing; std::vector<int> sts(jobs, 0);
        for (int done = 0; done < jobs;) {
            int st = 0; pid_t p = waitpid(-1, &st, 0);
            if (p < 0) break;
            for (int j = 0; j < jobs; ++j) if (pids[j] == p) {
                done++; sts[j] = st;
                if (slots[j]->state != 1) {
                    failing.push_back(j);
                    for (int k = 0; k < jobs; ++k) if (k != j && slots[k]->state == 0) kill(pids[k], SIGTERM);
                }
            }
        }
        for (int j = 0; j < jobs; ++j) {
            std::ifstream f(statfile(j)); if (!f) continue;
            long ev, di, nt; size_t k; if (!(f >> ev >> di >> nt >> k)) continue;
            evals += ev; disc += di;
            for (size_t q = 0; q < k; ++q) { uint64_t v; std::string s; f >> v; f.get(); std::getline(f, s); labels[s] += v; }
            size_t m; f >> m; for (size_t q = 0; q < m; ++q) { uint64_t h; f >> h; seen.insert(h); }
            f >> m; f.ignore(10, '\n'); for (size_t q = 0; q < m; ++q) { std::string s; std::getline(f, s); if (samples.size() < 4) samples.push_back(s); }
            unlink(statfile(j).c_str());
        }
        // a worker killed by our own SIGTERM because another one failed is not a failure
        std::vector<int> real;
        for (int j : failing) if (!(slots[j]->state == 0 && WIFSIGNALED(sts[j]) && WTERMSIG(sts[j]) == SIGTERM)) real.push_back(j);
        for (int j : real) {
            if (violated) break;
            Slot *s = slots[j];
            Attempt first;
            if (s->state == 2) { first.choices.assign(s->final_choices, s->final_choices + s->final_n); first.msg = s->msg; first.desc = s->desc; }
            else { first.msg = crashText(sts[j], errfile(j)); first.choices.assign(s->live + 1, s->live + 1 + s->live[0]); }
            long idx = s->index;
            std::cerr << "law " << l.prop << "/" << l.name << ": case " << idx << " fails: " << first.msg.substr(0, 600) << "\n";
            Attempt again = attempt(l, first.choices);
            int rep = again.fails;
            for (int k = 0; k < 2; ++k) rep += attempt(l, first.choices).fails;
            if (rep == 3) {
                Attempt best = shrink(l, again, 60);
                int ok3 = 0; Attempt last = best;
                for (int k = 0; k < 3; ++k) { Attempt a = attempt(l, best.choices); if (a.fails) { ok3++; last = a; } }
                if (ok3 < 3) { best = again; last = again; }
                violated = true;
                std::ostringstream vj;
                vj << "{\"law\":" << jstr(l.name) << ",\"mode\":\"case\",\"message\":" << jstr(last.msg) << ",\"case\":" << jstr(last.desc) << ",\"original_message\":" << jstr(first.msg) << ",\"choices\":[";
                for (size_t q = 0; q < best.choices.size(); ++q) vj << (q ? "," : "") << best.choices[q];
                vj << "]}";
                viol_json = vj.str();
            } else {
                // depends on earlier cases of the same process: replay the whole history of that worker
                auto history = [&](long from) {
                    Slot *hs = g_shrink_slot; hs->state = 0; hs->msg[0] = 0;
                    std::string log = g_tmp + "/hist.log";
                    pid_t p = fork();
                    if (p == 0) {
                        quiet(log);
                        for (long i = from; i <= idx; i += jobs) {
                            arm(g_cpu_limit * 2);
                            Case c; c.rng = caseSeed(seed, l, i); std::string msg;
                            int r = runOne(l, c, msg);
                            if (r == FAIL) { setstr(hs->msg, msg); setstr(hs->desc, c.desc.str()); hs->state = 2; _exit(0); }
                        }
                        hs->state = 1; _exit(0);
                    }
                    int st; waitpid(p, &st, 0);
                    if (hs->state == 0) setstr(hs->msg, crashText(st, log));
                    return hs->state != 1;
                };
                int hrep = 0; for (int k = 0; k < 3; ++k) hrep += history(s->first_index);
                if (hrep == 3) {
                    // shortest suffix that still fails
                    long from = s->first_index;
                    for (long len = 1; len < (idx - from) / jobs + 1; len *= 2) { long f2 = idx - len * jobs; if (f2 > from && history(f2) && history(f2) && history(f2)) { from = f2; break; } }
                    history(from);
                    violated = true;
                    std::ostringstream vj;
                    vj << "{\"law\":" << jstr(l.name) << ",\"mode\":\"history\",\"message\":" << jstr(g_shrink_slot->msg) << ",\"case\":" << jstr(g_shrink_slot->desc)
                       << ",\"seed\":" << seed << ",\"from\":" << from << ",\"to\":" << idx << ",\"step\":" << jobs << "}";
                    viol_json = vj.str();
                } else {
                    unrepro.push_back(l.name + ": case " + std::to_string(idx) + " (" + std::to_string(rep) + "/3 alone, " + std::to_string(hrep) + "/3 with history): " + first.msg.substr(0, 300));
                }
            }
        }
        total_eval += evals; total_distinct += (long) seen.size(); nontriv = (long) seen.size();
        lawsj << (li ? "," : "") << "{\"law\":" << jstr(l.name) << ",\"rule\":" << jstr(l.rule) << ",\"evaluations\":" << evals << ",\"discarded\":" << disc << ",\"distinct_nontrivial\":" << nontriv
              << ",\"planned\":" << n << ",\"wall_s\":" << (now() - tl0) << ",\"labels\":{";
        bool fst = true; for (auto &k : labels) { lawsj << (fst ? "" : ",") << jstr(k.first) << ":" << k.second; fst = false; }
        lawsj << "},\"samples\":["; for (size_t q = 0; q < samples.size(); ++q) lawsj << (q ? "," : "") << jstr(samples[q]); lawsj << "]}";
        li++;
        if (violated) break;
    }
    // recorded findings that are still present
    std::ostringstream kj; bool kf = true;
    for (auto &k : knowns()) if (k.prop == prop) {
        Law kl{prop, k.id, "", 1, 1, [&](Case &c) { if (k.fn(c)) c.fail("present"); }};
        Attempt a = attempt(kl, {});
        kj << (kf ? "" : ",") << "{\"id\":" << jstr(k.id) << ",\"present\":" << (a.fails ? "true" : "false") << ",\"message\":" << jstr(a.msg.substr(0, 300)) << "}"; kf = false;
    }
    std::ostringstream os;
    os << "{\"property\":" << jstr(prop) << ",\"evaluations\":" << total_eval << ",\"distinct_nontrivial\":" << total_distinct << ",\"wall_s\":" << (now() - t0)
       << ",\"laws\":[" << lawsj.str() << "],\"violation\":" << viol_json << ",\"known\":[" << kj.str() << "],\"unreproducible\":[";
    for (size_t q = 0; q < unrepro.size(); ++q) os << (q ? "," : "") << jstr(unrepro[q]);
    os << "]}\n";
    if (!out.empty()) { std::ofstream f(out); f << os.str(); } else std::cout << os.str();
    return violated ? 1 : 0;
}
#endif
