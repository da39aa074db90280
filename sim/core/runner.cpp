#include "runner.hpp"
#include <execinfo.h>
#include "seams.hpp"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

namespace {

struct Result {
    int verdict = 0;
    std::string cls, msg;
    uint64_t hash = 0;
    std::vector<Decision> dec;
};

double wall() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double) ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::string text(const Scenario& s) {
    std::ostringstream o;
    o.precision(17);
    o << "prop " << s.prop << "\nseed " << s.seed << "\n";
    for (auto& kv : s.cfg) o << "cfg " << kv.first << " " << kv.second << "\n";
    for (auto& p : s.ops) o << "op " << p.client << " " << p.kind << " " << p.a << " " << p.b << " " << p.c << " " << p.d << "\n";
    return o.str();
}

volatile pid_t g_child = 0;
volatile int g_alarm = 0;
void onAlarm(int) { g_alarm = 1; if (g_child > 0) kill(g_child, SIGKILL); }

void onCrash(int g) { // only for debugging
    void* b[60];
    int n = backtrace(b, 60);
    backtrace_symbols_fd(b, n, 2);
    signal(g, SIG_DFL);
    raise(g);
}
void onTerminate() {
    if (getenv("SIM_BT")) {
        void* b[60];
        backtrace_symbols_fd(b, backtrace(b, 60), 2);
    }
    const char* what = "unknown";
    std::string w;
    try {
        if (std::current_exception()) std::rethrow_exception(std::current_exception());
    } catch (const std::exception& e) { w = e.what(); what = w.c_str(); } catch (...) {}
    violation("terminate", "the process is terminated by an exception no caller can catch: %s", what);
}

bool parse(std::istream& in, Scenario& s, std::vector<Decision>& dec, std::string& cls, uint64_t& hash, bool& replay) {
    std::string line;
    replay = true;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "prop") l >> s.prop;
        else if (k == "seed") l >> s.seed;
        else if (k == "cfg") { std::string n; double v; l >> n >> v; s.cfg[n] = v; }
        else if (k == "op") { Op p; l >> p.client >> p.kind >> p.a >> p.b >> p.c >> p.d; s.ops.push_back(p); }
        else if (k == "dec") { Decision d; l >> d.kind >> d.tid >> d.n >> d.v; dec.push_back(d); }
        else if (k == "expect") l >> cls >> hash;
        else if (k == "search") replay = false;
    }
    return true;
}

// Every run is a fork of one process (the zygote) which never allocates, so that all runs start from the same memory layout.
struct Mailbox { volatile int status; volatile int alarmed; size_t len; char text[8 << 20]; };
Mailbox* g_box = nullptr;
int g_req[2], g_ack[2];
pid_t g_zygote = 0;

[[noreturn]] void childRun(System& sys) {
    Scenario s;
    std::vector<Decision> dec;
    std::string cls;
    uint64_t hash;
    bool replay;
    std::istringstream in(std::string(g_box->text, g_box->len));
    parse(in, s, dec, cls, hash, replay);
    Config c = sys.simConfig(s);
    c.seed = s.seed * 0x9E3779B97F4A7C15ull + 12345;
    c.replay = replay;
    std::set_terminate(onTerminate);
    if (getenv("SIM_BT")) for (int g : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE}) signal(g, onCrash);
    run(c, dec, [&] { sys.execute(s); });
    g_sh->simNs = now();
    g_sh->verdict = 1;
    _exit(0);
}

void startZygote(System& sys) {
    g_box = (Mailbox*) mmap(nullptr, sizeof(Mailbox), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (pipe(g_req) || pipe(g_ack)) exit(3);
    fflush(stdout); fflush(stderr);
    g_zygote = fork();
    if (g_zygote < 0) exit(3);
    if (g_zygote > 0) { close(g_req[0]); close(g_ack[1]); return; }
    close(g_req[1]); close(g_ack[0]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (;;) {
        unsigned char t;
        ssize_t k = read(g_req[0], &t, 1);
        if (k < 0 && errno == EINTR) continue;
        if (k != 1) _exit(0);
        g_alarm = 0;
        pid_t pid = fork();
        if (pid == 0) {
            close(g_req[0]); close(g_ack[1]);
            signal(SIGALRM, SIG_DFL);
            childRun(sys);
        }
        int st = -1;
        if (pid > 0) {
            g_child = pid;
            alarm(t);
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            alarm(0);
            g_child = 0;
        }
        g_box->status = st;
        g_box->alarmed = g_alarm;
        unsigned char ok = pid > 0;
        if (write(g_ack[1], &ok, 1) != 1) _exit(0);
    }
}

Result runOnce(System& sys, const Scenario& s, bool replay, const std::vector<Decision>& dec, int timeout = 30) {
    memset((void*) g_sh, 0, offsetof(Shared, dec));
    std::string t = text(s);
    if (!replay) t += "search\n";
    for (auto& d : dec) t += std::string("dec ") + d.kind + " " + std::to_string(d.tid) + " " + std::to_string(d.n) + " " + std::to_string(d.v) + "\n";
    if (t.size() > sizeof g_box->text) { fprintf(stderr, "request too long\n"); exit(3); }
    memcpy(g_box->text, t.data(), t.size());
    g_box->len = t.size();
    unsigned char c = (unsigned char) timeout;
    if (write(g_req[1], &c, 1) != 1) { fprintf(stderr, "zygote lost\n"); exit(3); }
    for (;;) {
        ssize_t k = read(g_ack[0], &c, 1);
        if (k == 1) break;
        if (k < 0 && errno == EINTR) continue;
        fprintf(stderr, "zygote lost\n");
        exit(3);
    }
    if (!c) { fprintf(stderr, "fork failed\n"); exit(3); }
    int st = g_box->status;
    sys.afterRun();
    Result r;
    r.verdict = g_sh->verdict;
    r.cls = g_sh->cls;
    r.msg = g_sh->msg;
    if (WIFSIGNALED(st)) {
        r.verdict = 2;
        if (g_box->alarmed) { r.cls = "stuck"; r.msg = "a thread never reached another scheduling point"; }
        else { r.cls = "crash"; r.msg = std::string("the process was killed by signal ") + strsignal(WTERMSIG(st)); }
    } else if (r.verdict == 0) {
        r.verdict = 2; r.cls = "process-exit"; r.msg = "the process ended before the run did";
    }
    r.hash = g_sh->evHash ^ (uint64_t) r.verdict << 60;
    r.dec.assign(g_sh->dec, g_sh->dec + g_sh->nDec);
    return r;
}

bool same(const Result& a, const Result& b) { return a.verdict == b.verdict && a.cls == b.cls; }

void writeReplay(System& sys, const std::string& path, const Scenario& s, const Result& r, size_t origOps, size_t origDec) {
    std::ofstream o(path);
    o << "# violation of " << s.prop << ": " << r.cls << ": " << r.msg << "\n";
    o << "# minimised from " << origOps << " operations and " << origDec << " decisions to " << s.ops.size() << " and " << r.dec.size() << "\n";
    o << text(s);
    for (auto& p : s.ops) o << "# client " << p.client << ": " << sys.describe(p) << "\n";
    o << "expect " << r.cls << " " << r.hash << "\n";
    for (auto& d : r.dec) o << "dec " << d.kind << " " << d.tid << " " << d.n << " " << d.v << "\n";
}

bool readReplay(const std::string& path, Scenario& s, std::vector<Decision>& dec, std::string& cls, uint64_t& hash) {
    std::ifstream in(path);
    if (!in) return false;
    bool replay;
    return parse(in, s, dec, cls, hash, replay);
}

// reduces operations and decisions while the class of violation stays the same
void minimise(System& sys, Scenario& s, Result& r, double budget) {
    double end = wall() + budget;
    auto attempt = [&](const Scenario& s2, const std::vector<Decision>& d2) {
        Result x = runOnce(sys, s2, true, d2);
        if (!same(x, r)) return false;
        s = s2;
        r = x;
        return true;
    };
    int tmo = 0;
    (void) tmo;
    bool progress = true;
    while (progress && wall() < end) {
        progress = false;
        for (size_t i = s.ops.size(); i-- > 0 && wall() < end;) {
            Scenario s2 = s;
            s2.ops.erase(s2.ops.begin() + (long) i);
            if (attempt(s2, r.dec)) progress = true;
        }
        for (size_t chunk = std::max<size_t>(1, r.dec.size() / 2); wall() < end; chunk /= 2) {
            for (size_t i = 0; i < r.dec.size() && wall() < end;) {
                std::vector<Decision> d2 = r.dec;
                d2.erase(d2.begin() + (long) i, d2.begin() + (long) std::min(d2.size(), i + chunk));
                size_t before = r.dec.size();
                if (attempt(s, d2) && r.dec.size() < before) progress = true;
                else i += chunk;
            }
            if (chunk <= 1) break;
        }
    }
}

std::string esc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char) c < 32) o += ' ';
        else o += c;
    }
    return o;
}

} // namespace

void drawSchedule(Scenario& s, Rng& r) {
    double u = r.unit();
    s.cfg["mode"] = u < 0.6 ? 0 : u < 0.85 ? 1 : 2;
    static const double gaps[] = {2, 4, 8, 16, 32, 64, 128, 256, 512, 2048};
    s.cfg["meanGap"] = gaps[r.below(10)];
    static const double cp[] = {0, 0, 0.01, 0.05, 0.2};
    s.cfg["conflictP"] = cp[r.below(5)];
    static const double sp[] = {0, 0.02, 0.1, 0.3, 0.6};
    s.cfg["syncP"] = sp[r.below(5)];
    s.cfg["pctDepth"] = 1 + (double) r.below(6);
    s.cfg["pctLen"] = 200 * (double) (1 << r.below(7));
    static const double st[] = {1, 20, 1000, 100000};
    s.cfg["stepNs"] = st[r.below(4)];
}

Config configFrom(const Scenario& s) {
    Config c;
    c.mode = (int) s.get("mode");
    c.meanGap = s.get("meanGap", 50);
    c.conflictP = s.get("conflictP");
    c.syncP = s.get("syncP", 0.1);
    c.pctDepth = (int) s.get("pctDepth", 3);
    c.pctLen = (uint64_t) s.get("pctLen", 3000);
    c.stepNs = (uint64_t) s.get("stepNs", 20);
    c.maxSteps = (uint64_t) s.get("maxSteps", 4000000);
    c.fairness = (uint64_t) s.get("fairness", 4000);
    for (auto& kv : s.cfg) {
        if (kv.first.size() == 3 && kv.first[0] == 'f' && kv.first[1] == '.') c.faultP[kv.first[2]] = kv.second;
        if (kv.first.size() == 3 && kv.first[0] == 'b' && kv.first[1] == '.') c.faultBurst[kv.first[2]] = (int) kv.second;
    }
    return c;
}

int runnerMain(int argc, char** argv, System& sys) {
    // identical addresses in every process
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        personality(ADDR_NO_RANDOMIZE | (unsigned long) personality(0xffffffff));
        execv("/proc/self/exe", argv);
        fprintf(stderr, "cannot re-execute\n");
        return 3;
    }
    signal(SIGALRM, onAlarm);
    g_sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> a;
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    if (mode == "replay") {
        Scenario s;
        std::vector<Decision> dec;
        std::string cls;
        uint64_t hash = 0;
        if (!readReplay(a["file"], s, dec, cls, hash)) { fprintf(stderr, "cannot read %s\n", a["file"].c_str()); return 3; }
        sys.prepare(s.prop);
        startZygote(sys);
        Result r = runOnce(sys, s, true, dec);
        printf("verdict %d class %s hash %llu expected-class %s expected-hash %llu\n%s\n", r.verdict, r.cls.c_str(),
               (unsigned long long) r.hash, cls.c_str(), (unsigned long long) hash, r.msg.c_str());
        if (r.verdict == 3) return 3;
        if (r.verdict == 1) return 0;
        return r.cls == cls && r.hash == hash ? 1 : 4;
    }
    if (mode == "hash") { // determinism evidence: prints seed and event hash
        uint64_t from = strtoull(a["from"].c_str(), nullptr, 10), n = strtoull(a["count"].c_str(), nullptr, 10);
        sys.prepare(a["prop"]);
        startZygote(sys);
        for (uint64_t i = 0; i < n; ++i) {
            Scenario s = sys.generate(a["prop"], from + i);
            Result r = runOnce(sys, s, false, {});
            printf("%llu %d %s %llx %llu %d\n", (unsigned long long) (from + i), r.verdict, r.cls.c_str(), (unsigned long long) r.hash,
                   (unsigned long long) g_sh->steps, g_sh->nDec);
            if (a.count("replaycheck")) {
                Result q = runOnce(sys, s, true, r.dec);
                if (q.hash != r.hash || !same(q, r)) {
                    printf("REPLAY MISMATCH %llu %s %llx after %llu steps\n", (unsigned long long) (from + i), q.cls.c_str(), (unsigned long long) q.hash, (unsigned long long) g_sh->steps);
                    for (size_t d = 0; d < std::max(q.dec.size(), r.dec.size()) && d < 20; ++d) {
                        if (d < r.dec.size()) printf("  %c t%d n%llu v%lld", r.dec[d].kind, r.dec[d].tid, (unsigned long long) r.dec[d].n, (long long) r.dec[d].v);
                        if (d < q.dec.size()) printf("  |  %c t%d n%llu v%lld", q.dec[d].kind, q.dec[d].tid, (unsigned long long) q.dec[d].n, (long long) q.dec[d].v);
                        printf("\n");
                    }
                }
            }
        }
        return 0;
    }
    if (mode != "run") { fprintf(stderr, "unknown mode\n"); return 3; }

    std::string prop = a["prop"];
    uint64_t base = strtoull(a["seed"].c_str(), nullptr, 10);
    uint64_t worker = strtoull(a["worker"].c_str(), nullptr, 10), workers = strtoull(a["workers"].c_str(), nullptr, 10);
    double budget = atof(a["budget"].c_str());
    uint64_t maxRuns = a.count("runs") ? strtoull(a["runs"].c_str(), nullptr, 10) : ~0ull;
    std::string out = a["out"], rdir = a["replays"];
    mkdir(rdir.c_str(), 0755);
    sys.prepare(prop);
    startZygote(sys);
    double t0 = wall();
    uint64_t runs = 0, nontriv = 0, steps = 0, switches = 0, simNs = 0, syncOps = 0, decs = 0, unrep = 0;
    uint64_t counters[64] = {0};
    uint64_t runsWith[64] = {0};
    std::unordered_set<uint64_t> inter;
    std::vector<std::string> samples;
    std::string vio;
    for (uint64_t i = worker; wall() - t0 < budget && runs < maxRuns; i += workers) {
        uint64_t seed = base * 1000003ull + i;
        Scenario s = sys.generate(prop, seed);
        Result r = runOnce(sys, s, false, {});
        runs++;
        steps += g_sh->steps; switches += g_sh->switches; simNs += g_sh->simNs; syncOps += g_sh->syncOps; decs += (uint64_t) g_sh->nDec;
        for (int k = 0; k < 64; ++k) { counters[k] += g_sh->counters[k]; runsWith[k] += g_sh->counters[k] > 0; }
        if (sys.nontrivial(*g_sh) && inter.insert(g_sh->ileHash * 31 + g_sh->evHash).second) nontriv++;
        if (samples.size() < 3 && runs % 7 == 1) {
            std::ostringstream o;
            o << "seed " << seed << ": ";
            for (auto& p : s.ops) o << "[client " << p.client << ": " << sys.describe(p) << "] ";
            o << "-> " << g_sh->steps << " steps, " << g_sh->switches << " context switches, " << g_sh->threads + 1 << " threads";
            samples.push_back(o.str());
        }
        if (r.verdict == 3) { fprintf(stderr, "infrastructure error, seed %llu: %s\n", (unsigned long long) seed, r.msg.c_str()); return 3; }
        if (r.verdict == 2) {
            Result again = runOnce(sys, s, false, {});
            if (!same(r, again) || again.hash != r.hash) {
                fprintf(stderr, "seed %llu is not repeatable: %s / %s\n", (unsigned long long) seed, r.cls.c_str(), again.cls.c_str());
                unrep++;
                continue;
            }
            Result rep = runOnce(sys, s, true, r.dec);
            if (!same(r, rep)) { fprintf(stderr, "seed %llu: recorded decisions do not replay (%s / %s)\n", (unsigned long long) seed, r.cls.c_str(), rep.cls.c_str()); unrep++; continue; }
            size_t no = s.ops.size(), nd = r.dec.size();
            r = rep;
            minimise(sys, s, r, a.count("min") ? atof(a["min"].c_str()) : 20);
            std::string path = rdir + "/" + prop + "-" + std::to_string(seed) + ".replay";
            writeReplay(sys, path, s, r, no, nd);
            std::ostringstream o;
            o << "{\"seed\":" << seed << ",\"class\":\"" << esc(r.cls) << "\",\"message\":\"" << esc(r.msg) << "\",\"replay\":\"" << esc(path) << "\"}";
            vio = o.str();
            break;
        }
    }
    std::ofstream o(out);
    o << "{\"runs\":" << runs << ",\"unrepeatable\":" << unrep << ",\"nontrivial\":" << nontriv << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"syncOps\":" << syncOps
      << ",\"simSeconds\":" << simNs * 1e-9 << ",\"decisions\":" << decs << ",\"wall\":" << wall() - t0 << ",\"counters\":{";
    auto names = sys.counterNames();
    bool first = true;
    for (size_t k = 0; k < names.size(); ++k)
        if (names[k][0]) { o << (first ? "" : ",") << "\"" << names[k] << "\":[" << counters[k] << "," << runsWith[k] << "]"; first = false; }
    o << "},\"samples\":[";
    for (size_t k = 0; k < samples.size(); ++k) o << (k ? "," : "") << "\"" << esc(samples[k]) << "\"";
    o << "],\"hashes\":[";
    first = true;
    for (uint64_t h : inter) { o << (first ? "" : ",") << h; first = false; }
    o << "]" << (vio.empty() ? "" : ",\"violation\":" + vio) << "}\n";
    o.close();
    return vio.empty() ? 0 : 1;
}

} // namespace sim
