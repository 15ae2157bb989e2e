// Online monitor shared by every harness of /verif.
//
// A harness is a program that drives the real diskpp code through many
// generated cases; every comparison the oracles make goes through this header,
// so that the evidence shows what was observed (how often each monitor fired,
// how close it came to its tolerance, how many different situations it saw).
//
// Verdict vocabulary: an event is "held" or "violated"; a case may be skipped
// with a stated reason (precondition absent), and skipped cases are never
// counted as held.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mon {

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

struct Event { uint64_t n = 0; double worst = 0.0; uint64_t bad = 0; std::string worst_case; };

struct Violation { std::string key, cas, msg; };

struct State {
    std::string prop, tier = "quick", out, journal, only, scratch;
    long seed = 1;
    std::map<std::string, Event> events;
    std::set<uint64_t> sigs;
    std::vector<std::string> samples;
    std::vector<Violation> viol;
    std::map<std::string, uint64_t> violcount;
    std::map<std::string, uint64_t> skips;
    uint64_t cases = 0, nontrivial_cases = 0;
    std::string cur = "-";
    uint64_t cur_events = 0;
    int jfd = -1;
};
inline State& st() { static State s; return s; }

inline bool thorough() { return st().tier == "thorough"; }
/* pick a count by tier */
inline size_t n_of(size_t quick, size_t deep) { return thorough() ? deep : quick; }

inline std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline void violate(const std::string& key, const std::string& msg)
{
    auto& s = st();
    if (s.violcount[key]++ < 3 && s.viol.size() < 400)
        s.viol.push_back({key, s.cur, msg});
}

/* boolean monitor */
inline bool check(const std::string& key, bool ok, const std::string& msg = "")
{
    auto& s = st();
    auto& e = s.events[key];
    e.n++; s.cur_events++;
    if (!ok) { e.bad++; violate(key, msg); }
    return ok;
}

template<typename F>
inline bool check_f(const std::string& key, bool ok, F&& msgf)
{
    if (ok) return check(key, true);
    return check(key, false, msgf());
}

/* numeric monitor: err must not exceed tol (NaN never does) */
inline bool near(const std::string& key, double err, double tol, const std::string& msg = "")
{
    auto& s = st();
    auto& e = s.events[key];
    e.n++; s.cur_events++;
    double r = err / tol;
    if (!(r <= e.worst)) { e.worst = std::isfinite(r) ? r : 1e300; e.worst_case = s.cur; }
    if (!(err <= tol)) {
        e.bad++;
        std::ostringstream ss; ss.precision(6);
        ss << "error " << err << " exceeds tolerance " << tol << (msg.empty() ? "" : "; ") << msg;
        violate(key, ss.str());
        return false;
    }
    return true;
}
/* relative comparison of two scalars with an absolute scale */
inline bool same(const std::string& key, double got, double want, double rel, double scale = 0.0,
                 const std::string& msg = "")
{
    double sc = std::max({std::abs(want), std::abs(scale), 1e-300});
    std::ostringstream ss; ss.precision(12);
    ss << "got " << got << " want " << want << (msg.empty() ? "" : "; ") << msg;
    double err = std::abs(got - want);
    return near(key, err / sc, rel, ss.str());
}

inline void sig(const std::string& s)
{
    auto& t = st();
    if (t.sigs.insert(fnv(s)).second && t.samples.size() < 40 &&
        (t.sigs.size() <= 8 || t.sigs.size() % 23 == 0))
        t.samples.push_back(s);
}
inline void skip(const std::string& why) { st().skips[why]++; }

struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s) {}
    double real(double a, double b) { return a + (b - a) * ((g() >> 11) * (1.0 / 9007199254740992.0)); }
    long integer(long a, long b) { return a + (long)(g() % (uint64_t)(b - a + 1)); }
    bool coin(double p = 0.5) { return real(0, 1) < p; }
    double normal() { double s = 0; for (int i = 0; i < 12; i++) s += real(0, 1); return s - 6; }
    template<typename V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i-1], v[g() % i]); }
};

inline void jwrite(const std::string& line)
{
    if (st().jfd < 0) return;
    std::string l = line + "\n";
    (void)!::write(st().jfd, l.data(), l.size());
}

inline std::string dump_json();

inline void init(int argc, char **argv, const std::string& prop)
{
    auto& s = st();
    s.prop = prop;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return (i + 1 < argc) ? argv[++i] : ""; };
        if (a == "--seed") s.seed = atol(val().c_str());
        else if (a == "--tier") s.tier = val();
        else if (a == "--out") s.out = val();
        else if (a == "--journal") s.journal = val();
        else if (a == "--only") s.only = val();
        else if (a == "--scratch") s.scratch = val();
    }
    if (!s.journal.empty())
        s.jfd = ::open(s.journal.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    jwrite("START");
}

/* Run one case. The id must not depend on the seed only through a counter: the
   case's random stream is a function of (seed, id), so that any case can be
   replayed alone with --only id. */
template<typename F>
void run_case(const std::string& id, F&& f)
{
    auto& s = st();
    if (!s.only.empty() && s.only != id) return;
    s.cur = id; s.cur_events = 0; s.cases++;
    jwrite("CASE " + id);
    Rng rng(fnv(id, 1469598103934665603ull ^ (uint64_t)s.seed * 0x9e3779b97f4a7c15ull));
    try { f(rng); }
    catch (const std::exception& e) { check("no-exception", false, std::string("unexpected exception: ") + e.what()); }
    catch (...) { check("no-exception", false, "unexpected exception of unknown type"); }
    if (s.cur_events) s.nontrivial_cases++;
    jwrite("DONE " + id);
    s.cur = "-";
}

struct IsoResult { bool crashed = false, hung = false; int status = 0; std::string text; };

/* Run f in a forked child with CPU and wall limits; stdout/stderr of the child
   are captured. Used for inputs which may legitimately be refused by the code
   (exit, exception) but must not corrupt memory or hang. */
template<typename F>
IsoResult isolated(F&& f, int cpu_s = 20, const std::string& capture = "")
{
    IsoResult r;
    char tmpl[] = "/tmp/moniso.XXXXXX";
    int fd = mkstemp(tmpl);
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        dup2(fd, 1); dup2(fd, 2);
        struct rlimit rl{(rlim_t)cpu_s, (rlim_t)cpu_s + 2}; setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
        if (st().jfd >= 0) close(st().jfd);
        alarm(cpu_s * 6 + 30);
        int rcod = 0;
        try { rcod = f(); }
        catch (const std::exception& e) { std::cout << "EXCEPTION " << e.what() << std::endl; rcod = 42; }
        catch (...) { std::cout << "EXCEPTION ?" << std::endl; rcod = 42; }
        std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
        _exit(rcod);
    }
    int status = 0; waitpid(p, &status, 0);
    r.status = status;
    lseek(fd, 0, SEEK_SET);
    char buf[4096]; ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0 && r.text.size() < 200000) r.text.append(buf, n);
    close(fd); unlink(tmpl);
    if (WIFSIGNALED(status)) {
        int sg = WTERMSIG(status);
        if (sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL) r.hung = true; else r.crashed = true;
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == 99) r.crashed = true; // sanitizer exit code
    return r;
}

inline std::string dump_json()
{
    auto& s = st();
    std::ostringstream o; o.precision(6);
    o << "{\"prop\":\"" << s.prop << "\",\"seed\":" << s.seed << ",\"tier\":\"" << s.tier << "\",\"cases\":" << s.cases
      << ",\"nontrivial_cases\":" << s.nontrivial_cases << ",\"distinct\":" << s.sigs.size() << ",\"events\":{";
    bool first = true;
    for (auto& [k, e] : s.events) {
        if (!first) o << ","; first = false;
        o << "\"" << esc(k) << "\":{\"n\":" << e.n << ",\"bad\":" << e.bad << ",\"worst_over_tol\":" << e.worst
          << ",\"worst_case\":\"" << esc(e.worst_case) << "\"}";
    }
    o << "},\"skips\":{"; first = true;
    for (auto& [k, n] : s.skips) { if (!first) o << ","; first = false; o << "\"" << esc(k) << "\":" << n; }
    o << "},\"sigs\":["; first = true;
    for (auto& h : s.sigs) { if (!first) o << ","; first = false; o << "\"" << std::hex << h << std::dec << "\""; }
    o << "],\"samples\":["; first = true;
    for (auto& h : s.samples) { if (!first) o << ","; first = false; o << "\"" << esc(h) << "\""; }
    o << "],\"violations\":["; first = true;
    for (auto& v : s.viol) {
        if (!first) o << ","; first = false;
        o << "{\"key\":\"" << esc(v.key) << "\",\"case\":\"" << esc(v.cas) << "\",\"msg\":\"" << esc(v.msg) << "\",\"count\":" << s.violcount[v.key] << "}";
    }
    o << "]}";
    return o.str();
}

inline int finish()
{
    auto& s = st();
    std::string j = dump_json();
    if (!s.out.empty()) { std::ofstream f(s.out); f << j << "\n"; }
    else {
        for (auto& [k, e] : s.events)
            printf("%-60s n=%-8lu bad=%-6lu worst/tol=%.3g  (%s)\n", k.c_str(), e.n, e.bad, e.worst, e.worst_case.c_str());
        for (auto& [k, n] : s.skips) printf("SKIP %s %lu\n", k.c_str(), n);
        for (auto& v : s.viol) printf("VIOL %s case=%s (x%lu): %s\n", v.key.c_str(), v.cas.c_str(), s.violcount[v.key], v.msg.c_str());
        printf("cases=%lu nontrivial=%lu distinct=%lu\n", s.cases, s.nontrivial_cases, s.sigs.size());
    }
    jwrite("FINISHED");
    return 0;
}

template<typename... A>
std::string cat(const A&... a) { std::ostringstream o; o.precision(10); (o << ... << a); return o.str(); }

} // namespace mon
