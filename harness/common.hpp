// Shared plumbing of all harnesses: sharding, current-case record (so that a
// crash or hang is attributed to the case that caused it), violation log,
// counters.  Protocol: one JSON object per line in --out.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <fstream>

namespace vf {

struct Ctx {
    std::string prop, tier = "quick", only, part;
    int shard = 0, nshards = 1;
    FILE *out = stdout;
    char *cur = nullptr;              // mmapped current case
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    std::string curCase;
    int nviol = 0;
    uint64_t caseIndex = 0;
    bool verbose = false;
};
inline Ctx &ctx() { static Ctx c; return c; }
const size_t CUR_SIZE = 1 << 16;

#ifdef __SANITIZE_ADDRESS__
inline bool san() { return true; }      // slower build that also detects memory errors: smaller space
#else
inline bool san() { return false; }
#endif
inline bool thorough() { return ctx().tier == "thorough"; }

inline std::string jesc(const std::string &s) {
    std::string r = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline std::string fmt(const char *f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline void count(const char *name, uint64_t n = 1) { ctx().counters[name] += n; }

inline void onAlarm(int) {
    static const char m[] = "{\"hang\":true}\n";
    Ctx &c = ctx();
    (void)!write(fileno(c.out), m, sizeof m - 1);
    _exit(77);
}
// arm the hang watchdog afresh (called for every case)
inline void armWatchdog(int seconds) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);   // CPU time: independent of the machine's load
}
inline int &watchdogSeconds() { static int s = 120; return s; }

inline void setDetail(const std::string &d) {   // refine the current case (operation history)
    Ctx &c = ctx();
    if(c.cur) {
        size_t n = strlen(c.curCase.c_str());
        if(n > CUR_SIZE - 2) return;
        size_t m = std::min(d.size(), CUR_SIZE - n - 4);
        c.cur[n] = ' '; memcpy(c.cur + n + 1, d.data(), m); c.cur[n + 1 + m] = 0;
    }
}
inline void setCase(const std::string &s) {
    Ctx &c = ctx();
    c.curCase = s.substr(0, CUR_SIZE / 2);
    if(c.cur) { memcpy(c.cur, c.curCase.data(), c.curCase.size()); c.cur[c.curCase.size()] = 0; }
    armWatchdog(watchdogSeconds());
}
// returns true iff this shard has to run the case (and records it as current)
inline bool mine(const std::string &id) {
    Ctx &c = ctx();
    uint64_t i = c.caseIndex++;
    if(!c.only.empty()) { if(id != c.only) return false; }
    else if((int)(i % c.nshards) != c.shard) return false;
    setCase(id);
    count("cases");
    if(c.samples.size() < 3 || (c.samples.size() < 6 && (i % 97) == 0)) c.samples.push_back(id);
    return true;
}
inline void viol(const std::string &sig, const std::string &detail) {
    Ctx &c = ctx();
    ++c.nviol;
    if(c.nviol <= 25) {
        fprintf(c.out, "{\"viol\":true,\"sig\":%s,\"case\":%s,\"detail\":%s}\n",
                jesc(sig).c_str(), jesc(c.curCase).c_str(), jesc(detail).c_str());
        fflush(c.out);
    }
    if(c.verbose) fprintf(stderr, "VIOL %s | %s | %s\n", sig.c_str(), c.curCase.c_str(), detail.c_str());
}
inline bool tooMany() { return ctx().nviol >= 25; }

inline void init(int argc, char **argv) {
    Ctx &c = ctx();
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if(a == "--prop") c.prop = nxt();
        else if(a == "--tier") c.tier = nxt();
        else if(a == "--only") c.only = nxt();
        else if(a == "--part") c.part = nxt();
        else if(a == "--watchdog") watchdogSeconds() = atoi(nxt().c_str());
        else if(a == "--verbose") c.verbose = true;
        else if(a == "--shard") { std::string s = nxt(); sscanf(s.c_str(), "%d/%d", &c.shard, &c.nshards); }
        else if(a == "--out") { c.out = fopen(nxt().c_str(), "w"); }
        else if(a == "--cur") {
            int fd = open(nxt().c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            (void)!ftruncate(fd, CUR_SIZE);
            c.cur = (char *)mmap(nullptr, CUR_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        }
    }
    signal(SIGPROF, onAlarm);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if(!c.verbose) {   // the code under test is chatty on stderr/stdout
        static std::ofstream *dummy = nullptr; (void)dummy;
        std::cerr.rdbuf(nullptr);
        std::cout.rdbuf(nullptr);
    }
}
inline int finish() {
    Ctx &c = ctx();
    armWatchdog(0);
    fprintf(c.out, "{\"done\":true,\"viols\":%d,\"counters\":{", c.nviol);
    bool first = true;
    for(auto &k : c.counters) { fprintf(c.out, "%s%s:%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(c.out, "},\"samples\":[");
    for(size_t i = 0; i < c.samples.size(); ++i) fprintf(c.out, "%s%s", i ? "," : "", jesc(c.samples[i]).c_str());
    fprintf(c.out, "]}\n");
    fflush(c.out);
    return 0;
}
inline uint64_t hash64(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for(unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
    return h;
}
// 128-bit state key (explored states are compared by this key)
struct Key { uint64_t a, b; bool operator<(const Key &o) const { return a != o.a ? a < o.a : b < o.b; } };
inline Key keyOf(const std::string &s) { return Key{hash64(s), hash64(s, 0x9E3779B97F4A7C15ull)}; }
} // namespace vf
#include <unordered_set>
namespace vf {
// counts distinct values (per shard) of explored states
struct Distinct { std::unordered_set<uint64_t> seen; uint64_t h = 0;
    void begin() { h = 1469598103934665603ull; }
    void add(uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
    void add(double d) { uint64_t v; memcpy(&v, &d, 8); add(v); }
    void end() { seen.insert(h); } };
}
