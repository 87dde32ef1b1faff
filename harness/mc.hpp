// Protocol between a C++ explorer and mc/core.py.
//
//   mc::init(argc, argv);
//   for every choice sequence of the bounded space:
//       if (!mc::want("id of the case")) continue;   // sharding, replay, breadcrumb for crashes
//       ... run the real code ...
//       mc::fail_if(cond, "what", "detail");
//   return mc::finish();
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mc {
struct Violation { std::string key, detail, cs; };
struct State {
    std::string out, only, cur_id, tier = "quick";
    unsigned shard = 0, shards = 1;
    uint64_t counter = 0, evaluations = 0, nontrivial = 0;
    int64_t states = -1, transitions = 0;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> outcomes;
    std::vector<Violation> violations;
    std::map<std::string, uint64_t> per_key;
    char *cur = nullptr;
    std::vector<std::string> rest;
    uint64_t sample_every = 1;
};
inline State &S() { static State s; return s; }
constexpr size_t CURSZ = 1 << 16;

inline void init(int argc, char **argv) {
    State &s = S();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--out") s.out = nxt();
        else if (a == "--only") s.only = nxt();
        else if (a == "--tier") s.tier = nxt();
        else if (a == "--shard") { sscanf(argv[++i], "%u/%u", &s.shard, &s.shards); }
        else if (a == "--cur") {
            int fd = open(argv[++i], O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, CURSZ) == 0)
                s.cur = (char *)mmap(0, CURSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        } else s.rest.push_back(a);
    }
}
inline bool thorough() { return S().tier == "thorough"; }

// Is this case ours to run?  (also leaves the breadcrumb used when it crashes)
inline bool want(const std::string &id) {
    State &s = S();
    uint64_t n = s.counter++;
    if (!s.only.empty()) { if (id != s.only) return false; }
    else if (n % s.shards != s.shard) return false;
    s.evaluations++;
    s.cur_id = id;
    if (s.cur) { size_t l = std::min(id.size(), CURSZ - 1); memcpy(s.cur, id.data(), l); s.cur[l] = 0; }
    return true;
}
// is the whole shard-unit (prefix) ours? used when one unit expands to many evaluations
inline void nontrivial(uint64_t n = 1) { S().nontrivial += n; }
inline void sample(const std::string &x, size_t limit = 3) { if (S().samples.size() < limit) S().samples.push_back(x); }
inline void outcome(const std::string &x, uint64_t n = 1) { S().outcomes[x] += n; }
inline void fail(const std::string &what, const std::string &detail, const std::string &cs = "") {
    State &s = S();
    std::string c = cs.empty() ? s.cur_id : cs;
    if (s.per_key[what]++ >= 8) return;
    s.violations.push_back({what + "@" + c, detail, s.cur_id});
}
inline bool require(bool ok, const std::string &what, const std::string &detail) { if (!ok) fail(what, detail); return ok; }

inline std::string esc(const std::string &x) {
    std::string r;
    for (unsigned char c : x) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
inline int finish() {
    State &s = S();
    FILE *f = s.out.empty() ? stdout : fopen(s.out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,", (unsigned long long)s.evaluations, (unsigned long long)s.nontrivial);
    if (s.states >= 0) fprintf(f, "\"states\":%lld,\"transitions\":%lld,", (long long)s.states, (long long)s.transitions);
    fprintf(f, "\"samples\":[");
    for (size_t i = 0; i < s.samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(s.samples[i]).c_str());
    fprintf(f, "],\"outcomes\":{");
    size_t n = 0;
    for (auto &o : s.outcomes) fprintf(f, "%s\"%s\":%llu", n++ ? "," : "", esc(o.first).c_str(), (unsigned long long)o.second);
    fprintf(f, "},\"violations\":[");
    for (size_t i = 0; i < s.violations.size(); i++)
        fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\",\"case\":\"%s\"}", i ? "," : "", esc(s.violations[i].key).c_str(), esc(s.violations[i].detail).c_str(), esc(s.violations[i].cs).c_str());
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    fflush(0);
    _exit(0); // no static destructors: they are not what is explored
}

// printf to std::string
template <class... A> std::string fmt(const char *f, A... a) {
    int n = snprintf(nullptr, 0, f, a...);
    std::string r(n, 0);
    snprintf(&r[0], n + 1, f, a...);
    return r;
}
inline bool close(double a, double b, double tol) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}
} // namespace mc
