// Shared by every driver: PRNG, trace (ndjson) writer, key universes, values.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <ftw.h>
#include <sys/stat.h>

namespace vf {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(0) {      // hashed, so that streams of nearby seeds are unrelated
        uint64_t z = seed + 0x1234567; for (int i = 0; i < 3; ++i) { z = (z ^ (z >> 33)) * 0xff51afd7ed558ccdull; z ^= z >> 29; z += 0x2545F4914F6CDD1Dull; }
        s = z;
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below(b - a + 1); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// One JSON object under construction.  Everything the specifications read is an
// integer, a string, a bool or an array of those/objects.
struct J {
    std::string s;
    bool first = true;
    J() : s("{") {}
    void key(const char* k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
    J& i(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
    J& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    J& str(const char* k, const std::string& v) { key(k); s += '"' + v + '"'; return *this; }
    J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
    J& arr(const char* k, const std::vector<long long>& v) {
        key(k); s += '[';
        for (size_t x = 0; x < v.size(); ++x) { if (x) s += ','; s += std::to_string(v[x]); }
        s += ']'; return *this;
    }
    std::string done() const { return s + "}"; }
};
inline std::string jlist(const std::vector<std::string>& v) {
    std::string s = "[";
    for (size_t x = 0; x < v.size(); ++x) { if (x) s += ','; s += v[x]; }
    return s + "]";
}

struct Trace {
    std::vector<std::string> ev;
    std::string cfg = "{}";
    std::string name;
    void add(const J& j) { ev.push_back(j.done()); }
    void write(FILE* f) const {
        fprintf(f, "{\"name\":\"%s\",\"cfg\":%s,\"ev\":[", name.c_str(), cfg.c_str());
        for (size_t x = 0; x < ev.size(); ++x) fprintf(f, "%s%s", x ? "," : "", ev[x].c_str());
        fprintf(f, "]}\n");
        fflush(f);
    }
};

// Values and metas are drawn from a dictionary: the specification sees the
// identifier; bytes that are no dictionary entry are reported as -1.
struct Dict {
    std::map<std::string, int> ids;
    std::deque<std::string> vals;
    Dict() { add(""); }
    int add(const std::string& s) {
        auto it = ids.find(s);
        if (it != ids.end()) return it->second;
        int id = (int)vals.size();
        vals.push_back(s); ids[s] = id;
        return id;
    }
    // Deterministic bytes for identifier `id` (id >= 1).
    static std::string gen(int id, size_t len) {
        std::string s = std::to_string(id) + "#";
        Rng r(id * 7919 + len);
        bool compressible = id % 3 == 0;
        while (s.size() < len) s.push_back(compressible ? (char)('a' + (s.size() / 64) % 4) : (char)r.below(256));
        return s;
    }
    const std::string& get(int id, size_t len) {
        while ((int)vals.size() <= id) { std::string g = gen((int)vals.size(), len); int n = add(g); (void)n; }
        return vals[id];
    }
    int find(const void* p, size_t n) const {
        auto it = ids.find(std::string((const char*)p, n));
        return it == ids.end() ? -1 : it->second;
    }
};

inline std::string scratch_root() {
    const char* e = getenv("VF_SCRATCH");
    if (e && *e) return e;
    fprintf(stderr, "VF_SCRATCH not set\n");
    exit(2);
}

// Removes a directory tree, only ever below the scratch root.
inline void rm_tree(const std::string& p) {
    std::string root = scratch_root();
    if (p.compare(0, root.size() + 1, root + "/") != 0 || p.find("..") != std::string::npos) return;
    nftw(p.c_str(), [](const char* f, const struct stat*, int, struct FTW*) -> int { return ::remove(f); }, 64, FTW_DEPTH | FTW_PHYS);
}
inline void mk_dir(const std::string& p) { ::mkdir(p.c_str(), 0755); }

}  // namespace vf
