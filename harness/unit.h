// Frame of the component drivers:  exe SEED NTRACES LEN OUT [SCRIPT]
// A component is driven by text operations, drawn at random or read from a
// script ("cfg|op;op;..."), and every operation appends one event to the trace.
#pragma once
#include "runner.h"
#include <fstream>
#include <memory>

namespace vf {
struct Comp {
    Trace* tr = nullptr;
    std::string dir;
    virtual ~Comp() {}
    virtual std::string genCfg(Rng&) { return ""; }
    virtual void begin(const std::string& cfg) = 0;      // sets tr->cfg (JSON)
    virtual std::string genOp(Rng&) = 0;
    virtual void exec(const std::string& op) = 0;
    virtual void finish() {}
};

struct Words {                                            // "op a b c"
    std::vector<std::string> w;
    explicit Words(const std::string& s) { std::stringstream ss(s); std::string x; while (ss >> x) w.push_back(x); }
    const std::string& op() const { static std::string e; return w.empty() ? e : w[0]; }
    long long i(size_t n, long long dflt = 0) const { return n < w.size() ? atoll(w[n].c_str()) : dflt; }
    std::string s(size_t n) const { return n < w.size() ? w[n] : ""; }
};

inline std::string fmt(const char* f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

inline int unitMain(int argc, char** argv, std::function<Comp*()> make, int hang = 30, int group = 50) {
    if (argc < 5) return 2;
    uint64_t seed = strtoull(argv[1], 0, 10); int n = atoi(argv[2]), len = atoi(argv[3]); std::string out = argv[4];
    std::string root = scratch_root() + fmt("/u_%d", (int)getpid());
    mk_dir(root);
    std::vector<std::string> scripts;
    if (argc > 5) { std::ifstream in(argv[5]); std::string l; while (std::getline(in, l)) if (!l.empty()) scripts.push_back(l); n = scripts.size(); }
    unlink((out + ".scripts").c_str());
    auto name = [&](int i) { return fmt("u-%llu-%d", (unsigned long long)seed, i); };
    auto body = [&](int i, FILE* g) {
        Rng r(seed * 1000003 + i);
        std::unique_ptr<Comp> c(make());
        Trace t; t.name = name(i); c->tr = &t; c->dir = root + fmt("/t%d", i);
        mk_dir(c->dir);
        std::string cfg = scripts.empty() ? c->genCfg(r) : scripts[i].substr(0, scripts[i].find('|'));
        progressReset(cfg);
        c->begin(cfg);
        std::string script;
        auto doOp = [&](const std::string& op) { progress(op); script += op + ";"; c->exec(op); };
        if (!scripts.empty()) {
            std::stringstream ss(scripts[i].substr(scripts[i].find('|') + 1)); std::string op;
            while (std::getline(ss, op, ';')) if (!op.empty()) doOp(op);
        } else {
            for (int k = 0; k < len; ++k) { std::string op = c->genOp(r); if (!op.empty()) doOp(op); }
        }
        c->finish();
        t.write(g);
        if (FILE* sf = fopen((out + ".scripts").c_str(), "a")) { fprintf(sf, "%s|%s|%s\n", t.name.c_str(), cfg.c_str(), script.c_str()); fclose(sf); }
        c.reset();
        rm_tree(root + fmt("/t%d", i));
    };
    int rc = runTraces(out, n, hang, group, [] {}, [] {}, body,
        [&](int i, const std::string& script, const std::string& why) {
            std::unique_ptr<Comp> c(make());
            Trace t; t.name = name(i); c->tr = &t; c->dir = root;
            std::string flat; for (char ch : script) flat.push_back(ch == '\n' ? ';' : ch);
            t.cfg = "{\"crashed\":1}";
            t.add(J().str("op", "crash").str("why", why).str("script", flat));
            return "{\"name\":\"" + t.name + "\",\"cfg\":" + t.cfg + ",\"ev\":[" + t.ev[0] + "]}"; });
    rm_tree(root);
    return rc;
}

// Run-length encoding of bytes: [[byte,count],...]
inline std::string rle(const void* p, size_t n) {
    const uint8_t* b = (const uint8_t*)p; std::string s = "[";
    for (size_t i = 0; i < n;) { size_t j = i; while (j < n && b[j] == b[i]) ++j; if (i) s += ','; s += fmt("[%d,%zu]", b[i], j - i); i = j; }
    return s + "]";
}
inline std::string jbytes(const void* p, size_t n) {
    const uint8_t* b = (const uint8_t*)p; std::string s = "[";
    for (size_t i = 0; i < n; ++i) { if (i) s += ','; s += std::to_string(b[i]); }
    return s + "]";
}
}  // namespace vf
