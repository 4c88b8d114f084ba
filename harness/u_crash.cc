#undef _FILE_OFFSET_BITS      // both names of each file call are defined below
// Driver of crashes: histories of one DB during which every change of a file is
// recorded; the run is then cut at some file operation, the directory as a crash
// at that point may leave it is built, and the history goes on from there.
//
// Script: "cfg|op;op;...;crash K M R;op;..."  - crash during the op before it,
// after K file operations of that op, loss mode M (seed R):
//   0 the process dies: nothing written is lost
//   1 power loss: everything written to a file since its last fsync is lost
//   2 power loss: of these writes, each file keeps some first ones, the last of them torn
#include "runner.h"
#include "kvgen.h"
#include <dlfcn.h>
#include <fstream>
#include <mutex>
using namespace vf;

namespace rec {
struct Op { char k; int id; std::string path; uint64_t off; std::string data; };   // C create W write T truncate S fsync U unlink M mkdir
static std::mutex m; static bool on = false; static std::string root;
static std::vector<Op> log; static std::map<std::string, int> byPath; static std::map<int, int> byFd; static int nid = 0;
static bool in(const char* p) { return on && p && !strncmp(p, root.c_str(), root.size()) && p[root.size()] == '/'; }
static std::string rel(const char* p) { std::string s = p + root.size() + 1, o; for (char c : s) if (c != '/' || o.empty() || o.back() != '/') o.push_back(c); return o; }
static void opened(const char* p, int fd, int flags, bool existed) {
    std::lock_guard<std::mutex> l(m); std::string r = rel(p);
    if (!existed || !byPath.count(r)) { byPath[r] = ++nid; log.push_back({existed ? 'E' : 'C', nid, r, 0, ""}); }
    byFd[fd] = byPath[r];
    if ((flags & O_TRUNC) && existed) log.push_back({'T', byPath[r], "", 0, ""});
}
static int fdId(int fd) { auto i = byFd.find(fd); return i == byFd.end() ? 0 : i->second; }
}
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name, type) static auto r_ = real<type>(name)
static int myOpen(const char* name, const char* p, int flags, int mode) {
    typedef int (*F)(const char*, int, ...); F f = real<F>(name);
    if (!rec::in(p) || !(flags & (O_WRONLY | O_RDWR))) return f(p, flags, mode);
    struct stat st; bool ex = ::stat(p, &st) == 0;
    int fd = f(p, flags, mode); if (fd >= 0) rec::opened(p, fd, flags, ex); return fd;
}
static ssize_t myWrite(int fd, const void* b, ssize_t n, off_t off) {
    if (rec::on && n > 0) { std::lock_guard<std::mutex> l(rec::m); if (int id = rec::fdId(fd)) rec::log.push_back({'W', id, "", (uint64_t)off, std::string((const char*)b, n)}); }
    return n;
}
extern "C" {
int open(const char* p, int flags, ...) { va_list a; va_start(a, flags); int md = va_arg(a, int); va_end(a); return myOpen("open", p, flags, md); }
int open64(const char* p, int flags, ...) { va_list a; va_start(a, flags); int md = va_arg(a, int); va_end(a); return myOpen("open64", p, flags, md); }
int close(int fd) { REAL("close", int (*)(int)); if (rec::on) { std::lock_guard<std::mutex> l(rec::m); rec::byFd.erase(fd); } return r_(fd); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { REAL("pwrite", ssize_t (*)(int, const void*, size_t, off_t)); return myWrite(fd, b, r_(fd, b, n, o), o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { REAL("pwrite64", ssize_t (*)(int, const void*, size_t, off64_t)); return myWrite(fd, b, r_(fd, b, n, o), o); }
ssize_t write(int fd, const void* b, size_t n) { REAL("write", ssize_t (*)(int, const void*, size_t));
    off_t o = 0; if (rec::on && rec::fdId(fd)) o = ::lseek(fd, 0, SEEK_CUR); return myWrite(fd, b, r_(fd, b, n), o); }
static void truncated(int r, int fd, off_t n) { if (r == 0 && rec::on) { std::lock_guard<std::mutex> l(rec::m); if (int id = rec::fdId(fd)) rec::log.push_back({'T', id, "", (uint64_t)n, ""}); } }
int ftruncate(int fd, off_t n) noexcept { REAL("ftruncate", int (*)(int, off_t)); int r = r_(fd, n); truncated(r, fd, n); return r; }
int ftruncate64(int fd, off64_t n) noexcept { REAL("ftruncate64", int (*)(int, off64_t)); int r = r_(fd, n); truncated(r, fd, n); return r; }
static int synced(int r, int fd) { if (r == 0 && rec::on) { std::lock_guard<std::mutex> l(rec::m); if (int id = rec::fdId(fd)) rec::log.push_back({'S', id, "", 0, ""}); } return r; }
int fsync(int fd) { REAL("fsync", int (*)(int)); return rec::on && rec::fdId(fd) ? synced(0, fd) : r_(fd); }
int fdatasync(int fd) { REAL("fdatasync", int (*)(int)); return rec::on && rec::fdId(fd) ? synced(0, fd) : r_(fd); }
static int removed(int r, const char* p) { if (r == 0 && rec::in(p)) { std::lock_guard<std::mutex> l(rec::m); std::string x = rec::rel(p); rec::byPath.erase(x); rec::log.push_back({'U', 0, x, 0, ""}); } return r; }
int unlink(const char* p) noexcept { REAL("unlink", int (*)(const char*)); return removed(r_(p), p); }
int remove(const char* p) noexcept { REAL("remove", int (*)(const char*)); return removed(r_(p), p); }
int mkdir(const char* p, mode_t md) noexcept { REAL("mkdir", int (*)(const char*, mode_t)); int r = r_(p, md);
    if (r == 0 && rec::in(p)) { std::lock_guard<std::mutex> l(rec::m); rec::log.push_back({'M', 0, rec::rel(p), 0, ""}); } return r; }
}

struct Image { std::map<std::string, std::string> files; std::set<std::string> dirs; };

static void applyOp(std::string& f, const rec::Op& o, size_t torn = (size_t)-1) {
    if (o.k == 'T') { f.resize(o.off); return; }
    size_t n = std::min(o.data.size(), torn);
    if (f.size() < o.off + n) f.resize(o.off + n);
    f.replace(o.off, n, o.data, 0, n);
}
static Image crashImage(const Image& base, const std::vector<rec::Op>& log, size_t upto, int mode, uint64_t seed) {
    Image im; im.dirs = base.dirs;
    std::map<std::string, int> names; std::map<int, std::string> data; std::map<int, std::vector<const rec::Op*>> pend;
    int id = -1; for (auto& e : base.files) { names[e.first] = id; data[id] = e.second; --id; }
    std::map<int, int> alias;                                 // recorder's id -> ours
    for (size_t i = 0; i < upto && i < log.size(); ++i) {
        const rec::Op& o = log[i];
        int d = alias.count(o.id) ? alias[o.id] : o.id;
        switch (o.k) {
        case 'E': if (names.count(o.path)) { alias[o.id] = names[o.path]; break; }   // else: unknown, as created
        case 'C': names[o.path] = o.id; data[o.id]; break;
        case 'W': case 'T': if (mode == 0) applyOp(data[d], o); else pend[d].push_back(&o); break;
        case 'S': for (auto* p : pend[d]) applyOp(data[d], *p); pend[d].clear(); break;
        case 'U': names.erase(o.path); break;
        case 'M': im.dirs.insert(o.path); break;
        }
    }
    Rng r(seed);
    if (mode == 2) for (auto& e : names) {
        auto& v = pend[e.second]; size_t k = r.below(v.size() + 1);
        for (size_t i = 0; i < k; ++i) applyOp(data[e.second], *v[i]);
        if (k < v.size() && v[k]->k == 'W' && r.chance(50)) applyOp(data[e.second], *v[k], r.below(v[k]->data.size()));
    }
    for (auto& e : names) im.files[e.first] = data[e.second];
    return im;
}

struct Segment {                       // what one process did
    std::vector<std::string> ev, script; std::vector<size_t> end; std::vector<rec::Op> log;
};
static void put(FILE* f, const std::string& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
static std::string get(FILE* f) { uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) exit(2); std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) exit(2); return s; }
static void putn(FILE* f, uint64_t n) { fwrite(&n, 8, 1, f); }
static uint64_t getn(FILE* f) { uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) exit(2); return n; }

static int segNo = 0;
// Runs `body` on a DB directory holding `im`, in a process of its own.
static Segment segment(const Cfg& c, const Image& im, const std::string& root, std::function<void(Exec&)> body) {
    std::string dir = root + "/s" + std::to_string(segNo++), res = dir + ".res";
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Exec ex; Segment sg;
        ex.begin(c, dir, "x");
        for (auto& d : im.dirs) mk_dir(dir + "/" + d);
        for (auto& e : im.files) { FILE* f = fopen((dir + "/" + e.first).c_str(), "w"); if (!f) _exit(2); fwrite(e.second.data(), 1, e.second.size(), f); fclose(f); }
        GlobalConfig g = quietGlobal(root); g.shutdownLogger = false; g.logFileReclaimerSleep_sec = 1000;
        DB::init(g);
        if (!getenv("VF_STDERR")) { signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); }
        rec::root = dir; rec::on = true;
        ex.onOp = [&](const std::string& l) {
            while (sg.end.size() < ex.tr.ev.size()) sg.end.push_back(rec::log.size());
            progress(l); };
        body(ex);
        while (sg.end.size() < ex.tr.ev.size()) sg.end.push_back(rec::log.size());
        rec::on = false;
        FILE* f = fopen(res.c_str(), "w"); if (!f) _exit(2);
        putn(f, ex.tr.ev.size()); for (size_t i = 0; i < ex.tr.ev.size(); ++i) { put(f, ex.tr.ev[i]); put(f, ex.script[i]); putn(f, sg.end[i]); }
        putn(f, rec::log.size()); for (auto& o : rec::log) { putn(f, o.k); putn(f, o.id); put(f, o.path); putn(f, o.off); put(f, o.data); }
        fclose(f);
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); pause(); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    Segment sg; FILE* f = fopen(res.c_str(), "r"); if (!f) exit(2);
    for (uint64_t n = getn(f); n; --n) { sg.ev.push_back(get(f)); sg.script.push_back(get(f)); sg.end.push_back(getn(f)); }
    for (uint64_t n = getn(f); n; --n) { rec::Op o; o.k = (char)getn(f); o.id = (int)(int64_t)getn(f); o.path = get(f); o.off = getn(f); o.data = get(f); sg.log.push_back(o); }
    fclose(f); rm_tree(dir); ::unlink(res.c_str());
    return sg;
}

// ---- one trace: a history cut by crashes -------------------------------------
struct Run { std::vector<std::string> ev; std::string script; Image im; };

static void cut(Run& run, const Segment& s, size_t e, long k, int mode, uint64_t seed) {
    // crash in event e after k of its file operations (all of them: the event is complete)
    size_t from = e ? s.end[e - 1] : 0, n = s.end[e] - from; bool whole = k < 0 || (size_t)k >= n;
    size_t at = whole ? s.end[e] : from + k;
    for (size_t i = 0; i < e + (whole ? 1 : 0); ++i) run.ev.push_back(s.ev[i]);
    for (size_t i = 0; i <= e; ++i) run.script += s.script[i] + ";";
    run.script += "crash " + std::to_string(whole ? -1 : k) + " " + std::to_string(mode) + " " + std::to_string(seed) + ";";
    run.ev.push_back(J().str("op", "crash").i("mode", mode).raw("during", whole ? "{\"op\":\"\"}" : s.ev[e]).done());
    run.im = crashImage(run.im, s.log, at, mode, seed);
}

static Cfg crashConfig(Rng& r) {
    Cfg c = Gen::config("crash", r);
    c.set("nk", r.range(3, 8)); if (c["logent"] > 6) c.set("logent", 4);
    // Only histories that fsync everything before it goes to tables may lose power.
    if (r.chance(50)) { c.set("fsy", 1); c.set("skipmani", 0); }
    return c;
}
// The operations of one process.
static void drive(Exec& x, Rng& r, int len, bool first) {
    Gen g(x, r, "crash", len);
    bool fsy = x.cfg["fsy"];
    auto see = [&] { x.exec("seqs 0"); x.observe(0); };
    auto sync = [&](int fs) { x.exec(Gen::S({0, fsy ? 1 : fs, r.chance(20) ? 1 : 0}, "sync")); };
    x.exec("open 0"); if (!x.has(0)) return;
    if (!first) see();
    int n = 0;
    while (n++ < len) {
        int w = r.below(100);
        if (w < 45) { int q = r.range(1, 4); for (int i = 0; i < q; ++i) g.write(0); }
        else if (w < 62) sync(r.chance(60));
        else if (w < 74) { if (r.chance(50)) sync(1);
            int b = !fsy && getenv("VF_BEY") && r.chance(40) ? 8 : 0;
            if (r.chance(20)) x.exec(Gen::S({0, r.range(1, 40), b, 0}, "flush")); else x.exec(Gen::S({0, -1, b, r.chance(15) ? 1 : 0}, "flush")); }
        else if (w < 86) g.maint(0);
        else if (w < 90) { if (fsy) sync(1); g.reopen(0); }
        else if (w < 94) x.exec("chk 0");
        else if (w < 96) { x.exec("chks 0"); long long c = 0; for (auto y : x.lastChks[0]) if (y > g.tainted[0] && r.chance(50)) c = y; if (x.h.count(10)) x.exec("snapclose 10"); else x.exec(Gen::S({0, 10, c}, "snap")); }
        else x.exec(Gen::S({0, r.range(1, x.keys.n())}, "get"));
    }
    if (x.has(10)) x.observe(10, false);
}

int main(int argc, char** argv) {
    if (argc < 5) return 2;
    uint64_t seed = strtoull(argv[1], 0, 10); int n = atoi(argv[2]), len = atoi(argv[3]); std::string out = argv[4];
    std::string root = scratch_root() + "/cr_" + std::to_string(getpid()); mk_dir(root);
    std::vector<std::string> scripts;
    if (argc > 5) { std::ifstream in(argv[5]); std::string l; while (std::getline(in, l)) if (!l.empty()) scripts.push_back(l); n = scripts.size(); }
    ::unlink((out + ".scripts").c_str());
    auto body = [&](int i, FILE* g) {
        Rng r(seed * 1000003 + i); Cfg c;
        if (!scripts.empty()) c = Cfg::parse(scripts[i].substr(0, scripts[i].find('|'))); else c = crashConfig(r);
        std::string nm = "c-" + std::to_string(seed) + "-" + std::to_string(i);
        auto emit = [&](const Run& x, const std::string& name) {
            Trace t; t.name = name; t.cfg = c.json(); t.ev = x.ev; t.write(g);
            if (FILE* sf = fopen((out + ".scripts").c_str(), "a")) { fprintf(sf, "%s|%s|%s\n", name.c_str(), c.str().c_str(), x.script.c_str()); fclose(sf); } };
        auto rest = [&](Run& x, const Segment& s) { for (auto& e : s.ev) x.ev.push_back(e); for (auto& e : s.script) x.script += e + ";"; };
        progressReset(c.str());
        if (!scripts.empty()) {
            Run run; std::vector<std::string> ops; std::stringstream ss(scripts[i].substr(scripts[i].find('|') + 1)); std::string op;
            auto flush = [&] { Segment s = segment(c, run.im, root, [&](Exec& x) { for (auto& o : ops) x.exec(o); }); ops.clear(); return s; };
            while (std::getline(ss, op, ';')) {
                if (op.compare(0, 6, "crash ") == 0) { long k; int m; unsigned long long q; sscanf(op.c_str(), "crash %ld %d %llu", &k, &m, &q); Segment s = flush(); progress(op); if (!s.ev.empty()) cut(run, s, s.ev.size() - 1, k, m, q); }
                else if (!op.empty()) ops.push_back(op);
            }
            rest(run, flush()); emit(run, nm); return;
        }
        // One first part, several crashes of it; some of them crash again.
        uint64_t s1 = r.next(); Image none;
        Segment a = segment(c, none, root, [&](Exec& x) { Rng q(s1); drive(x, q, len, true); });
        std::string head(shared()->script, shared()->len);
        for (int b = 0; b < 5 && !a.ev.empty(); ++b) {
            Run run; Segment s = a; int crashes = r.chance(30) ? 2 : 1;
            for (int k = 0; k < crashes; ++k) {
                // crash positions are drawn among file operations, or between operations
                size_t e; long at;
                if (!s.log.empty() && r.chance(80)) { size_t p = r.below(s.log.size()); e = 0; while (e + 1 < s.end.size() && s.end[e] <= p) ++e; at = (long)p - (long)(e ? s.end[e - 1] : 0); }
                else { e = r.below(s.ev.size()); at = -1; }
                cut(run, s, e, at, c["fsy"] ? r.range(0, 2) : 0, r.below(1000000));
                progressReset(c.str()); for (std::stringstream t(run.script); t;) { std::string o; if (std::getline(t, o, ';') && !o.empty()) progress(o); }
                uint64_t s2 = r.next(); bool last = k + 1 == crashes;
                s = segment(c, run.im, root, [&](Exec& x) { Rng q(s2); drive(x, q, last ? 6 : len / 2, false);
                    if (last) { if (x.has(0)) { x.exec("seqs 0"); x.observe(0); } x.finish(); x.exec("open 0"); if (x.has(0)) { x.exec("seqs 0"); x.observe(0); x.finish(); } } });
                if (s.ev.empty()) break;
            }
            rest(run, s); emit(run, nm + "-" + std::to_string(b));
        }
    };
    int rc = runTraces(out, n, 30, 20, [] {}, [] {}, body,
        [&](int i, const std::string& script, const std::string& why) {
            std::string nm = "c-" + std::to_string(seed) + "-" + std::to_string(i); std::string flat; for (char ch : script) flat.push_back(ch == '\n' ? ';' : ch);
            return "{\"name\":\"" + nm + "\",\"cfg\":{\"nk\":1,\"crashed\":1},\"ev\":[" + J().str("op", "crash").str("why", why).str("script", flat).done() + "]}"; });
    rm_tree(root);
    return rc;
}
