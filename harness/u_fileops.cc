// Drives FileOpsPosix, FileOpsDirectIO and BackupRestore.  System calls are
// interposed: a chosen number of them fails or is cut short.
#include "unit.h"
#include "fileops_directio.h"
#include "fileops_posix.h"
#include "internal_helper.h"
#include <errno.h>
#include <sys/syscall.h>
using namespace jungle;
using vf::fmt;

static int g_fault = 0;          // >0: that many calls misbehave, -1: all of them fail
static int g_fsyncs = 0;
static bool faulty() { if (!g_fault) return false; if (g_fault > 0) --g_fault; return true; }
extern "C" {
static ssize_t do_pread(int fd, void* b, size_t n, off_t o) {
    if (faulty()) { if (g_fault >= 0 && n > 1 && (n & 2)) return syscall(SYS_pread64, fd, b, n / 2, o); errno = EIO; return -1; }
    return syscall(SYS_pread64, fd, b, n, o);
}
static ssize_t do_pwrite(int fd, const void* b, size_t n, off_t o) {
    if (faulty()) { if (g_fault >= 0 && n > 1 && (n & 2)) return syscall(SYS_pwrite64, fd, b, n / 2, o); errno = ENOSPC; return -1; }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
int fsync(int fd) { if (faulty()) { errno = EIO; return -1; } int r = syscall(SYS_fsync, fd); if (!r) ++g_fsyncs; return r; }
int fdatasync(int fd) { if (faulty()) { errno = EIO; return -1; } int r = syscall(SYS_fdatasync, fd); if (!r) ++g_fsyncs; return r; }
static int do_ftruncate(int fd, off_t n) { if (faulty()) { errno = EIO; return -1; } return syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int nanosleep(const struct timespec*, struct timespec*) { return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return 0; }
}

static const struct { int bs, al; } DIO[] = {{1024, 512}, {2048, 512}, {1536, 512}, {16384, 512}, {8192, 4096}, {4096, 512}};

struct FileComp : vf::Comp {
    struct H { FileOps* ops = nullptr; FileHandle* f = nullptr; bool open = false, ro = false, dio = false; std::string p; int k = 0; long ino = 0; };
    std::map<int, H> hs;
    std::map<std::string, long> ino; std::map<long, size_t> wlen; long inos = 0;   // for the generator only
    std::map<std::string, FileHandle*> kept;
    FileOpsPosix posix;
    std::vector<std::unique_ptr<FileOps>> dio;
    std::string real_dir;
    int focus = 0;

    void begin(const std::string& cfg) override {
        focus = atoi(cfg.c_str());
        tr->cfg = fmt("{\"focus\":%d}", focus);
        const char* d = getenv("VF_DISK");
        real_dir = d ? std::string(d) + fmt("/f%d", (int)getpid()) : dir;
        ::mkdir(real_dir.c_str(), 0755);
        for (auto& x : DIO) dio.emplace_back(new FileOpsDirectIO(nullptr, x.bs, x.al));
    }
    std::string genCfg(vf::Rng& r) override { return std::to_string(r.below(3)); }   // 0 plain, 1 direct, 2 mixed
    std::string path(const std::string& p) { return real_dir + "/" + p; }
    static std::string runs(vf::Rng& r, int max) {
        std::string s; int n = r.range(1, 3), b = -1;
        for (int i = 0; i < n; ++i) { int x; do x = r.below(6) * 50 + (r.chance(10) ? 4 : 0); while (x == b); b = x; s += fmt("%s%d:%d", i ? "," : "", x, r.range(1, max)); }
        return s;
    }
    std::string bytes(const std::string& s) {
        std::string o; std::stringstream ss(s); std::string x;
        while (std::getline(ss, x, ',')) { int b, n; if (sscanf(x.c_str(), "%d:%d", &b, &n) == 2) o.append(n, (char)b); }
        return o;
    }
    std::string fault(vf::Rng& r, bool persistent) { return !r.chance(18) ? "0" : persistent && r.chance(50) ? "-1" : std::to_string(r.range(1, 5)); }
    std::string genOp(vf::Rng& r) override {
        std::vector<int> open, closed;
        for (int i = 1; i <= 5; ++i) (hs[i].open ? open : closed).push_back(i);
        static const char* P[] = {"a", "b", "a.bak"};
        if (open.empty() || (!closed.empty() && r.chance(12))) {
            int h = closed[r.below(closed.size())]; std::string p = P[r.below(3)];
            bool ro = r.chance(30), d = focus == 0 ? false : focus == 1 ? r.chance(85) : r.chance(50);
            for (auto& x : hs) if (x.second.open && !x.second.ro && ino.count(p) && x.second.ino == ino[p]) ro = true;
            return fmt("open %d %s %d %d %d", h, p.c_str(), ro, d, (int)r.below(6));
        }
        if (r.chance(2) && !closed.empty()) {      // operations on closed handles
            int h = r.pick(closed); if (hs[h].f) switch (r.below(6)) {
                case 0: return fmt("close %d", h); case 1: return fmt("pread %d 4 0 0", h); case 2: return fmt("append %d 3:4 0", h);
                case 3: return fmt("eof %d", h); case 4: return fmt("fsync %d 0", h); default: return fmt("flush %d 0", h); }
        }
        if (r.chance(9)) {
            switch (r.below(8)) {
                case 0: return std::string("remove ") + P[r.below(3)];
                case 1: return std::string("exist ") + P[r.below(3)];
                case 2: case 3: { std::string p = P[r.below(2)]; return fmt("backup %s %s %d %d %d", p.c_str(), runs(r, 30).c_str(), (int)r.below(40), (int)r.below(25), (int)r.below(2)); }
                case 4: { std::string p = r.chance(50) ? "k" : "k"; return fmt("backupk %s %s %d %d %d", p.c_str(), runs(r, 30).c_str(), (int)r.below(40), (int)r.below(25), (int)r.below(2)); }
                case 5: return r.chance(25) ? "remove k.bak" : "open 6 k.bak 1 0 0";
                case 6: { std::string p = P[r.below(2)]; return fmt("copyb %s %d", p.c_str(), (int)r.below(2)); }
                default: { std::string p = P[r.below(2)]; return fmt("restore %s", p.c_str()); }
            }
        }
        int h = r.pick(open); H& x = hs[h];
        int bs = x.dio ? DIO[x.k].bs : 40, al = x.dio ? DIO[x.k].al : 40;
        size_t sz = wlen[x.ino];
        switch (r.below(12)) {
            case 0: if (r.chance(40)) return fmt("close %d", h);
            case 1: case 2: {
                size_t off = r.chance(30) ? 0 : r.below(sz + 2), n = r.chance(8) ? 0 : r.chance(20) ? sz - std::min(sz, off) : 1 + r.below(std::max<size_t>(1, sz - std::min(sz, off)));
                if (r.chance(10)) n += r.below(40);
                if (n > 60000) n = 60000;
                return fmt("pread %d %zu %zu %s", h, n, off, fault(r, true).c_str());
            }
            case 3: return fmt("eof %d", h);
            case 4: return fmt("fsync %d %s", h, r.chance(10) ? "-1" : "0");
            case 5: case 6: if (x.dio) return x.ro ? "" : fmt("flush %d %s", h, fault(r, true).c_str()); return fmt("flush %d 0", h);
            case 7: {
                if (x.ro && x.dio) return "";
                size_t n = r.below(sz + (x.dio ? 2 : 20)); if (r.chance(30)) n = n / al * al; if (r.chance(5)) n = 0;
                return fmt("trunc %d %zu %s", h, n, r.chance(6) ? "-1" : "0");
            }
            case 8: if (!x.dio) return fmt("pwrite %d %s %d %s", h, runs(r, 20).c_str(), (int)r.below(sz + 8), fault(r, true).c_str());
            default: {
                if (x.ro && x.dio) return "";
                int m = x.dio ? (r.chance(30) ? 12 : r.chance(50) ? al : bs) : 20;
                std::string d = runs(r, m);
                if (x.dio && r.chance(25)) {       // land close to the buffer's or the block's end
                    size_t cur = 0; cur = sz; int left = (int)(al - cur % al); int want = left - (int)r.range(0, 9); if (want > 0) d = fmt("%d:%d", (int)r.range(1, 200), want);
                }
                return fmt("append %d %s %s", h, d.c_str(), x.dio ? std::to_string(r.chance(10) ? r.range(1, 3) : 0).c_str() : fault(r, true).c_str());
            }
        }
    }
    void note(int h, long size) { if (size >= 0) wlen[hs[h].ino] = size; }
    void exec(const std::string& line) override {
        vf::Words w(line); const std::string& op = w.op(); vf::J j; j.str("op", op == "copyb" || op == "restore" ? "copy" : op);
        g_fault = 0; g_fsyncs = 0;
        if (op == "open") {
            int h = w.i(1); H& x = hs[h];
            if (x.open) { x.ops->close(x.f); x.open = false; vf::J c; c.str("op", "close").i("h", h).i("st", 0).i("bad", 0); tr->add(c); }
            delete x.f; x = H(); x.p = w.s(2); x.ro = w.i(3); x.dio = w.i(4); x.k = w.i(5);
            x.ops = x.dio ? dio[x.k].get() : &posix;
            bool had = ino.count(x.p);
            Status s = x.ops->open(&x.f, path(x.p), x.ro ? FileOps::READ_ONLY : FileOps::NORMAL);
            x.open = s.ok();
            if (s) { if (!had) ino[x.p] = ++inos; x.ino = ino[x.p]; }
            j.i("h", h).str("p", x.p).i("ro", x.ro).i("dio", x.dio).i("bs", DIO[x.k].bs).i("al", DIO[x.k].al).i("st", (int)s);
            if (!s) { x.f = nullptr; }
        } else if (op == "remove") { Status s = posix.remove(path(w.s(1))); if (s) ino.erase(w.s(1)); j.str("p", w.s(1)).i("st", (int)s);
        } else if (op == "exist") { j.str("p", w.s(1)).i("r", posix.exist(path(w.s(1))));
        } else if (op == "copyb" || op == "restore") {
            bool res = op == "restore"; std::string p = w.s(1), q = p + ".bak"; bool sync = res || w.i(2);
            // not while somebody buffers on the destination
            for (auto& x : hs) if (x.second.open && !x.second.ro && ino.count(res ? p : q) && x.second.ino == ino[res ? p : q]) return;
            { std::string src = res ? q : p; if (ino.count(src) && wlen[ino[src]] == 0) { long n = -1; struct stat st; if (!stat(path(src).c_str(), &st)) n = st.st_size; if (n == 0) { /* an empty source is copied too */ } } }
            Status s = res ? BackupRestore::restore(&posix, path(p)) : BackupRestore::backup(&posix, path(p), sync);
            if (s && !ino.count(res ? p : q)) ino[res ? p : q] = ++inos;
            j.str("p", res ? q : p).str("q", res ? p : q).i("sync", sync).i("real", g_fsyncs > 0).i("st", (int)s);
            if (s) { struct stat st; if (!stat(path(res ? p : q).c_str(), &st)) wlen[ino[res ? p : q]] = st.st_size; }
        } else if (op == "backup" || op == "backupk") {
            std::string p = w.s(1), q = p + ".bak", ctx = bytes(w.s(2)); size_t n = std::min<size_t>(w.i(3), ctx.size()), skip = w.i(4); bool sync = w.i(5);
            for (auto& x : hs) if (x.second.open && !x.second.ro && ino.count(q) && x.second.ino == ino[q]) return;
            SizedBuf b(ctx.size(), (void*)ctx.data());
            Status s = op == "backup" ? BackupRestore::backup(&posix, path(p), b, n, skip, sync) : BackupRestore::backup(&posix, &kept[q], path(p), b, n, skip, sync);
            if (s && !ino.count(q)) ino[q] = ++inos;
            j.str("q", q).raw("d", vf::rle(ctx.data(), ctx.size())).i("n", n).i("skip", skip).i("sync", sync).i("real", g_fsyncs > 0).i("st", (int)s);
        } else if (op == "big") {          // sizes beyond 2 GiB (a sparse file)
            FileHandle* f = nullptr; long r = -1; std::string p = path("big");
            FileOps* o = w.i(2) ? dio[3].get() : (FileOps*)&posix;
            Status s = posix.open(&f, p, FileOps::NORMAL);
            if (s) { s = posix.ftruncate(f, (cs_off_t)w.i(1) << 20); posix.close(f); delete f; f = nullptr; }
            if (s) { s = o->open(&f, p, FileOps::READ_ONLY); if (s) { cs_off_t e = o->eof(f); r = e < 0 ? -2 : (long)(e >> 20); o->close(f); delete f; } else r = -3; }
            ::unlink(p.c_str());
            j.i("n", w.i(1)).i("dio", w.i(2)).i("r", r);
        } else {
            int h = w.i(1); H& x = hs[h]; if (!x.f) return;
            j.i("h", h);
            if (op == "close") { Status s = x.ops->close(x.f); x.open = false; j.i("bad", 0).i("st", (int)s); if (s) note(h, -1);
            } else if (op == "pread") {
                size_t n = w.i(2); long off = w.i(3); g_fault = w.i(4); bool bad = g_fault < 0;
                std::string b(n, '\x7e'); Status s = x.ops->pread(x.f, n ? &b[0] : nullptr, n, off); g_fault = 0;
                j.i("n", n).i("off", off).i("bad", bad).i("st", (int)s).raw("d", s ? vf::rle(b.data(), n) : "[]");
            } else if (op == "pwrite" || op == "append") {
                std::string d = bytes(w.s(2)); bool a = op == "append"; int f = w.i(a ? 3 : 4); g_fault = f;
                Status s = a ? x.ops->append(x.f, d.data(), d.size()) : x.ops->pwrite(x.f, d.data(), d.size(), w.i(3)); g_fault = 0;
                j.raw("d", vf::rle(d.data(), d.size())).i("off", a ? 0 : w.i(3)).i("bad", f < 0).i("st", (int)s);
                long e = x.open ? (long)x.ops->eof(x.f) : -1; if (x.dio && x.open) { e = std::max<long>(e, wlen[x.ino]); } note(h, e);
            } else if (op == "eof") { j.i("r", (long long)x.ops->eof(x.f)); note(h, x.open ? (long)x.ops->eof(x.f) : -1);
            } else if (op == "flush") { g_fault = w.i(2); bool bad = g_fault < 0; Status s = x.ops->flush(x.f); g_fault = 0; j.i("bad", bad).i("st", (int)s); if (x.open) note(h, x.ops->eof(x.f));
            } else if (op == "fsync") { g_fault = w.i(2); bool bad = g_fault < 0; Status s = x.ops->fsync(x.f); g_fault = 0; j.i("bad", bad).i("real", g_fsyncs > 0).i("st", (int)s);
            } else if (op == "trunc") { g_fault = w.i(3); bool bad = g_fault < 0; Status s = x.ops->ftruncate(x.f, w.i(2)); g_fault = 0; j.i("n", w.i(2)).i("bad", bad).i("st", (int)s); if (x.open) note(h, x.ops->eof(x.f));
            } else return;
        }
        tr->add(j);
    }
    void finish() override {
        for (auto& x : hs) { if (x.second.open) x.second.ops->close(x.second.f); delete x.second.f; }
        for (auto& x : kept) if (x.second) { posix.close(x.second); delete x.second; }
        for (auto p : {"a", "b", "a.bak", "b.bak", "k.bak", "big"}) ::unlink(path(p).c_str());
        if (real_dir != dir) ::rmdir(real_dir.c_str());
    }
};
int main(int argc, char** argv) { return vf::unitMain(argc, argv, [] { return new FileComp; }); }
