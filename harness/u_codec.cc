// Driver of RwSerializer: values written and read through fixed memory, a
// growing buffer, or a file.
#include "unit.h"
#include "fileops_posix.h"
#include "internal_helper.h"
#include <libjungle/jungle.h>

// Retries wait; the driver does not.
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return 0; }

using namespace jungle;
using namespace vf;

struct Codec : Comp {
    int mode = 0; size_t cap = 0;
    SizedBuf buf; std::unique_ptr<RwSerializer> rw;
    FileOpsPosix ops; FileHandle* fh = nullptr; std::string path;
    ~Codec() { rw.reset(); buf.free(); if (fh) { ops.close(fh); delete fh; } }

    std::string genCfg(Rng& r) override { return fmt("%d %d", r.range(0, 4), r.range(1, 60)); }
    void begin(const std::string& cfg) override {
        Words w(cfg); mode = w.i(0); cap = w.i(1, 40);
        path = dir + "/f";
        tr->cfg = fmt("{\"mode\":%d,\"cap\":%zu}", mode, mode <= 1 ? cap : 0);
        if (mode <= 1) buf.alloc(cap);
        if (mode >= 3) ((FileOps&)ops).open(&fh, path);
        make();
    }
    void make() {
        if (mode == 0) rw.reset(new RwSerializer(buf.data, buf.size));
        else if (mode == 1) rw.reset(new RwSerializer((const SizedBuf&)buf));
        else if (mode == 2) rw.reset(new RwSerializer(&buf));
        else rw.reset(new RwSerializer(&ops, fh, mode == 4));
    }
    std::string genOp(Rng& r) override {
        int p = r.range(0, 99);
        bool mem = mode <= 2;
        size_t sz = mode == 2 && buf.empty() ? 0 : rw->size(), ps = rw->pos();
        if (p < 45) {
            int k = r.range(0, 5);
            size_t n = k < 4 ? (1u << k) : r.range(0, r.chance(10) ? 70 : 12);
            size_t need = n + (k == 5 ? 4 : 0);
            if (mode <= 1 && ps + need > cap) return fmt("pos %d", (int)r.below(cap + 1));
            if (sz > 400) return "new";
            const char* nm[] = {"p8", "p16", "p32", "p64", "pb", "ps"};
            std::string s = nm[k];
            if (k < 4) {
                static const std::vector<uint64_t> edge = {0, 1, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
                uint64_t v = r.chance(40) ? r.pick(edge) : r.next();
                return s + fmt(" %llu", (unsigned long long)v);
            }
            return s + fmt(" %zu %d", n, r.range(0, 255));
        }
        if (p < 75) { static const std::vector<std::string> g = {"g8", "g16", "g32", "g64", "gb", "gs"}; std::string k = r.pick(g);
            if (k == "gb") return fmt("gb %d", r.range(0, 12));
            if (k == "gs") return fmt("gs %d", mem ? r.range(0, 1) : 1);
            return k; }
        if (p < 88) return fmt("pos %d", (int)r.below((mem ? sz : std::min<size_t>(sz + 5, 500)) + 1));
        if (p < 92) return fmt("avail %d", r.range(0, 70));
        if (p < 97) return "raw";
        return "new";
    }
    static std::string be(uint64_t v, int w) { std::string s; for (int i = w - 1; i >= 0; --i) s.push_back((char)(v >> (8 * i))); return jbytes(s.data(), s.size()); }
    void out(J& j, const Status& s) {
        size_t sz = (mode == 2 && buf.empty()) ? 0 : rw->size();
        tr->add(j.i("st", s.getValue()).i("pos", rw->pos()).i("size", sz));
    }
    void exec(const std::string& line) override {
        Words w(line); const std::string op = w.op(); Status s; J j;
        if (mode == 2 && buf.empty() && op[0] != 'p') return;      // nothing to read yet
        if (op == "p8" || op == "p16" || op == "p32" || op == "p64") {
            uint64_t v = strtoull(w.s(1).c_str(), 0, 10); int n = op == "p8" ? 1 : op == "p16" ? 2 : op == "p32" ? 4 : 8;
            if (mode <= 1 && rw->pos() + n > cap) return;
            s = n == 1 ? rw->putU8(v) : n == 2 ? rw->putU16(v) : n == 4 ? rw->putU32(v) : rw->putU64(v);
            out(j.str("op", "put").raw("d", be(v, n)), s);
        } else if (op == "pb" || op == "ps") {
            size_t n = w.i(1); std::string d; for (size_t i = 0; i < n; ++i) d.push_back((char)(w.i(2) + i * 7));
            if (mode <= 1 && rw->pos() + n + (op == "ps" ? 4 : 0) > cap) return;
            if (op == "pb") s = rw->put(d.data(), n); else s = rw->putSb(SizedBuf(d));
            std::string x = jbytes(d.data(), n);
            if (op == "ps") { std::string l = be(n, 4); x = n ? l.substr(0, l.size() - 1) + "," + x.substr(1) : l; }
            out(j.str("op", "put").raw("d", x), s);
        } else if (op == "g8" || op == "g16" || op == "g32" || op == "g64") {
            int n = op == "g8" ? 1 : op == "g16" ? 2 : op == "g32" ? 4 : 8; uint64_t v = 0;
            v = n == 1 ? rw->getU8(s) : n == 2 ? rw->getU16(s) : n == 4 ? rw->getU32(s) : rw->getU64(s);
            out(j.str("op", "get").i("n", n).raw("d", be(v, n)), s);
        } else if (op == "gb") {
            size_t n = w.i(1); std::string d(n, 'x'); s = rw->get(&d[0], n);
            out(j.str("op", "get").i("n", n).raw("d", jbytes(d.data(), n)), s);
        } else if (op == "gs") {
            // Length found at the position: only sane ones are read (the caller's own data).
            size_t at = rw->pos(); Status ps; uint32_t len = rw->getU32(ps); rw->pos(at);
            if (ps && len > 4096) return;
            bool clone = w.i(1) != 0;
            SizedBuf b; s = rw->getSb(b, clone);
            out(j.str("op", "getsb").raw("d", s ? jbytes(b.data, b.size) : "[]").i("clone", clone), s);
            if (clone) b.free();
        } else if (op == "pos") {
            size_t n = w.i(1), sz = mode == 2 && buf.empty() ? 0 : mode <= 2 ? rw->size() : 1 << 20; if (n > sz) n = sz;
            size_t r = rw->pos(n);
            out(j.str("op", "pos").i("n", n).i("r", r), s);
        } else if (op == "avail") {
            bool r = rw->available(w.i(1));
            out(j.str("op", "avail").i("n", w.i(1)).i("r", r), s);
        } else if (op == "raw") {
            std::string d;
            if (mode <= 2) d.assign((const char*)buf.data, buf.size);
            else if (FILE* f = fopen(path.c_str(), "r")) { char t[8192]; size_t n = fread(t, 1, sizeof t, f); d.assign(t, n); fclose(f); }
            out(j.str("op", "raw").raw("d", jbytes(d.data(), d.size())), s);
        } else if (op == "new") {      // another serializer over the same contents
            if (mode == 2 && buf.empty()) return;
            make();
            out(j.str("op", "new"), s);
        }
    }
};
int main(int argc, char** argv) { return unitMain(argc, argv, [] { return new Codec; }); }
