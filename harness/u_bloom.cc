// Driver of BloomFilter and GenericBitmap.
#include "unit.h"
#include "bloomfilter.h"
#include "generic_bitmap.h"
#include "murmurhash3.h"
#include <sstream>

using namespace vf;

struct Bloom : Comp {
    int kind = 0; size_t bits = 0; int k = 0;
    std::unique_ptr<BloomFilter> f; std::unique_ptr<GenericBitmap> b;
    // cfg: kind(0 filter, 1 bitmap) bits hashes
    std::string genCfg(Rng& r) override { return fmt("%d %d %d", r.chance(75) ? 0 : 1, r.range(1, r.chance(60) ? 64 : 700), r.range(1, 6)); }
    void begin(const std::string& cfg) override {
        Words w(cfg); kind = w.i(0); bits = w.i(1, 64); k = w.i(2, 3);
        if (kind == 0) f.reset(new BloomFilter(bits, k)); else b.reset(new GenericBitmap(bits));
        tr->cfg = fmt("{\"kind\":%d,\"bits\":%zu,\"k\":%d}", kind, bits, k);
    }
    std::string genOp(Rng& r) override {
        int p = r.range(0, 99);
        if (kind == 0) {
            int key = r.range(0, 30);
            if (p < 25) return fmt("set %d", key);
            if (p < 35) return fmt("seth %d", key);
            if (p < 60) return fmt("chk %d", key);
            if (p < 80) return fmt("chkh %d", key);
            if (p < 84) return "export";
            if (p < 88) return "copy";            // rebuilt from exported bytes
            if (p < 92) return fmt("move %d", r.chance(30) ? 0 : r.range(1, r.chance(50) ? 64 : 1400));            // exported bytes moved into a filter of another size
            if (p < 96) return "size";
            return "check all";
        }
        int i = (int)r.below(bits);
        if (p < 45) return fmt("bset %d %d", i, r.range(0, 2) ? 1 : 0);
        if (p < 85) return fmt("bget %d", i);
        if (p < 88) return "bcopy";
        if (p < 91) return fmt("bmove %d", r.range(1, r.chance(60) ? 64 : 1400));
        if (p < 95) return "bsize";
        return "bexport";
    }
    static std::string le(uint64_t v) { std::string s; for (int i = 0; i < 8; ++i) s.push_back((char)(v >> (8 * i))); return jbytes(s.data(), 8); }
    std::string key(int n) { std::string s; for (int i = 0; i < n % 7 + (n == 0 ? 0 : 1); ++i) s.push_back((char)(n * 37 + i * 11)); if (n > 20) s += std::string(n, 'z'); return s; }
    void exec(const std::string& line) override {
        Words w(line); const std::string op = w.op(); J j; j.str("op", op);
        if (kind == 0) {
            std::string key = this->key(w.i(1)); uint64_t h[2]; MurmurHash3_x64_128(key.data(), key.size(), 0, h);
            if (op == "set" || op == "seth") {
                if (op == "set") f->set((void*)key.data(), key.size()); else f->set(h);
                tr->add(J().str("op", "set").i("key", w.i(1)).raw("h1", le(h[0])).raw("h2", le(h[1])));
            } else if (op == "chk" || op == "chkh") {
                bool r = op == "chk" ? f->check((void*)key.data(), key.size()) : f->check(h);
                tr->add(J().str("op", "chk").i("key", w.i(1)).raw("h1", le(h[0])).raw("h2", le(h[1])).i("r", r));
            } else if (op == "check") {
                for (int n = 0; n <= 30; ++n) exec(fmt("chk %d", n));
            } else if (op == "export") {
                std::string d(f->size() / 8 + w.i(1), '\xaa'); f->exportBitmap(&d[0], d.size());
                tr->add(j.raw("d", jbytes(d.data(), f->size() / 8)));
            } else if (op == "copy") {
                std::string d(f->size() / 8, 0); f->exportBitmap(&d[0], d.size());
                f.reset(new BloomFilter(&d[0], d.size(), k));
                tr->add(j.i("r", f->size()));
            } else if (op == "move") {
                size_t n = f->size() / 8; void* d = malloc(n); f->exportBitmap(d, n);
                f.reset(new BloomFilter((uint64_t)w.i(1), k)); if (w.i(1)) f->set((void*)"x", 1); f->moveBitmapFrom(d, n);
                tr->add(j.i("r", f->size()));
            } else if (op == "size") tr->add(j.i("r", f->size()));
            return;
        }
        if (op == "bset") tr->add(j.i("i", w.i(1)).i("v", w.i(2)).i("r", b->set(w.i(1), w.i(2))));
        else if (op == "bget") tr->add(j.i("i", w.i(1)).i("r", b->get(w.i(1))));
        else if (op == "bcopy") { std::string d((const char*)b->getPtr(), b->getMemorySize()); b.reset(new GenericBitmap(&d[0], d.size(), bits)); tr->add(j); }
        else if (op == "bmove") {     // moved into a bitmap of another size
            size_t n = b->getMemorySize(); void* d = malloc(n); memcpy(d, b->getPtr(), n);
            b.reset(new GenericBitmap(w.i(1))); b->set(0, true); b->moveFrom(d, n, bits); tr->add(J().str("op", "bcopy"));
        } else if (op == "bsize") tr->add(j.i("r", b->size()).i("m", b->getMemorySize()));
        else if (op == "bexport") tr->add(j.raw("d", jbytes(b->getPtr(), b->getMemorySize())));
    }
};
int main(int argc, char** argv) { return unitMain(argc, argv, [] { return new Bloom; }); }
