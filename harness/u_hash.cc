// Driver of the checksum and hash functions.
#include "unit.h"
#include "crc32.h"
#include "internal_helper.h"
#include "murmurhash3.h"

using namespace jungle;
using namespace vf;

struct HashComp : Comp {
    std::string genCfg(Rng&) override { return "0"; }
    void begin(const std::string&) override {}
    std::string genOp(Rng& r) override {
        static const std::vector<std::string> ops = {"crc", "crc", "m32", "m128", "key"};
        int n = r.chance(60) ? r.range(0, 24) : r.chance(70) ? r.range(0, 70) : r.range(60, 140);
        // op length content-seed content-kind alignment cut seed
        return fmt("%s %d %llu %d %d %d %u", r.pick(ops).c_str(), n, (unsigned long long)r.below(1000000), r.range(0, 3), r.range(0, 9), (int)r.below(n + 1), r.chance(50) ? 0 : (unsigned)r.next());
    }
    static std::string le(uint64_t v, int w) { std::string s; for (int i = 0; i < w; ++i) s.push_back((char)(v >> (8 * i))); return jbytes(s.data(), s.size()); }
    void exec(const std::string& line) override {
        Words w(line); size_t n = w.i(1); Rng r(w.i(2)); int kind = w.i(3), al = w.i(4), cut = w.i(5); uint32_t seed = (uint32_t)w.i(6);
        std::unique_ptr<uint8_t[]> m(new uint8_t[n + al]);     // exactly as long as needed: reading beyond it is caught
        uint8_t* d = m.get() + al;
        for (size_t i = 0; i < n; ++i) d[i] = kind == 0 ? r.next() : kind == 1 ? 0 : kind == 2 ? 0xff : kind == 4 ? w.i(2) : 'a' + r.below(26);
        J j; j.str("op", w.op()).raw("d", jbytes(d, n)).raw("seed", le(seed, 4));
        if (w.op() == "crc") {
            j.raw("one", le(crc32_1(d, n, seed), 4)).raw("eight", le(crc32_8(d, n, seed), 4)).raw("last", le(crc32_8_last8(d, n, seed), 4));
            j.raw("one2", le(crc32_1(d + cut, n - cut, crc32_8(d, cut, seed)), 4)).raw("eight2", le(crc32_8(d + cut, n - cut, crc32_1(d, cut, seed)), 4));
        } else if (w.op() == "m32") {
            uint32_t h = 0; MurmurHash3_x86_32(d, n, seed, &h); j.raw("h", le(h, 4));
        } else if (w.op() == "m128") {
            uint64_t h[2]; MurmurHash3_x64_128(d, n, seed, h); j.raw("h1", le(h[0], 8)).raw("h2", le(h[1], 8));
        } else if (w.op() == "key") {
            SizedBuf k(n, d); uint64_t p[2]; int parts = 1 + seed % 100;
            jungle::get_hash_pair(nullptr, k, false, p);
            j.raw("h32", le(get_murmur_hash_32(k), 4)).raw("h64", le(get_murmur_hash_64(k), 8)).raw("p1", le(p[0], 8)).raw("p2", le(p[1], 8));
            j.i("n", parts).i("part", get_murmur_hash(k, parts));
        } else return;
        tr->add(j);
    }
};
int main(int argc, char** argv) { return unitMain(argc, argv, [] { return new HashComp; }); }
