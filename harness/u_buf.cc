// Driver of SizedBuf, KV and Record: contents, ordering, ownership.
#include "unit.h"
#include <libjungle/jungle.h>
extern "C" int __sanitizer_get_ownership(const volatile void*);

using namespace jungle;
using namespace vf;

struct Buf : Comp {
    Record rec[2];                       // slots: key, value, meta of each
    std::vector<void*> blk;              // blocks handed out, by identity
    std::deque<std::string> foreign;     // memory referred to, never freed by the buffers
    std::vector<bool> isForeign;
    SizedBuf& at(int i) { Record& r = rec[i / 3]; return i % 3 == 0 ? r.kv.key : i % 3 == 1 ? r.kv.value : r.meta; }
    ~Buf() { for (size_t i = 0; i < blk.size(); ++i) if (!isForeign[i] && live(i)) ::free(blk[i]); }

    std::string genCfg(Rng&) override { return "0"; }
    void begin(const std::string&) override {}
    static std::string content(int n, int v) { std::string s(n / 10 * 8, 'k'); n %= 10; static const int alpha[] = {0, 1, 97, 98, 127, 128, 255}; for (int i = 0; i < n; ++i) { s.push_back((char)alpha[v % 7]); v /= 7; } return s; }
    std::string genOp(Rng& r) override {
        int a = r.range(0, 5), b = r.range(0, 5), p = r.range(0, 99), n = r.range(0, 4) + (r.chance(30) ? 10 * r.range(1, 5) : 0); long v = (long)r.below(2401);
        if (p < 12) return fmt("alloc %d %d %ld %d", a, n, v, r.range(0, 2));
        if (p < 15) return fmt("zero %d %d", a, r.range(0, 6));
        if (p < 24) return fmt("refer %d %d %ld %d", a, n, v, r.range(0, 2));
        if (p < 28) return fmt("assign %d %d", a, b);
        if (p < 32) return fmt("referTo %d %d", a, b);
        if (p < 38) return fmt("copyTo %d %d", a, b);
        if (p < 42) return a == b ? "" : fmt("moveTo %d %d", a, b);
        if (p < 48) return fmt("resize %d %d", a, r.range(0, 8));
        if (p < 54) return fmt("free %d", a);
        if (p < 56) return fmt("clear %d", a);
        if (p < 60) return fmt("poke %d %d", a, r.range(0, 255));
        if (p < 63) return fmt("hold %d", a);
        if (p < 85) return fmt("cmp %d %d", a, b);
        int x = r.range(0, 1);
        if (p < 87) return fmt("rfree %d", x);
        if (p < 89) return fmt("rcopy %d", x);
        if (p < 91) return fmt("rmove %d", x);
        if (p < 93) return fmt("rclone %d", x);
        if (p < 94) return fmt("rclear %d", x);
        if (p < 95) return fmt("rhold %d", x);
        if (p < 97) return fmt("rsize %d", x);
        if (p < 98) return fmt("kvcopy %d", x);
        if (p < 99) return fmt("kvmove %d", x);
        return fmt("stamp %d %d %d", x, r.range(1, 1000), r.range(0, 2));
    }
    bool live(size_t i) { return isForeign[i] || __sanitizer_get_ownership(blk[i]); }
    void fresh(void* p) { if (p) { blk.push_back(p); isForeign.push_back(false); } }
    void add(J& j) {
        std::vector<std::string> s; std::vector<long long> l;
        for (int i = 0; i < 6; ++i) { SizedBuf& b = at(i); s.push_back(fmt("{\"o\":%d,\"d\":%s}", (b.flags & SizedBufFlags::NEED_TO_FREE) ? 1 : 0, jbytes(b.data, b.size).c_str())); }
        for (size_t i = 0; i < blk.size(); ++i) if (live(i)) l.push_back(i + 1);
        std::vector<long long> m; for (auto& r : rec) { m.push_back(r.seqNum == Record::NIL_SEQNUM ? -1 : (long long)r.seqNum); m.push_back(r.type); }
        tr->add(j.raw("s", jlist(s)).arr("live", l).arr("rec", m));
    }
    // Buffers that referred to memory that is gone are cleared (their user may not look at them).
    void dropDangling(void* gone, int except) {
        if (gone) for (int i = 0; i < 6; ++i) if (i != except && at(i).data == gone) { at(i).clear(); J j; pend.push_back(i); }
    }
    std::vector<int> pend;
    void exec(const std::string& line) override {
        Words w(line); const std::string op = w.op(); int a = w.i(1), b = w.i(2); J j; j.str("op", op);
        pend.clear();
        if (op == "alloc") {
            std::string d = content(w.i(2), w.i(3)); SizedBuf& x = at(a);
            if (w.i(4) == 0) x.alloc(d.size(), (void*)d.data()); else if (w.i(4) == 1) x.alloc(d); else x.alloc(SizedBuf(d));
            fresh(x.data); j.i("a", a).raw("d", jbytes(d.data(), d.size()));
        } else if (op == "zero") { SizedBuf& x = at(a); x.alloc((size_t)w.i(2)); fresh(x.data); j.i("a", a).i("n", w.i(2)); }
        else if (op == "refer") {
            foreign.push_back(content(w.i(2), w.i(3))); std::string& d = foreign.back();
            if (w.i(4) == 0) at(a).set(d.size(), &d[0]); else if (w.i(4) == 1) at(a).set(d); else at(a) = SizedBuf(d);
            blk.push_back(&d[0]); isForeign.push_back(true); j.i("a", a).raw("d", jbytes(d.data(), d.size()));
        } else if (op == "assign") { if ((a + b) % 2) at(a) = at(b); else { SizedBuf t(at(b)); at(a).set(t); } j.i("a", a).i("b", b); }
        else if (op == "referTo") { at(a).referTo(at(b)); j.i("a", a).i("b", b); }
        else if (op == "copyTo") { at(a).copyTo(at(b)); fresh(at(b).data); j.i("a", a).i("b", b); }
        else if (op == "moveTo") { if (a == b) return; at(a).moveTo(at(b)); j.i("a", a).i("b", b); }
        else if (op == "resize") {
            SizedBuf& x = at(a); void* old = x.data; bool own = x.flags & SizedBufFlags::NEED_TO_FREE; size_t n0 = x.size, n = w.i(2);
            x.resize(n);
            if (own && n) { for (auto& p : blk) if (p == old) p = x.data; if (n > n0 && x.size == n) memset(x.data + n0, 0, n - n0); }
            if (own) dropDangling(old, a);
            j.i("a", a).i("n", n);
        } else if (op == "free" || op == "hold") {
            void* old = at(a).data; bool own = at(a).flags & SizedBufFlags::NEED_TO_FREE; bool r = own;
            if (op == "free") r = at(a).free(); else { SizedBuf::Holder h(at(a)); }
            if (own) dropDangling(old, a);
            j.i("a", a).i("r", r);
        } else if (op == "clear") { at(a).clear(); j.i("a", a); }
        else if (op == "poke") { if (!at(a).size) return; at(a).data[0] = w.i(2); j.i("a", a).i("v", w.i(2)); }
        else if (op == "cmp") {
            SizedBuf &x = at(a), &y = at(b); int c = SizedBuf::cmp(x, y); std::string s = x.toString();
            Record ra, rb; ra.kv.key = x; rb.kv.key = y;
            j.i("a", a).i("b", b).i("c", c < 0 ? -1 : c > 0 ? 1 : 0).i("lt", x < y).i("le", x <= y).i("gt", x > y).i("ge", x >= y).i("eq", x == y).i("ne", x != y)
             .i("less", Record::Less()(&ra, &rb)).i("empty", x.empty()).raw("str", jbytes(s.data(), s.size()));
        } else if (op[0] == 'r' || op[0] == 'k' || op == "stamp") {
            int y = 1 - a; Record &s = rec[a], &d = rec[y]; j.i("x", a); int st = 0;
            if (op == "rfree" || op == "rhold") {
                void* old[3]; bool own[3]; for (int i = 0; i < 3; ++i) { SizedBuf& q = at(3 * a + i); old[i] = q.data; own[i] = q.flags & SizedBufFlags::NEED_TO_FREE; }
                // Two owners of the same memory inside one record: freeing both would be the user's error.
                for (int i = 0; i < 3; ++i) for (int k = i + 1; k < 3; ++k) if (own[i] && own[k] && old[i] == old[k]) return;
                if (op == "rfree") s.free(); else { Record::Holder h(s); }
                for (int i = 0; i < 3; ++i) if (own[i]) dropDangling(old[i], 3 * a + i);
            }
            else if (op == "rcopy") { s.copyTo(d); for (int i = 0; i < 3; ++i) fresh(at(3 * y + i).data); }
            else if (op == "kvcopy") { s.kv.copyTo(d.kv); for (int i = 0; i < 2; ++i) fresh(at(3 * y + i).data); }
            else if (op == "kvmove") { s.kv.moveTo(d.kv); }
            else if (op == "rmove") { s.moveTo(d); }
            else if (op == "rclone") { st = d.clone(s).getValue(); if (!st) for (int i = 0; i < 3; ++i) fresh(at(3 * y + i).data); j.i("st", st); }
            else if (op == "rclear") { s.clear(); }
            else if (op == "rsize") { j.i("n", s.size()).i("kv", s.kv.size()).i("empty", s.empty()).i("ins", s.isIns()).i("del", s.isDel()).i("cmd", s.isCmd()); }
            else if (op == "stamp") { s.seqNum = w.i(2); s.type = (Record::Type)w.i(3); j.i("seq", w.i(2)).i("t", w.i(3)); }
        } else return;
        std::vector<long long> dr(pend.begin(), pend.end());
        add(j.arr("drop", dr));
    }
};
int main(int argc, char** argv) { return unitMain(argc, argv, [] { return new Buf; }); }
