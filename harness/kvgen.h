// Random operation scripts, biased per profile.
#pragma once
#include "kvdrv.h"
namespace vf {

struct Gen {
    Exec& x; Rng& r; std::string prof; int len;
    int nextSnap = 10, nextItr = 100;
    std::map<int, long long> tainted;          // checkpoints up to here are not opened (known finding KF4)
    std::map<int, long long> lastSeq;          // driver's own upper bound guess for seqnum arguments
    Gen(Exec& e, Rng& g, const std::string& p, int l) : x(e), r(g), prof(p), len(l) {}

    static std::string S(std::initializer_list<long long> a, const char* op) { std::string s = op; for (auto v : a) s += " " + std::to_string(v); return s; }
    int K() { return r.range(1, x.keys.n()); }
    int V() { return r.range(1, 60); }
    int M() { return r.chance(15) ? r.range(1, 5) : 0; }
    int D() { return (int)r.below(x.ndb); }
    int H() {
        std::vector<int> hs; for (auto& e : x.h) hs.push_back(e.first);
        return hs.empty() ? 0 : r.pick(hs);
    }

    static Cfg config(const std::string& prof, Rng& r) {
        Cfg c;
        c.set("nk", r.range(6, 18));
        c.set("style", (int)r.below(6));
        c.set("l0", r.range(1, 4));
        c.set("logent", r.chance(70) ? r.range(3, 12) : 0);
        if (r.chance(20)) c.set("logsz", r.range(200, 3000));
        // Custom comparators: hash-partitioned tables only (see DESIGN.md, known findings).
        if (r.chance(25)) { c.set("cmp", r.range(1, 2)); c.set("noext", 1); }
        else
        if (r.chance(15)) c.set("noseq", 1);
        if (r.chance(20)) c.set("noext", 1);
        if (r.chance(25)) c.set("comp", r.range(1, 2));
        if (r.chance(20)) c.set("dio", r.range(1, 2));
        if (c["dio"] && c["logsz"] && c["logsz"] < 1100) c.set("logsz", 1100);   // a log file holds at least one direct-I/O block
        if (r.chance(40)) c.set("bloom", r.range(1, 10));
        if (r.chance(15)) c.set("fast", 1);
        if (r.chance(20)) c.set("nopurge", 1);
        if (r.chance(20)) c.set("noboost", 1);
        if (r.chance(60)) c.set("tblsz", r.range(2, 12) * 512);
        if (r.chance(30)) c.set("lvlsz", r.range(2, 10) * 1000);
        if (r.chance(30)) c.set("skipmani", 1);
        if (r.chance(20)) c.set("hashlen", r.range(1, 3));
        if (r.chance(50)) c.set("mintab", r.range(1, 4));
        if (r.chance(30)) c.set("wss", r.range(1, 5000));
        if (r.chance(30)) c.set("pw", r.range(1, 3));
        if (r.chance(20)) c.set("predirty", 1);
        if (r.chance(20)) c.set("bigval", 1);
        if (r.chance(20)) c.set("keepchk", r.range(1, 3));
        if (prof == "near") { if (r.chance(60)) c.set("style", r.chance(50) ? 1 : 4); }
        if (prof == "log") {
            c.set("logonly", 1); c.set("noext", 0);
            if (r.chance(50)) c.set("keepmt", r.range(1, 3));
        }
        if (prof == "seq") c.set("notrunc", 1);        // gaps between sequence numbers are not losses
        if (prof == "batch") c.set("ndb", r.range(1, 3));
        return c;
    }

    void write(int d) {
        int w = r.below(100);
        if (prof == "seq" && w < 35) {
            // sequence numbers chosen by the user
            long long& last = lastSeq[d];
            long long s = std::max<long long>(last, maxSeq(d)) + r.range(1, 4);
            last = std::max(last, s);
            if (r.chance(75)) x.exec(S({d, s, K(), V(), M()}, "setsn")); else x.exec(S({d, s, K()}, "delsn"));
            return;
        }
        if (prof == "batch" && w < 60) {
            bool g = r.chance(40);
            int n = r.range(1, 6);
            std::string s = g ? "gbatch " + std::to_string(n) : "batch " + std::to_string(d) + " " + std::to_string(n);
            for (int i = 0; i < n; ++i) { if (g) s += " " + std::to_string(D()); s += " " + std::to_string(K()) + " " + std::to_string(V()) + " " + (r.chance(25) ? "1" : "0"); }
            x.exec(s);
            return;
        }
        if (w < 70) x.exec(S({d, K(), V(), M()}, "set"));
        else if (w < 92) x.exec(S({d, K(), M()}, "del"));
        else { int n = r.range(1, 5); std::string s = "batch " + std::to_string(d) + " " + std::to_string(n);
            for (int i = 0; i < n; ++i) s += " " + std::to_string(K()) + " " + std::to_string(V()) + " " + (r.chance(25) ? "1" : "0"); x.exec(s); }
    }
    void maint(int d) {
        int fl = (r.chance(85) ? 1 : 0) | (r.chance(15) ? 2 : 0);
        int lv = r.range(1, 3);
        if (!x.cfg["noext"]) tainted[d] = maxSeq(d);
        switch (r.below(8)) {
        case 0: case 1: case 2: x.exec(S({d, 0, r.range(0, x.cfg["l0"] - 1), fl}, "maint")); break;
        case 3: x.exec(S({d, 1, lv, fl}, "maint")); break;
        case 4: x.exec(S({d, 2, lv, fl}, "maint")); break;
        case 5: x.exec(S({d, 3, r.range(0, 10), fl}, "maint")); break;
        case 6: x.exec(S({d, 4, lv, fl}, "maint")); break;
        default: x.exec(S({d, 5, lv, fl | (r.chance(70) ? 4 : 0)}, "maint")); break;
        }
    }
    void flush(int d, bool simple = false) {
        if (!simple && prof != "seq" && r.chance(25)) x.exec(S({d, r.range(1, 40), r.chance(30) ? 8 : 0, 0}, "flush"));
        else if (!simple && r.chance(15)) x.exec(S({d, -1, r.chance(30) ? 8 : 0, r.range(1, 2)}, "flush"));
        else x.exec(S({d, -1, r.chance(40) ? 8 : 0, 0}, "flush"));
    }
    // Log-only mode: drop a prefix of what is durable; the bound never goes back.
    void purge(int d) {
        uint64_t sy = 0; long long& last = lastSeq[100 + d];
        if (!x.has(d) || !x.h[d]->getLastSyncedSeqNum(sy) || (long long)sy <= last) return;
        last = r.range((int)last + 1, (int)sy);
        x.exec(S({d, last, 1, 0}, "flush"));
    }
    void sync(int d) { x.exec(S({d, r.chance(70) ? 1 : 0, r.chance(20) ? 1 : 0}, "sync")); }
    void reopen(int d) { x.exec(S({d}, "close")); x.exec(S({d}, "open")); }

    void newItr(bool bySeq) {
        if (x.itr.size() >= 4) x.exec(S({x.itr.begin()->first}, "iclose"));
        if (bySeq) {
            int mx = 60; int lo = r.chance(50) ? 0 : r.range(1, mx), hi = r.chance(50) ? 0 : r.range(1, mx);
            if (lo && hi && lo > hi) std::swap(lo, hi);
            x.exec(S({nextItr++, H(), lo, hi}, "iseq"));
        } else {
            int lo = r.chance(50) ? 0 : K(), hi = r.chance(50) ? 0 : K();
            if (lo && hi && lo > hi) std::swap(lo, hi);
            x.exec(S({nextItr++, H(), lo, hi}, "iopen"));
        }
    }
    void moveItr() {
        if (x.itr.empty()) return;
        auto it = x.itr.begin(); std::advance(it, r.below(x.itr.size()));
        int n = r.range(1, 8);
        int dir = r.below(2);
        for (int i = 0; i < n; ++i) {
            int w = r.below(100);
            if (w < 60) x.exec(S({it->first, dir, 0}, "imove"));
            else if (w < 70) { dir = 1 - dir; x.exec(S({it->first, dir, 0}, "imove")); }
            else if (w < 75) x.exec(S({it->first, 2, 0}, "imove"));
            else if (w < 80) x.exec(S({it->first, 3, 0}, "imove"));
            else x.exec(S({it->first, r.chance(50) ? 4 : 5, x.itrSeq[it->first] ? r.range(1, 60) : K()}, "imove"));
        }
    }
    long long maxSeq(int d) { uint64_t m = 0; if (!x.has(d) || !x.h[d]->getMaxSeqNum(m)) return 0; return (long long)m; }
    void prefix(int h, int stop) {
        if (x.cfg["cmp"]) x.exec(S({h, K()}, "get"));      // prefixes are defined for the byte order only
        else x.exec(S({h, K(), r.range(1, 6), stop}, "prefix"));
    }
    void read(int h) {
        int w = r.below(100);
        if (prof == "near" && w < 75) {
            if (r.chance(75)) x.exec(S({h, K(), r.range(0, 4)}, "near"));
            else prefix(h, r.chance(25) ? r.range(1, 3) : 0);
            return;
        }
        if (prof == "seq" && w < 60) { x.exec(S({h, r.range(1, 50)}, "getsn")); return; }
        if (w < 50) x.exec(S({h, K()}, "get"));
        else if (w < 70) x.exec(S({h, K(), 0}, "getrec"));
        else if (w < 80) x.exec(S({h, K(), 1}, "getrec"));
        else if (w < 88) x.exec(S({h, K(), r.range(0, 4)}, "near"));
        else if (w < 92) prefix(h, 0);
        else if (w < 96) x.exec(S({h, r.range(1, 50)}, "getsn"));
        else if (h < 10) x.exec(S({h}, "seqs"));
    }

    void run() {
        for (int d = 0; d < x.ndb; ++d) x.exec(S({d}, "open"));
        // phases, so that structure (levels, splits) actually builds up
        bool logonly = x.cfg["logonly"];
        while ((int)x.tr.ev.size() < len) {
            int d = D();
            int w = r.below(1000);
            int pw = 350, pr = 250, ps = 60, pf = 80, pm = 80, po = 15, pi = 100, psn = 40, pc = 15;
            if (prof == "iter" || prof == "seqitr") { pi = 350; pr = 50; pw = 300; }
            if (prof == "near") { pr = 450; pi = 20; }
            if (prof == "snap") { psn = 140; pi = 150; pr = 200; pw = 280; }
            if (prof == "maint") { pm = 200; pf = 130; pr = 200; }
            if (prof == "chk") { pc = 90; psn = 90; }
            if (prof == "reopen") { po = 90; ps = 90; }
            if (prof == "batch") { pw = 450; }
            if (prof == "log") { pm = 0; ps = 120; pf = 40; po = 30; psn = 0; pc = 0; }
            int tot = pw + pr + ps + pf + pm + po + pi + psn + pc;
            w = r.below(tot);
            if (w < pw) { int n = r.chance(30) ? r.range(2, 10) : 1; for (int i = 0; i < n; ++i) write(d); }
            else if ((w -= pw) < pr) read(H());
            else if ((w -= pr) < ps) sync(d);
            else if ((w -= ps) < pf) { if (r.chance(60)) sync(d);
                if (logonly) purge(d); else flush(d); }
            else if ((w -= pf) < pm) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) maint(d); }
            else if ((w -= pm) < po) reopen(d);
            else if ((w -= po) < pi) { if (x.itr.empty() || r.chance(25)) newItr(prof == "seqitr" || prof == "log" ? r.chance(85) : prof == "iter" ? false : r.chance(25)); moveItr(); }
            else if ((w -= pi) < psn) {
                std::vector<int> sn; for (auto& e : x.h) if (e.first >= 10) sn.push_back(e.first);
                if (sn.size() >= 3 || (!sn.empty() && r.chance(25))) x.exec(S({r.pick(sn)}, "snapclose"));
                else { long long c = 0; std::vector<long long> cs; for (auto y : x.lastChks[d]) if (y > tainted[d]) cs.push_back(y);
                    if (!cs.empty() && r.chance(60)) c = r.pick(cs); else if (r.chance(5)) c = r.range(1000, 1060); x.exec(S({d, nextSnap++, c}, "snap")); if (nextSnap >= 90) nextSnap = 10; }
            } else { if (r.chance(70)) x.exec(S({d}, "chk")); x.exec(S({d}, "chks")); }
        }
        for (auto& e : std::map<int, DB*>(x.h)) x.observe(e.first, !logonly);
        if (r.chance(40)) { for (int d = 0; d < x.ndb; ++d) { reopen(d); x.observe(d, !logonly); } }
        x.finish();
    }
};
}  // namespace vf
