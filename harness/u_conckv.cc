// Driver of a whole DB used by several threads, under the scheduler: writers,
// readers, maintenance and Jungle's own background threads.
#include "unit.h"
#include "vsched.h"
#include "kvdrv.h"
#include <thread>

using namespace vf;

struct ConcKV : Comp {
    // cfg: seed strategy threads flags(DB configuration as k=v,k=v)
    int seed = 1, strat = 0, nthr = 3; Exec ex; Cfg c;
    std::vector<std::vector<std::string>> prog; int vid = 0;
    struct Ev { bool call; int u; std::string js; };
    std::vector<Ev> ev;
    DB* db = nullptr;
    std::string genCfg(Rng& r) override {
        static const std::vector<int> le = {2, 3, 4, 8, 1000}, ks = {1, 2, 3, 4, 6}, p = {1, 1, 2, 4};
        std::string f = fmt("nk=%d,logent=%d,l0=%d,tblsz=%d,lvlsz=%d,fl=%d,cp=%d,tw=%d", r.pick(ks), r.pick(le), r.pick(p), r.range(0, 1) ? 4096 : 0, r.range(0, 3) ? 0 : 16384, r.range(0, 1), r.range(0, 2) == 2, r.range(1, 2));
        if (r.range(0, 1)) f += ",auto=1";
        if (r.range(0, 3) == 0) f += ",noext=1";
        if (r.range(0, 3) == 0) f += ",noser=1";
        if (r.range(0, 3) == 0) f += fmt(",keepmt=%d", r.range(1, 3));
        if (r.range(0, 5) == 0) f += ",ttl=1";
        if (r.range(0, 5) == 0) f += ",noseq=1";
        if (r.range(0, 5) == 0) f += ",comp=1";
        if (r.range(0, 3) == 0) f += ",bloom=10";
        if (r.range(0, 5) == 0) f += ",dio=1,logsz=5000";
        if (r.range(0, 5) == 0) f += ",fast=1";
        if (r.range(0, 5) == 0) f += ",pw=2";
        return fmt("%d %d %d %s", r.range(1, 1000000000), r.range(0, 2) == 2, r.range(2, 5), f.c_str());
    }
    int nk = 1;
    void begin(const std::string& cfg) override {
        Words w(cfg); seed = w.i(0, 1); strat = w.i(1); nthr = w.i(2, 3); c = Cfg::parse(w.s(3)); nk = std::max(1, c["nk"]);
        vs::lastWords = shared()->note;
        ex.begin(c, dir + "/kv", "x");
        prog.resize(nthr + 1); tr->cfg = fmt("{\"nk\":%d}", nk);
    }
    int seen = 0; std::vector<int> role;
    std::string genOp(Rng& r) override {
        // Thread 1 writes, thread 2 reads; the others do either, or maintenance.
        if (role.empty()) { role.resize(nthr + 1); for (int u = 1; u <= nthr; ++u) role[u] = u == 1 ? 0 : u == 2 ? 1 : r.range(0, 3); }
        int k = r.range(1, nk), p = r.range(0, 99);
        if (seen++ < 6) return p < 55 ? fmt("0 set %d", k) : p < 65 ? fmt("0 del %d", k) : p < 80 ? "0 flush 0" : p < 90 ? "0 sync 0" : "0 cl0 0";
        int u = r.range(1, nthr); int ro = role[u];
        if (ro == 0) {
            if (p < 50) return fmt("%d set %d", u, k);
            if (p < 65) return fmt("%d del %d", u, k);
            if (p < 90) { int n = r.range(2, 3); std::string s = fmt("%d bat", u); for (int i = 0; i < n; ++i) s += fmt(" %d", r.range(1, nk) * (r.range(0, 3) ? 1 : -1)); return s; }
            ro = 1; p = r.range(0, 99);
        }
        if (ro == 1) {
            if (p < 35) return fmt("%d get %d", u, k);
            if (p < 50) return fmt("%d near %d %d", u, k, r.range(0, 3));
            if (p < 65) return fmt("%d snap", u);
            if (p < 75) return fmt("%d sget %d", u, k);
            if (p < 80) return fmt("%d sscan %d", u, r.range(0, 1));
            if (p < 90) return fmt("%d iopen", u);
            return fmt("%d iscan %d", u, r.range(0, 1));
        }
        if (p < 20) return fmt("%d sync %d", u, r.range(0, 1));
        if (p < 45) return fmt("%d flush %d", u, r.pick(std::vector<int>{0, 8, 8, 0}));
        if (p < 55) return fmt("%d fasync %d", u, r.range(0, 1) * 8);
        if (p < 75) return fmt("%d cl0 %d", u, r.range(0, std::max(1, c["l0"]) - 1));
        if (p < 82) return fmt("%d clv %d", u, r.range(0, 2));
        if (p < 86) return fmt("%d cin %d", u, r.range(0, 1));
        if (p < 90) return fmt("%d split %d", u, r.range(1, 2));
        if (p < 94) return fmt("%d merge %d", u, r.range(1, 2));
        return fmt("%d chk", u);
    }
    void exec(const std::string& line) override { Words w(line); prog[std::min<int>(std::max<int>(0, w.i(0)), nthr)].push_back(line.substr(line.find(' ') + 1)); }

    void call(int u, J j) { j.i("u", u); ev.push_back({true, u, j.done()}); }
    void ret(int u, Status s, const std::vector<std::string>& rs = {}) { J j; j.str("op", "ret").i("u", u).i("st", (int)s).raw("rs", jlist(rs)); ev.push_back({false, u, j.done()}); }
    std::string rec(const Record& r, int k = 0) {
        int key = k ? k : ex.keys.find(r.kv.key);
        return fmt("[%d,%d,%lld]", key, r.type == Record::DELETION ? 0 : ex.vals.find(r.kv.value.data, r.kv.value.size), Exec::sq(r.seqNum)); }
    void write(int u, const std::vector<int>& ks, bool batch) {
        std::vector<std::string> it; std::list<Record> l; std::string flat;
        for (int k : ks) {
            Record r; int a = abs(k); r.kv.key = sb(ex.keys.at(a)); int v = 0;
            if (k > 0) { v = 1 + vid++ % 64; r.kv.value = sb(ex.val(v)); } else r.type = Record::DELETION;
            l.push_back(r); it.push_back(fmt("[%d,%d]", a, v));
        }
        call(u, J().str("op", "call").str("c", "w").raw("items", jlist(it)));
        Status s = batch ? db->setRecordBatch(l) : ks[0] > 0 ? db->set(KV(l.front().kv.key, l.front().kv.value)) : db->del(l.front().kv.key);
        ret(u, s);
    }
    std::vector<std::string> scan(Iterator& it, bool back) {
        std::vector<std::string> out; Status s; int lim = nk + 2;
        if (back) s = it.gotoEnd();
        do { Record r; if (!it.get(r)) break; out.push_back(rec(r)); r.free(); s = back ? it.prev() : it.next(); } while (s && --lim);
        if (back) std::reverse(out.begin(), out.end());
        return out;
    }
    void run(int u) {
        DB* sn = nullptr; std::unique_ptr<Iterator> it;
        auto h = [&](const char* c, const char* k) { return J().str("op", "call").str("c", c).str("h", k); };
        auto sclose = [&] { if (!sn) return; call(u, h("close", "s")); Status s = DB::close(sn); sn = nullptr; ret(u, s); };
        auto iclose = [&] { if (!it) return; call(u, h("close", "i")); Status s = it->close(); it.reset(); ret(u, s); };
        auto mt = [&](std::function<Status()> f) { call(u, h("mt", "")); Status s = f(); ret(u, s); };
        for (auto& line : prog[u]) {
            Words w(line); const std::string op = w.op(); int k = std::min<int>(nk, std::max<int>(1, w.i(1)));
            if (op == "set") write(u, {k}, false);
            else if (op == "del") write(u, {-k}, false);
            else if (op == "bat") { std::vector<int> ks; for (size_t i = 1; i < w.w.size(); ++i) { int x = w.i(i); ks.push_back(x < 0 ? -std::min(nk, -x) : std::min(nk, std::max(1, x))); } if (!ks.empty()) write(u, ks, true); }
            else if (op == "get" || (op == "sget" && sn)) {
                call(u, h("get", op == "sget" ? "s" : "").i("k", k));
                Record r; Status s = (op == "sget" ? sn : db)->getRecordByKey(sb(ex.keys.at(k)), r); std::vector<std::string> o; if (s) o.push_back(rec(r)); r.free(); ret(u, s, o);
            }
            else if (op == "near") {
                call(u, h("near", "").i("k", k).i("opt", w.i(2)));
                Record r; Status s = db->getNearestRecordByKey(sb(ex.keys.at(k)), r, (SearchOptions::Options)w.i(2)); std::vector<std::string> o; if (s) o.push_back(rec(r)); r.free(); ret(u, s, o);
            }
            else if (op == "snap") { sclose(); call(u, h("open", "s")); Status s = db->openSnapshot(&sn); ret(u, s); }
            else if (op == "sscan" && sn) { Iterator si; call(u, h("scan", "s")); Status s = si.init(sn); std::vector<std::string> o; if (s) { o = scan(si, w.i(1)); si.close(); } ret(u, s, o); }
            else if (op == "iopen") { iclose(); it.reset(new Iterator()); call(u, h("open", "i")); Status s = it->init(db); ret(u, s); if (!s) it.reset(); }
            else if (op == "iscan" && it) { call(u, h("scan", "i")); auto o = scan(*it, w.i(1)); ret(u, Status(), o); iclose(); }
            else if (op == "sync") mt([&] { return db->sync(w.i(1)); });
            else if (op == "flush") mt([&] { FlushOptions o; o.beyondLastSync = w.i(1) & 8; return db->flushLogs(o); });
            else if (op == "fasync") mt([&] { FlushOptions o; o.beyondLastSync = w.i(1) & 8; return db->flushLogsAsync(o, [](Status, void*) {}, nullptr); });
            else if (op == "cl0") mt([&] { CompactOptions o; o.ignoreThreshold = true; return db->compactL0(o, w.i(1)); });
            else if (op == "clv") mt([&] { CompactOptions o; o.ignoreThreshold = true; return db->compactLevel(o, w.i(1)); });
            else if (op == "cin") mt([&] { CompactOptions o; o.ignoreThreshold = true; return db->compactInplace(o, w.i(1)); });
            else if (op == "split") mt([&] { CompactOptions o; o.ignoreThreshold = true; return db->splitLevel(o, w.i(1)); });
            else if (op == "merge") mt([&] { CompactOptions o; o.ignoreThreshold = true; return db->mergeLevel(o, w.i(1)); });
            else if (op == "chk") mt([&] { uint64_t x; return db->checkpoint(x, true); });
        }
        iclose(); sclose();
    }
    void observe() {
        for (int k = 1; k <= nk; ++k) { call(0, J().str("op", "call").str("c", "get").str("h", "").i("k", k)); Record r; Status s = db->getRecordByKey(sb(ex.keys.at(k)), r); std::vector<std::string> o; if (s) o.push_back(rec(r)); r.free(); ret(0, s, o); }
        for (int b = 0; b < 2; ++b) {
            Iterator it; call(0, J().str("op", "call").str("c", "open").str("h", "i")); Status s = it.init(db); ret(0, s);
            call(0, J().str("op", "call").str("c", "scan").str("h", "i")); std::vector<std::string> o; if (s) o = scan(it, b); ret(0, s, o);
            call(0, J().str("op", "call").str("c", "close").str("h", "i")); if (s) it.close(); ret(0, Status());
        }
    }
    void finish() override {
        vs::Opts o; o.seed = seed; o.strategy = strat; o.maxSteps = 60000000; o.coarse = true;
        vs::begin(o);
        GlobalConfig g = quietGlobal(dir, c["fl"], c["cp"]);
        g.numTableWriters = std::max(1, c["tw"]); g.flusherSleepDuration_ms = 1; g.flusherMinRecordsToTrigger = 3; g.flusherMinLogFilesToTrigger = 2; g.compactorSleepDuration_ms = 2; g.shutdownLogger = false;
        DB::init(g);
        auto open = [&] { DBConfig d = ex.dbConfig(); if (c["cp"]) { d.numWritesToCompact = 4; } db = nullptr; return DB::open(&db, ex.path(0), d); };
        Status s = open();
        if (s) {
            run(0);
            { std::vector<std::thread> t; for (int u = 1; u <= nthr; ++u) t.emplace_back([this, u] { run(u); }); for (auto& x : t) x.join(); }
            observe();
            call(0, J().str("op", "call").str("c", "mt").str("h", "")); s = db->sync(false); ret(0, s);
            call(0, J().str("op", "call").str("c", "mt").str("h", "")); s = DB::close(db); db = nullptr; if (s) s = open(); ret(0, s);
            if (s) { observe(); DB::close(db); }
        }
        DB::shutdown();
        vs::end();
        for (auto& e : ev) tr->ev.push_back(e.js);
        tr->add(J().str("op", "end").i("st", (int)s));
    }
};
int main(int argc, char** argv) { return unitMain(argc, argv, [] { return new ConcKV(); }, 300, 1); }
