// Executes operation scripts on real Jungle DBs and records what was observed.
#pragma once
#include "common.h"
#include <libjungle/jungle.h>
#include <libjungle/iterator.h>
#include <libjungle/global_batch.h>
#include <libjungle/db_stats.h>
#include <memory>

namespace vf {
using namespace jungle;

// ---- configuration of one trace -------------------------------------------
struct Cfg {
    std::map<std::string, int> v;
    int operator[](const char* k) const { auto it = v.find(k); return it == v.end() ? 0 : it->second; }
    void set(const char* k, int x) { v[k] = x; }
    std::string str() const { std::string s; for (auto& e : v) { if (!s.empty()) s += ","; s += e.first + "=" + std::to_string(e.second); } return s; }
    static Cfg parse(const std::string& s) {
        Cfg c; std::stringstream ss(s); std::string t;
        while (std::getline(ss, t, ',')) { size_t p = t.find('='); if (p != std::string::npos) c.v[t.substr(0, p)] = atoi(t.c_str() + p + 1); }
        return c;
    }
    std::string json() const { J j; for (auto& e : v) j.i(e.first.c_str(), e.second); return j.done(); }
};

// ---- key universe ----------------------------------------------------------
// cmp 0: bytewise; 1: reverse bytewise; 2: by trailing byte-reversed content.
inline int bytecmp(const void* a, size_t la, const void* b, size_t lb) {
    int c = memcmp(a, b, std::min(la, lb));
    if (c) return c;
    return la < lb ? -1 : la > lb ? 1 : 0;
}
inline int cmp_rev(void* a, size_t la, void* b, size_t lb, void*) { return -bytecmp(a, la, b, lb); }
inline int cmp_mirror(void* a, size_t la, void* b, size_t lb, void*) {
    std::string x((char*)a, la), y((char*)b, lb);
    std::reverse(x.begin(), x.end()); std::reverse(y.begin(), y.end());
    return bytecmp(x.data(), x.size(), y.data(), y.size());
}
struct Keys {
    std::vector<std::string> k;          // k[0] is ordinal 1
    std::map<std::string, int> ord;
    int cmp = 0;
    void build(int style, int n, int cmp_kind) {
        cmp = cmp_kind;
        std::set<std::string> s;
        Rng r(style * 1000 + n);
        for (int i = 0; (int)s.size() < n; ++i) {
            char b[64]; std::string x;
            switch (style) {
            case 0: snprintf(b, sizeof b, "k%04d", i * 7 + 3); x = b; break;
            case 1: { int y = i + 1; while (y) { x += "ab\x01"[y % 3]; y /= 3; } x = std::string("p") + x; break; }   // nested prefixes
            case 2: { int l = 1 + r.below(5); for (int q = 0; q < l; ++q) { static const unsigned char al[] = {0x01, 0x7f, 0x80, 0xff, 'a', 0xfe}; x.push_back((char)al[r.below(6)]); } break; }
            case 3: { x = std::string(100 + (i % 3) * 57, 'L'); snprintf(b, sizeof b, "%05d", (int)r.below(100000)); x += b; if (i % 2) x += std::string(i % 5, 'z'); break; }
            case 4: { int l = 1 + r.below(4); for (int q = 0; q < l; ++q) x.push_back("\0\1\2ab"[r.below(5)]); x = "N" + x; if (i % 4 == 0) x = "M" + std::to_string(i); break; } // embedded / trailing NULs
            default: snprintf(b, sizeof b, "%d", i * i); x = b;
            }
            s.insert(x);
        }
        k.assign(s.begin(), s.end());
        std::sort(k.begin(), k.end(), [&](const std::string& a, const std::string& b) { return compare(a, b) < 0; });
        for (int i = 0; i < n; ++i) ord[k[i]] = i + 1;
    }
    int compare(const std::string& a, const std::string& b) const {
        if (cmp == 1) return cmp_rev((void*)a.data(), a.size(), (void*)b.data(), b.size(), nullptr);
        if (cmp == 2) return cmp_mirror((void*)a.data(), a.size(), (void*)b.data(), b.size(), nullptr);
        return bytecmp(a.data(), a.size(), b.data(), b.size());
    }
    const std::string& at(int o) const { return k[o - 1]; }
    int n() const { return (int)k.size(); }
    int find(const SizedBuf& b) const { if (!b.data) return -1; auto it = ord.find(std::string((char*)b.data, b.size)); return it == ord.end() ? -1 : it->second; }
    std::vector<long long> withPrefix(const std::string& p) const {
        std::vector<long long> r;
        for (int i = 0; i < n(); ++i) if (k[i].size() >= p.size() && k[i].compare(0, p.size(), p) == 0) r.push_back(i + 1);
        return r;
    }
};

inline SizedBuf sb(const std::string& s) { return SizedBuf(s.size(), (void*)s.data()); }

// ---- toy run-length compression -------------------------------------------
inline std::string toyRle(const void* p, size_t n) {
    std::string o; const char* c = (const char*)p;
    for (size_t i = 0; i < n;) { size_t j = i; while (j < n && c[j] == c[i] && j - i < 255) ++j; o.push_back((char)(unsigned char)(j - i)); o.push_back(c[i]); i = j; }
    return o;
}

struct Exec {
    Cfg cfg;
    Keys keys;
    Dict vals, metas;
    std::string dir;
    Trace tr;
    std::map<int, DB*> h;                 // handles: 0.. = DBs, >= 10 snapshots
    std::map<int, int> snapOf;
    std::map<int, std::unique_ptr<Iterator>> itr;
    std::map<int, int> itrOf;
    std::map<int, bool> itrSeq;
    std::vector<std::string> script;
    std::map<int, std::vector<long long>> lastChks;   // checkpoints last listed
    std::function<void(const std::string&)> onOp;
    int ndb = 1;

    DBConfig dbConfig() const {
        DBConfig c;
        c.allowLogging = getenv("VF_DBLOG") != nullptr;
        c.autoLogFlush = cfg["auto"];
        if (cfg["logent"]) c.maxEntriesInLogFile = cfg["logent"];
        if (cfg["logsz"]) c.maxLogFileSize = cfg["logsz"];
        if (cfg["l0"]) c.numL0Partitions = cfg["l0"];
        c.nextLevelExtension = !cfg["noext"];
        c.useSequenceIndex = !cfg["noseq"];
        c.fastIndexScan = cfg["fast"];
        c.purgeDeletedDocImmediately = !cfg["nopurge"];
        c.logSectionOnly = cfg["logonly"];
        if (cfg["keepmt"]) c.maxKeepingMemtables = cfg["keepmt"];
        if (cfg["ttl"]) c.logFileTtl_sec = cfg["ttl"];
        c.skipManifestSync = cfg["skipmani"];
        c.allowOverwriteSeqNum = cfg["owseq"];
        c.truncateInconsecutiveLogs = !cfg["notrunc"];
        if (cfg["keepchk"]) c.maxKeepingCheckpoints = cfg["keepchk"];
        if (cfg["tblsz"]) { c.maxL0TableSize = cfg["tblsz"]; c.maxL1TableSize = cfg["tblsz"]; }
        if (cfg["lvlsz"]) { c.maxL1Size = cfg["lvlsz"]; c.levelSizeRatio = {2.0}; }
        c.minFileSizeToCompact = 1; c.minWssToMerge = cfg["wss"] ? cfg["wss"] : 64 * 1024;
        c.minNumTablesPerLevel = cfg["mintab"] ? cfg["mintab"] : 8;
        c.maxParallelWritesPerJob = cfg["pw"];
        c.bloomFilterBitsPerUnit = cfg["bloom"];
        c.lookupBoosterLimit_mb = {1, 1};
        if (cfg["noboost"]) c.lookupBoosterLimit_mb = {0, 0};
        if (cfg["dio"]) { c.directIoOpt.enabled = true; c.directIoOpt.bufferSize = cfg["dio"] == 2 ? 16384 : 4096; c.directIoOpt.alignSize = 512; }
        if (cfg["predirty"]) c.preFlushDirtySize = 1;
        c.serializeMultiThreadedLogFlush = !cfg["noser"];
        c.readOnly = cfg["ro"];
        if (keys.cmp == 1) c.cmpFunc = cmp_rev;
        if (keys.cmp == 2) c.cmpFunc = cmp_mirror;
        if (cfg["hashlen"]) { int n = cfg["hashlen"]; c.customLenForHash = [n](const HashKeyLenParams&) -> size_t { return n; }; }
        if (cfg["comp"]) {
            bool neg = cfg["comp"] == 2;
            c.compOpt.cbGetMaxSize = [neg](DB*, const Record& r) -> ssize_t { if (neg && r.kv.value.size % 2) return 0; return r.kv.value.size * 2 + 16; };
            c.compOpt.cbCompress = [](DB*, const Record& r, SizedBuf& d) -> ssize_t {
                std::string o = toyRle(r.kv.value.data, r.kv.value.size);
                if (o.size() > d.size) return -1;
                if (o.size() >= r.kv.value.size) return 0;
                memcpy(d.data, o.data(), o.size()); return o.size(); };
            c.compOpt.cbDecompress = [](DB*, const SizedBuf& s, SizedBuf& d) -> ssize_t {
                size_t o = 0;
                for (size_t i = 0; i + 1 < s.size; i += 2) { size_t n = ((unsigned char*)s.data)[i]; if (o + n > d.size) return -1; memset((char*)d.data + o, ((char*)s.data)[i + 1], n); o += n; }
                return o; };
        }
        return c;
    }

    std::string path(int d) const { return dir + "/db" + std::to_string(d); }
    const std::string& val(int id) {
        static const size_t lens[] = {8, 0, 30, 200, 1500, 60, 12, 5000};
        size_t l = lens[id % 8]; if (cfg["bigval"]) l *= 3;
        return vals.get(id, l);
    }
    const std::string& meta(int id) { return metas.get(id, 4 + id % 20); }

    void begin(const Cfg& c, const std::string& d, const std::string& name) {
        cfg = c; dir = d; ndb = std::max(1, cfg["ndb"]);
        keys.build(cfg["style"], std::max(1, cfg["nk"]), cfg["cmp"]);
        vals = Dict(); metas = Dict(); tr = Trace(); tr.name = name; tr.cfg = cfg.json();
        script.clear(); lastChks.clear();
        for (int i = 1; i <= 64; ++i) { val(i); if (i <= 20) meta(i); }   // records keep pointers into the dictionary
        rm_tree(dir); mk_dir(dir);
    }

    // ---- rendering ----
    void putRec(J& j, Status s, Record& r, bool meta_only = false) {
        j.i("st", (int)s);
        if (!s) return;
        j.i("rk", keys.find(r.kv.key)).i("rs", r.seqNum == Record::NIL_SEQNUM ? 0 : (long long)r.seqNum);
        j.i("rt", (int)r.type).i("rv", meta_only ? 0 : vals.find(r.kv.value.data, r.kv.value.size)).i("rm", metas.find(r.meta.data, r.meta.size));
    }
    std::string recJson(const Record& r) {
        J j;
        j.i("rk", keys.find(r.kv.key)).i("rs", (long long)r.seqNum).i("rt", (int)r.type)
            .i("rv", vals.find(r.kv.value.data, r.kv.value.size)).i("rm", metas.find(r.meta.data, r.meta.size));
        return j.done();
    }
    static long long sq(uint64_t x) { return x == (uint64_t)-1 ? -1 : (long long)x; }
    void closeDerived(int d) {
        for (auto it = itr.begin(); it != itr.end();) {
            int o = itrOf[it->first];
            if (o == d || (o >= 10 && snapOf[o] == d)) { exec("iclose " + std::to_string(it->first)); it = itr.begin(); }
            else ++it;
        }
        for (auto it = h.begin(); it != h.end();) {
            if (it->first >= 10 && snapOf[it->first] == d) { exec("snapclose " + std::to_string(it->first)); it = h.begin(); }
            else ++it;
        }
    }
    bool has(int x) const { return h.count(x) && h.at(x); }

    // Executes one operation of the script language; returns false when the
    // operation does not apply (unknown handle): nothing is recorded then.
    bool exec(const std::string& line) {
        std::stringstream ss(line);
        std::string op; ss >> op;
        auto I = [&]() { long long x = 0; ss >> x; return x; };
        J j; j.str("op", op);
        if (onOp) onOp(line);
        bool ok = doOp(op, I, j);
        if (ok) { tr.add(j); script.push_back(line); }
        return ok;
    }

    template <class F> bool doOp(const std::string& op, F I, J& j) {
        if (op == "open") {
            int d = I(); if (has(d)) return false;
            DB* db = nullptr; Status s = DB::open(&db, path(d), dbConfig());
            j.i("d", d).i("st", (int)s);
            if (s) h[d] = db;
            return true;
        }
        if (op == "close") {
            int d = I(); if (!has(d)) return false;
            closeDerived(d);
            Status s = DB::close(h[d]); h.erase(d);
            j.i("d", d).i("st", (int)s);
            return true;
        }
        if (op == "set") {
            int d = I(), k = I(), v = I(), m = I(); if (!has(d)) return false;
            Status s;
            if (m) { Record r; r.kv.key = sb(keys.at(k)); r.kv.value = sb(val(v)); r.meta = sb(meta(m)); s = h[d]->setRecordByKey(r); }
            else s = h[d]->set(KV(sb(keys.at(k)), sb(val(v))));
            j.i("d", d).i("k", k).i("v", v).i("m", m).i("st", (int)s);
            return true;
        }
        if (op == "setsn") {
            int d = I(); uint64_t sn = I(); int k = I(), v = I(), m = I(); if (!has(d)) return false;
            Status s;
            if (m) { Record r; r.kv.key = sb(keys.at(k)); r.kv.value = sb(val(v)); r.meta = sb(meta(m)); r.seqNum = sn; s = h[d]->setRecord(r); }
            else s = h[d]->setSN(sn, KV(sb(keys.at(k)), sb(val(v))));
            j.i("d", d).i("s", sn).i("k", k).i("v", v).i("m", m).i("st", (int)s);
            return true;
        }
        if (op == "del") {
            int d = I(), k = I(), m = I(); if (!has(d)) return false;
            Status s;
            if (m) { Record r; r.kv.key = sb(keys.at(k)); r.meta = sb(meta(m)); s = h[d]->delRecord(r); }
            else s = h[d]->del(sb(keys.at(k)));
            j.i("d", d).i("k", k).i("m", m).i("st", (int)s);
            return true;
        }
        if (op == "delsn") {
            int d = I(); uint64_t sn = I(); int k = I(); if (!has(d)) return false;
            Status s = h[d]->delSN(sn, sb(keys.at(k)));
            j.i("d", d).i("s", sn).i("k", k).i("st", (int)s);
            return true;
        }
        if (op == "batch" || op == "gbatch") {
            // batch d n (k v t)*   |  gbatch n (d k v t)*
            bool g = op == "gbatch";
            int d = g ? 0 : I(); int n = I();
            if (!g && !has(d)) return false;
            std::map<int, std::list<Record>> per; std::vector<std::string> items; bool okh = true;
            std::vector<long long> order;
            for (int i = 0; i < n; ++i) {
                int dd = g ? (int)I() : d; int k = I(), v = I(), t = I();
                if (!has(dd)) okh = false;
                Record r; r.kv.key = sb(keys.at(k)); if (t == 0) r.kv.value = sb(val(v));
                r.type = t == 0 ? Record::INSERTION : Record::DELETION;
                per[dd].push_back(r);
                items.push_back(J().i("d", dd).i("k", k).i("v", t == 0 ? v : 0).i("t", t).done());
            }
            if (!okh) return false;
            Status s;
            if (g) {
                GlobalBatch gb;
                for (auto& e : per) gb.addBatch(h[e.first], e.second);
                s = gb.execute();
            } else s = h[d]->setRecordBatch(per[d]);
            j.i("d", d).raw("items", jlist(items)).i("st", (int)s);
            return true;
        }
        if (op == "get") {
            int d = I(), k = I(); if (!has(d)) return false;
            SizedBuf v; Status s = h[d]->get(sb(keys.at(k)), v);
            j.i("h", d).i("k", k).i("st", (int)s).i("rv", s ? vals.find(v.data, v.size) : 0);
            v.free();
            return true;
        }
        if (op == "getrec") {
            int d = I(), k = I(), mo = I(); if (!has(d)) return false;
            Record r; Status s = h[d]->getRecordByKey(sb(keys.at(k)), r, mo);
            j.i("h", d).i("k", k).i("mo", mo); putRec(j, s, r, mo);
            r.free();
            return true;
        }
        if (op == "getsn") {
            int d = I(); uint64_t sn = I(); if (!has(d)) return false;
            j.i("h", d).i("s", sn);
            Record r; Status s = h[d]->getRecord(sn, r);
            putRec(j, s, r); r.free();
            return true;
        }
        if (op == "near") {
            int d = I(), k = I(), o = I(); if (!has(d)) return false;
            Record r; Status s = h[d]->getNearestRecordByKey(sb(keys.at(k)), r, (SearchOptions::Options)o);
            j.i("h", d).i("k", k).i("opt", o); putRec(j, s, r); r.free();
            return true;
        }
        if (op == "prefix") {
            // prefix h k len stop : prefix = first len bytes of key k
            int d = I(), k = I(), len = I(), stop = I(); if (!has(d)) return false;
            std::string p = keys.at(k).substr(0, std::min<size_t>(std::max(1, len), keys.at(k).size()));
            std::vector<std::string> got; int cnt = 0;
            Status s = h[d]->getRecordsByPrefix(sb(p), [&](const SearchCbParams& pr) {
                got.push_back(recJson(pr.rec));
                return (stop && ++cnt >= stop) ? SearchCbDecision::STOP : SearchCbDecision::NEXT; });
            j.i("h", d).arr("ks", keys.withPrefix(p)).i("stop", stop).i("st", (int)s).raw("rs", jlist(got));
            return true;
        }
        if (op == "seqs") {
            int d = I(); if (!has(d)) return false;
            uint64_t mx = 0, mn = 0, fl = 0, sy = 0;
            Status a = h[d]->getMaxSeqNum(mx), b = h[d]->getMinSeqNum(mn), c = h[d]->getLastFlushedSeqNum(fl), e = h[d]->getLastSyncedSeqNum(sy);
            j.i("d", d).i("mx", a ? sq(mx) : -2).i("mn", b ? sq(mn) : -2).i("fl", c ? sq(fl) : -2).i("sy", e ? sq(sy) : -2);
            return true;
        }
        if (op == "sync") {
            int d = I(), fs = I(), nw = I(); if (!has(d)) return false;
            Status s = nw ? h[d]->syncNoWait(fs) : h[d]->sync(fs);
            j.i("d", d).i("fs", fs).i("st", (int)s);
            return true;
        }
        if (op == "flush") {
            int d = I(); long long sn = I(); int bits = I(), nf = I(); if (!has(d)) return false;
            FlushOptions o; o.purgeOnly = bits & 1; o.syncOnly = bits & 2; o.callFsync = bits & 4; o.beyondLastSync = bits & 8; o.numFilesLimit = nf;
            Status s = h[d]->flushLogs(o, sn < 0 ? (uint64_t)-1 : (uint64_t)sn);
            j.i("d", d).i("s", sn).i("purge", bits & 1 ? 1 : 0).i("bey", bits & 8 ? 1 : 0).i("nf", nf).i("st", (int)s);
            return true;
        }
        if (op == "chk") {
            int d = I(); if (!has(d)) return false;
            uint64_t x = 0; Status s = h[d]->checkpoint(x, true);
            j.i("d", d).i("st", (int)s).i("s", s ? sq(x) : 0);
            return true;
        }
        if (op == "chks") {
            int d = I(); if (!has(d)) return false;
            std::list<uint64_t> l; Status s = h[d]->getCheckpoints(l);
            std::vector<long long> v; for (auto x : l) v.push_back(sq(x));
            lastChks[d] = v;
            j.i("d", d).i("st", (int)s).arr("chks", v);
            return true;
        }
        if (op == "maint") {
            // maint d kind arg flags
            int d = I(), kind = I(); long long a = I(); int fl = I(); if (!has(d)) return false;
            CompactOptions o; o.ignoreThreshold = fl & 1; o.preserveTombstone = fl & 2;
            DebugParams dp; dp.forceMerge = fl & 4; if (fl & 4) DB::setDebugParams(dp);
            Status s;
            switch (kind) {
            case 0: s = h[d]->compactL0(o, a); break;
            case 1: s = h[d]->compactLevel(o, a); break;
            case 2: s = h[d]->compactInplace(o, a); break;
            case 3: s = h[d]->compactIdxUpto(o, a); break;
            case 4: s = h[d]->splitLevel(o, a); break;
            default: s = h[d]->mergeLevel(o, a); break;
            }
            if (fl & 4) DB::setDebugParams(DebugParams());
            j.i("d", d).i("kind", kind).i("arg", a).i("st", (int)s);
            return true;
        }
        if (op == "snap") {
            int d = I(), id = I(); uint64_t c = I(); if (!has(d) || has(id)) return false;
            DB* sdb = nullptr; Status s = h[d]->openSnapshot(&sdb, c);
            j.i("d", d).i("id", id).i("chk", c).i("st", (int)s);
            if (s) { h[id] = sdb; snapOf[id] = d; }
            return true;
        }
        if (op == "snapclose") {
            int id = I(); if (!has(id)) return false;
            for (auto it = itr.begin(); it != itr.end();) { if (itrOf[it->first] == id) { exec("iclose " + std::to_string(it->first)); it = itr.begin(); } else ++it; }
            Status s = DB::close(h[id]); h.erase(id);
            j.i("id", id).i("st", (int)s);
            return true;
        }
        if (op == "iopen") {
            int id = I(), d = I(), lo = I(), hi = I(); if (!has(d) || itr.count(id)) return false;
            std::unique_ptr<Iterator> it(new Iterator());
            Status s = it->init(h[d], lo ? sb(keys.at(lo)) : SizedBuf(), hi ? sb(keys.at(hi)) : SizedBuf());
            j.i("id", id).i("h", d).i("lo", lo).i("hi", hi).i("st", (int)s);
            if (s) { itr[id] = std::move(it); itrOf[id] = d; itrSeq[id] = false; Record r; Status g = itr[id]->get(r); J jj; putRec(jj, g, r); j.raw("g", jj.done()); r.free(); }
            return true;
        }
        if (op == "iseq") {
            int id = I(), d = I(); long long lo = I(), hi = I(); if (!has(d) || itr.count(id)) return false;
            std::unique_ptr<Iterator> it(new Iterator());
            Status s = it->initSN(h[d], lo ? (uint64_t)lo : (uint64_t)-1, hi ? (uint64_t)hi : (uint64_t)-1);
            j.i("id", id).i("h", d).i("lo", lo).i("hi", hi).i("st", (int)s);
            if (s) { itr[id] = std::move(it); itrOf[id] = d; itrSeq[id] = true; Record r; Status g = itr[id]->get(r); J jj; putRec(jj, g, r); j.raw("g", jj.done()); r.free(); }
            return true;
        }
        if (op == "imove") {
            // m: 0 next 1 prev 2 begin 3 end 4 seek>= 5 seek<=
            int id = I(), m = I(); long long a = I(); if (!itr.count(id)) return false;
            Iterator* it = itr[id].get(); Status s;
            bool sq_ = itrSeq[id];
            switch (m) {
            case 0: s = it->next(); break;
            case 1: s = it->prev(); break;
            case 2: s = it->gotoBegin(); break;
            case 3: s = it->gotoEnd(); break;
            case 4: s = sq_ ? it->seekSN(a, Iterator::GREATER) : it->seek(sb(keys.at(a)), Iterator::GREATER); break;
            default: s = sq_ ? it->seekSN(a, Iterator::SMALLER) : it->seek(sb(keys.at(a)), Iterator::SMALLER); break;
            }
            j.i("id", id).i("m", m).i("a", a).i("st", (int)s);
            Record r; Status g = it->get(r); J jj; putRec(jj, g, r); j.raw("g", jj.done()); r.free();
            return true;
        }
        if (op == "iclose") {
            int id = I(); if (!itr.count(id)) return false;
            Status s = itr[id]->close(); itr.erase(id);
            j.i("id", id).i("st", (int)s);
            return true;
        }
        if (op == "discard") {
            int d = I(); uint64_t s0 = I(); if (!has(d)) return false;
            Status s = h[d]->discardDirty(s0);
            j.i("d", d).i("s", s0).i("st", (int)s);
            return true;
        }
        if (op == "rollback") {
            int d = I(); uint64_t s0 = I(); if (!has(d)) return false;
            Status s = h[d]->rollback(s0);
            j.i("d", d).i("s", s0).i("st", (int)s);
            return true;
        }
        fprintf(stderr, "unknown op %s\n", op.c_str());
        exit(2);
    }

    // Full observation of a handle: every key by point get and one forward and
    // one backward scan.
    void observe(int x, bool scans = true) {
        for (int k = 1; k <= keys.n(); ++k) exec("get " + std::to_string(x) + " " + std::to_string(k));
        if (!scans) return;
        std::string id = "900";
        if (exec("iopen " + id + " " + std::to_string(x) + " 0 0")) {
            for (int i = 0; i < keys.n() + 1; ++i) exec("imove " + id + " 0 0");
            exec("imove " + id + " 3 0");
            for (int i = 0; i < keys.n() + 1; ++i) exec("imove " + id + " 1 0");
            exec("iclose " + id);
        }
    }
    void finish() {
        while (!itr.empty()) exec("iclose " + std::to_string(itr.begin()->first));
        std::vector<int> hs; for (auto& e : h) if (e.first >= 10) hs.push_back(e.first);
        for (int x : hs) exec("snapclose " + std::to_string(x));
        hs.clear(); for (auto& e : h) hs.push_back(e.first);
        for (int x : hs) exec("close " + std::to_string(x));
    }
};

inline GlobalConfig quietGlobal(const std::string& root, int flushers = 0, int compactors = 0) {
    GlobalConfig g;
    g.globalLogPath = root;
    g.numFlusherThreads = flushers; g.numCompactorThreads = compactors;
    g.numTableWriters = 2; g.memTableFlushBufferSize = 256;
    g.logFileReclaimerSleep_sec = 1;
    g.fdbCacheSize = 1 << 20;
    return g;
}
}  // namespace vf
