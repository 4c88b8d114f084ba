// Reference model of ForestDB: a multi-version, append-only, single-KVS file.
//
// Contract modelled (what Jungle relies on):
//   * fdb_set/fdb_del through a file's handle become visible to other handles
//     and durable only at fdb_commit; a crash keeps exactly a prefix of commits.
//   * every commit has a marker (kvs seqnum = max seqnum ever set).
//   * a snapshot is the state at one commit and never changes.
//   * the last set of a key wins, whatever its seqnum.
// On disk: docs appended, then a commit record; everything checksummed.
#include <libforestdb/forestdb.h>

#include <fcntl.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

namespace {

uint32_t crc_tab[256];
struct CrcInit { CrcInit() { for (uint32_t i = 0; i < 256; ++i) { uint32_t c = i;
    for (int k = 0; k < 8; ++k) c = (c & 1) ? 0xEDB88320u ^ (c >> 1) : c >> 1; crc_tab[i] = c; } } } crc_init;
uint32_t crc(const void* p, size_t n) {
    const uint8_t* b = (const uint8_t*)p; uint32_t c = ~0u;
    for (size_t i = 0; i < n; ++i) c = crc_tab[(c ^ b[i]) & 255] ^ (c >> 8);
    return ~c;
}

const uint32_t MAGIC_DOC = 0xd0cd0c01, MAGIC_DEL = 0xd0cd0c02, MAGIC_COMMIT = 0xc0111701;
const uint64_t FILE_HDR = 4096;   // so that offset 0 is never a valid doc offset

struct Hdr {
    uint32_t magic, keylen, metalen, bodylen;
    uint64_t seq;
    uint32_t body_crc, hdr_crc;
};

struct Doc {
    std::string key;
    uint64_t seq, offset;
    uint32_t metalen, bodylen;
    bool deleted;
    uint64_t size() const { return sizeof(Hdr) + key.size() + metalen + bodylen; }
};
typedef std::shared_ptr<Doc> DocP;

struct Cmp {
    fdb_custom_cmp_variable fn = nullptr;
    void* param = nullptr;
    int operator()(const std::string& a, const std::string& b) const { return cmp(a.data(), a.size(), b.data(), b.size()); }
    int cmp(const void* a, size_t la, const void* b, size_t lb) const {
        if (fn) return fn((void*)a, la, (void*)b, lb, param);
        size_t m = std::min(la, lb);
        int c = m ? memcmp(a, b, m) : 0;
        if (c) return c;
        return la < lb ? -1 : la > lb ? 1 : 0;
    }
};

struct View {
    uint64_t seq = 0;
    uint64_t bytes = 0;
    std::vector<DocP> byKey, bySeq;
};
typedef std::shared_ptr<View> ViewP;

struct CommitInfo { uint64_t seq; size_t ndocs; std::weak_ptr<View> view; };

struct Less { const Cmp* c; bool operator()(const std::string& a, const std::string& b) const { return (*c)(a, b) < 0; } };

struct File {
    ~File() { if (fd >= 0) ::close(fd); }   // snapshots/iterators may outlive the handle
    std::string path;
    int fd = -1;
    int refs = 0;
    Cmp cmp;
    std::recursive_mutex m;
    std::vector<DocP> history;                // all docs in append order
    std::vector<CommitInfo> commits;
    std::unique_ptr<std::map<std::string, DocP, Less>> work;
    ViewP latest;
    uint64_t seq = 0, end = FILE_HDR;         // end: logical end incl. buffer
    std::string buf; uint64_t bufOff = FILE_HDR;

    bool writeAll(const void* p, size_t n, uint64_t off) {
        const char* c = (const char*)p;
        while (n) { ssize_t r = ::pwrite(fd, c, n, off); if (r <= 0) return false; c += r; n -= r; off += r; }
        return true;
    }
    bool flushBuf() {
        if (buf.empty()) return true;
        if (!writeAll(buf.data(), buf.size(), bufOff)) return false;
        bufOff += buf.size(); buf.clear();
        return true;
    }
    void apply(const DocP& d) {
        work->erase(d->key);
        if (!d->deleted) (*work)[d->key] = d;
    }
    ViewP build(const std::map<std::string, DocP, Less>& mm, uint64_t s) {
        ViewP v = std::make_shared<View>();
        v->seq = s;
        v->byKey.reserve(mm.size());
        for (auto& e : mm) { v->byKey.push_back(e.second); v->bytes += e.second->size(); }
        v->bySeq = v->byKey;
        std::sort(v->bySeq.begin(), v->bySeq.end(), [](const DocP& a, const DocP& b) { return a->seq < b->seq; });
        return v;
    }
    ViewP viewOf(size_t idx) {
        if (ViewP v = commits[idx].view.lock()) return v;
        std::map<std::string, DocP, Less> mm(Less{&cmp});
        for (size_t i = 0; i < commits[idx].ndocs; ++i) {
            mm.erase(history[i]->key);
            if (!history[i]->deleted) mm[history[i]->key] = history[i];
        }
        ViewP v = build(mm, commits[idx].seq);
        commits[idx].view = v;
        return v;
    }
    void publish() {
        latest = build(*work, seq);
        CommitInfo ci; ci.seq = seq; ci.ndocs = history.size(); ci.view = latest;
        commits.push_back(ci);
    }
    // Replays the file; keeps the longest valid prefix ending in a commit.
    fdb_status load() {
        work.reset(new std::map<std::string, DocP, Less>(Less{&cmp}));
        struct stat st; if (fstat(fd, &st)) return FDB_RESULT_OPEN_FAIL;
        uint64_t sz = st.st_size, off = FILE_HDR, good_end = FILE_HDR;
        size_t good_docs = 0; uint64_t cur_seq = 0;
        std::string tmp;
        while (off + sizeof(Hdr) <= sz) {
            Hdr h;
            if (::pread(fd, &h, sizeof h, off) != (ssize_t)sizeof h) break;
            if (h.hdr_crc != crc(&h, sizeof(Hdr) - 4)) break;
            if (h.magic == MAGIC_COMMIT) {
                off += sizeof(Hdr);
                good_end = off; good_docs = history.size();
                cur_seq = h.seq;
                CommitInfo ci; ci.seq = h.seq; ci.ndocs = good_docs;
                commits.push_back(ci);
                continue;
            }
            if (h.magic != MAGIC_DOC && h.magic != MAGIC_DEL) break;
            if (off + sizeof(Hdr) + h.keylen + h.metalen + h.bodylen > sz) break;
            tmp.resize(h.keylen);
            if (h.keylen && ::pread(fd, &tmp[0], h.keylen, off + sizeof(Hdr)) != (ssize_t)h.keylen) break;
            DocP d = std::make_shared<Doc>();
            d->key = tmp; d->seq = h.seq; d->offset = off; d->metalen = h.metalen; d->bodylen = h.bodylen;
            d->deleted = h.magic == MAGIC_DEL;
            history.push_back(d);
            off += d->size();
        }
        history.resize(good_docs);
        for (auto& d : history) apply(d);
        seq = cur_seq;
        latest = build(*work, seq);
        if (commits.size()) commits.back().view = latest;
        end = bufOff = good_end;
        return FDB_RESULT_SUCCESS;
    }
    fdb_status readDoc(uint64_t off, fdb_doc* out, bool meta_only, const Doc* expect) {
        std::string blob; Hdr h;
        if (off >= bufOff) {
            if (off - bufOff + sizeof(Hdr) > buf.size()) return FDB_RESULT_READ_FAIL;
            memcpy(&h, buf.data() + (off - bufOff), sizeof h);
        } else if (::pread(fd, &h, sizeof h, off) != (ssize_t)sizeof h) return FDB_RESULT_READ_FAIL;
        if (h.hdr_crc != crc(&h, sizeof(Hdr) - 4)) return FDB_RESULT_CHECKSUM_ERROR;
        if (h.magic != MAGIC_DOC && h.magic != MAGIC_DEL) return FDB_RESULT_READ_FAIL;
        size_t n = (size_t)h.keylen + h.metalen + h.bodylen;
        blob.resize(n);
        if (off >= bufOff) {
            if (off - bufOff + sizeof(Hdr) + n > buf.size()) return FDB_RESULT_READ_FAIL;
            memcpy(&blob[0], buf.data() + (off - bufOff) + sizeof(Hdr), n);
        } else if (n && ::pread(fd, &blob[0], n, off + sizeof(Hdr)) != (ssize_t)n) return FDB_RESULT_READ_FAIL;
        if (h.body_crc != crc(blob.data(), n)) return FDB_RESULT_CHECKSUM_ERROR;
        if (expect && expect->key != blob.substr(0, h.keylen)) return FDB_RESULT_FILE_CORRUPTION;
        auto fill = [](void*& p, const char* src, size_t len) { if (!p && len) p = malloc(len); if (len) memcpy(p, src, len); };
        fill(out->key, blob.data(), h.keylen); out->keylen = h.keylen;
        fill(out->meta, blob.data() + h.keylen, h.metalen); out->metalen = h.metalen;
        if (!meta_only) fill(out->body, blob.data() + h.keylen + h.metalen, h.bodylen);
        out->bodylen = h.bodylen;
        out->seqnum = h.seq; out->offset = off; out->deleted = h.magic == MAGIC_DEL;
        out->size_ondisk = sizeof(Hdr) + n;
        return FDB_RESULT_SUCCESS;
    }
};
typedef std::shared_ptr<File> FileP;

std::mutex g_mu;
std::map<std::string, FileP> g_files;

std::string canon(const char* fn) {
    // realpath of the directory + base name
    std::string s(fn), dir = ".", base = s;
    size_t p = s.rfind('/');
    if (p != std::string::npos) { dir = s.substr(0, p); base = s.substr(p + 1); }
    char out[PATH_MAX];
    if (realpath(dir.c_str(), out)) return std::string(out) + "/" + base;
    return s;
}

size_t lowerKey(const File& f, const View& v, const void* k, size_t len) {  // first idx with key >= k
    size_t lo = 0, hi = v.byKey.size();
    while (lo < hi) { size_t mid = (lo + hi) / 2;
        if (f.cmp.cmp(v.byKey[mid]->key.data(), v.byKey[mid]->key.size(), k, len) < 0) lo = mid + 1; else hi = mid; }
    return lo;
}
size_t lowerSeq(const View& v, uint64_t s) {
    size_t lo = 0, hi = v.bySeq.size();
    while (lo < hi) { size_t mid = (lo + hi) / 2; if (v.bySeq[mid]->seq < s) lo = mid + 1; else hi = mid; }
    return lo;
}
}  // namespace

struct _fdb_file_handle { FileP f; fdb_config cfg; };
struct _fdb_kvs_handle { FileP f; fdb_config cfg; bool snap; ViewP v; };
struct _fdb_iterator {
    FileP f; ViewP v; bool seqMode;
    size_t lo, hi;       // [lo, hi)
    int64_t pos;
    const std::vector<DocP>& arr() const { return seqMode ? v->bySeq : v->byKey; }
};

static ViewP view_of(fdb_kvs_handle* h) {
    if (h->snap) return h->v;
    return h->f->latest;
}

extern "C" {

fdb_config fdb_get_default_config(void) {
    fdb_config c; memset(&c, 0, sizeof c);
    c.seqtree_opt = FDB_SEQTREE_NOT_USE; c.num_keeping_headers = 5; c.block_reusing_threshold = 65;
    return c;
}
fdb_kvs_config fdb_get_default_kvs_config(void) { fdb_kvs_config c; memset(&c, 0, sizeof c); c.create_if_missing = true; return c; }

static fdb_status do_open(fdb_file_handle** out, const char* fn, fdb_config* cfg, fdb_custom_cmp_variable fnc, void* param) {
    std::lock_guard<std::mutex> g(g_mu);
    std::string p = canon(fn);
    FileP f;
    auto it = g_files.find(p);
    if (it != g_files.end()) {
        f = it->second;
        // A path that was unlinked and re-created is another file.
        struct stat a, b;
        if (fstat(f->fd, &a) == 0 && (::stat(p.c_str(), &b) != 0 || a.st_ino != b.st_ino)) { g_files.erase(it); f.reset(); }
    }
    if (!f) {
        f = std::make_shared<File>();
        f->path = p; f->cmp.fn = fnc; f->cmp.param = param;
        f->fd = ::open(p.c_str(), O_RDWR | O_CREAT, 0644);
        if (f->fd < 0) { if (getenv("FDBM_DEBUG")) perror(p.c_str()); return FDB_RESULT_OPEN_FAIL; }
        fdb_status s = f->load();
        if (s != FDB_RESULT_SUCCESS) return s;
        g_files[p] = f;
    }
    f->refs++;
    *out = new _fdb_file_handle{f, *cfg};
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_open(fdb_file_handle** out, const char* fn, fdb_config* cfg) { return do_open(out, fn, cfg, nullptr, nullptr); }
fdb_status fdb_open_custom_cmp(fdb_file_handle** out, const char* fn, fdb_config* cfg, size_t n, char**, fdb_custom_cmp_variable* fns, void** params) {
    return do_open(out, fn, cfg, n ? fns[0] : nullptr, n ? params[0] : nullptr);
}
fdb_status fdb_kvs_open(fdb_file_handle* h, fdb_kvs_handle** out, const char*, fdb_kvs_config*) {
    *out = new _fdb_kvs_handle{h->f, h->cfg, false, nullptr};
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_kvs_close(fdb_kvs_handle* h) { delete h; return FDB_RESULT_SUCCESS; }
fdb_status fdb_close(fdb_file_handle* h) {
    std::lock_guard<std::mutex> g(g_mu);
    FileP f = h->f;
    delete h;
    if (--f->refs == 0) {
        // Uncommitted documents are lost when the last handle goes away.
        auto it = g_files.find(f->path);
        if (it != g_files.end() && it->second == f) g_files.erase(it);
    }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_commit(fdb_file_handle* h, fdb_commit_opt_t) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    Hdr hd; memset(&hd, 0, sizeof hd);
    hd.magic = MAGIC_COMMIT; hd.seq = f.seq; hd.hdr_crc = crc(&hd, sizeof(Hdr) - 4);
    // Documents first, made durable, then the header, made durable.
    bool async = h->cfg.durability_opt & FDB_DRB_ASYNC;
    if (!f.flushBuf()) return FDB_RESULT_WRITE_FAIL;
    if (!async && ::fsync(f.fd)) return FDB_RESULT_FSYNC_FAIL;
    if (!f.writeAll(&hd, sizeof hd, f.bufOff)) return FDB_RESULT_WRITE_FAIL;
    if (!async && ::fsync(f.fd)) return FDB_RESULT_FSYNC_FAIL;
    f.bufOff += sizeof hd; f.end = f.bufOff;
    f.publish();
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_sync_file(fdb_file_handle* h) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    if (!f.flushBuf()) return FDB_RESULT_WRITE_FAIL;
    return ::fsync(f.fd) ? FDB_RESULT_FSYNC_FAIL : FDB_RESULT_SUCCESS;
}
static fdb_status do_set(fdb_kvs_handle* h, fdb_doc* doc, bool del) {
    if (h->snap) return FDB_RESULT_RDONLY_VIOLATION;
    if (!doc->key || !doc->keylen) return FDB_RESULT_INVALID_ARGS;
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    uint64_t seq;
    if (doc->flags & FDB_CUSTOM_SEQNUM) { seq = doc->seqnum; if (seq > f.seq) f.seq = seq; doc->flags &= ~FDB_CUSTOM_SEQNUM; }
    else { seq = ++f.seq; doc->seqnum = seq; }
    DocP d = std::make_shared<Doc>();
    d->key.assign((char*)doc->key, doc->keylen); d->seq = seq; d->offset = f.end;
    d->metalen = doc->metalen; d->bodylen = del ? 0 : doc->bodylen; d->deleted = del;
    std::string blob; blob.reserve(d->size());
    blob.append(d->key); blob.append((char*)doc->meta, d->metalen); if (d->bodylen) blob.append((char*)doc->body, d->bodylen);
    Hdr hd; memset(&hd, 0, sizeof hd);
    hd.magic = del ? MAGIC_DEL : MAGIC_DOC; hd.keylen = d->key.size(); hd.metalen = d->metalen; hd.bodylen = d->bodylen;
    hd.seq = seq; hd.body_crc = crc(blob.data(), blob.size()); hd.hdr_crc = crc(&hd, sizeof(Hdr) - 4);
    f.buf.append((char*)&hd, sizeof hd); f.buf.append(blob);
    f.end += d->size();
    f.history.push_back(d); f.apply(d);
    doc->offset = d->offset;
    doc->size_ondisk = d->size();
    if (f.buf.size() > (1 << 20) && !f.flushBuf()) return FDB_RESULT_WRITE_FAIL;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_set(fdb_kvs_handle* h, fdb_doc* d) { return do_set(h, d, false); }
fdb_status fdb_del(fdb_kvs_handle* h, fdb_doc* d) { return do_set(h, d, true); }

static fdb_status do_get(fdb_kvs_handle* h, fdb_doc* doc, bool meta_only) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    ViewP v = view_of(h);
    size_t i = lowerKey(f, *v, doc->key, doc->keylen);
    if (i >= v->byKey.size() || f.cmp.cmp(v->byKey[i]->key.data(), v->byKey[i]->key.size(), doc->key, doc->keylen)) return FDB_RESULT_KEY_NOT_FOUND;
    void* k = doc->key; size_t kl = doc->keylen;
    fdb_doc tmp = *doc; tmp.key = nullptr;
    fdb_status s = f.readDoc(v->byKey[i]->offset, &tmp, meta_only, v->byKey[i].get());
    if (tmp.key) free(tmp.key);
    if (s != FDB_RESULT_SUCCESS) return s;
    *doc = tmp; doc->key = k; doc->keylen = kl;
    return s;
}
fdb_status fdb_get(fdb_kvs_handle* h, fdb_doc* d) { return do_get(h, d, false); }
fdb_status fdb_get_metaonly(fdb_kvs_handle* h, fdb_doc* d) { return do_get(h, d, true); }
fdb_status fdb_get_nearest(fdb_kvs_handle* h, const void* key, size_t len, fdb_doc* doc, fdb_get_nearest_opt_t opt) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    ViewP v = view_of(h);
    size_t i = lowerKey(f, *v, key, len);
    bool eq = i < v->byKey.size() && f.cmp.cmp(v->byKey[i]->key.data(), v->byKey[i]->key.size(), key, len) == 0;
    int64_t r;
    switch (opt) {
    case FDB_GET_GREATER: r = eq ? i + 1 : i; break;
    case FDB_GET_GREATER_OR_EQUAL: r = i; break;
    case FDB_GET_SMALLER: r = (int64_t)i - 1; break;
    default: r = eq ? (int64_t)i : (int64_t)i - 1;
    }
    if (r < 0 || r >= (int64_t)v->byKey.size()) return FDB_RESULT_KEY_NOT_FOUND;
    doc->key = doc->meta = doc->body = nullptr;   // always allocated by the callee
    return f.readDoc(v->byKey[r]->offset, doc, false, v->byKey[r].get());
}
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle* h, fdb_doc* doc) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    return f.readDoc(doc->offset, doc, false, nullptr);
}
fdb_status fdb_snapshot_open(fdb_kvs_handle* src, fdb_kvs_handle** dst, fdb_seqnum_t seqnum) {
    File& f = *src->f; std::lock_guard<std::recursive_mutex> l(f.m);
    if (src->snap && src->v->seq == seqnum) { *dst = new _fdb_kvs_handle{src->f, src->cfg, true, src->v}; return FDB_RESULT_SUCCESS; }
    for (size_t i = f.commits.size(); i-- > 0;) {
        if (f.commits[i].seq == seqnum) { *dst = new _fdb_kvs_handle{src->f, src->cfg, true, f.viewOf(i)}; return FDB_RESULT_SUCCESS; }
    }
    if (f.commits.empty() && seqnum == 0) { *dst = new _fdb_kvs_handle{src->f, src->cfg, true, std::make_shared<View>()}; return FDB_RESULT_SUCCESS; }
    return FDB_RESULT_NO_DB_INSTANCE;
}
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle* h, fdb_seqnum_t* out) {
    std::lock_guard<std::recursive_mutex> l(h->f->m);
    *out = h->snap ? h->v->seq : h->f->seq;
    return FDB_RESULT_SUCCESS;
}

fdb_status fdb_iterator_init(fdb_kvs_handle* h, fdb_iterator** out, const void* mn, size_t mnl, const void* mx, size_t mxl, fdb_iterator_opt_t) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    ViewP v = view_of(h);
    _fdb_iterator* it = new _fdb_iterator{h->f, v, false, 0, v->byKey.size(), 0};
    if (mn && mnl) it->lo = lowerKey(f, *v, mn, mnl);
    if (mx && mxl) {
        it->hi = lowerKey(f, *v, mx, mxl);
        if (it->hi < v->byKey.size() && f.cmp.cmp(v->byKey[it->hi]->key.data(), v->byKey[it->hi]->key.size(), mx, mxl) == 0) it->hi++;
    }
    if (it->hi < it->lo) it->hi = it->lo;
    it->pos = it->lo;
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle* h, fdb_iterator** out, fdb_seqnum_t mn, fdb_seqnum_t mx, fdb_iterator_opt_t) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    if (h->cfg.seqtree_opt != FDB_SEQTREE_USE) return FDB_RESULT_INVALID_CONFIG;
    ViewP v = view_of(h);
    _fdb_iterator* it = new _fdb_iterator{h->f, v, true, 0, v->bySeq.size(), 0};
    it->lo = lowerSeq(*v, mn);
    if (mx) it->hi = mx == UINT64_MAX ? v->bySeq.size() : lowerSeq(*v, mx + 1);
    if (it->hi < it->lo) it->hi = it->lo;
    it->pos = it->lo;
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_next(fdb_iterator* it) {
    if (it->pos >= (int64_t)it->hi) return FDB_RESULT_ITERATOR_FAIL;
    it->pos++;
    return it->pos < (int64_t)it->hi ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_prev(fdb_iterator* it) {
    if (it->pos < (int64_t)it->lo) return FDB_RESULT_ITERATOR_FAIL;
    it->pos--;
    return it->pos >= (int64_t)it->lo ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}
static fdb_status itr_get(fdb_iterator* it, fdb_doc** doc, bool meta_only) {
    if (it->pos < (int64_t)it->lo || it->pos >= (int64_t)it->hi) return FDB_RESULT_ITERATOR_FAIL;
    std::lock_guard<std::recursive_mutex> l(it->f->m);
    const DocP& d = it->arr()[it->pos];
    bool mine = false;
    if (!*doc) { *doc = (fdb_doc*)calloc(1, sizeof(fdb_doc)); mine = true; }
    fdb_status s = it->f->readDoc(d->offset, *doc, meta_only, d.get());
    if (s != FDB_RESULT_SUCCESS && mine) { fdb_doc_free(*doc); *doc = nullptr; }
    return s;
}
fdb_status fdb_iterator_get(fdb_iterator* it, fdb_doc** doc) { return itr_get(it, doc, false); }
fdb_status fdb_iterator_get_metaonly(fdb_iterator* it, fdb_doc** doc) { return itr_get(it, doc, true); }
fdb_status fdb_iterator_seek(fdb_iterator* it, const void* k, size_t len, fdb_iterator_seek_opt_t opt) {
    if (it->seqMode) return FDB_RESULT_INVALID_ARGS;
    size_t i = lowerKey(*it->f, *it->v, k, len);
    bool eq = i < it->v->byKey.size() && it->f->cmp.cmp(it->v->byKey[i]->key.data(), it->v->byKey[i]->key.size(), k, len) == 0;
    int64_t p = (opt == FDB_ITR_SEEK_HIGHER || eq) ? (int64_t)i : (int64_t)i - 1;
    if (opt == FDB_ITR_SEEK_HIGHER) { if (p < (int64_t)it->lo) p = it->lo; }
    else { if (p >= (int64_t)it->hi) p = (int64_t)it->hi - 1; }
    if (p < (int64_t)it->lo || p >= (int64_t)it->hi) return FDB_RESULT_ITERATOR_FAIL;   // position unchanged
    it->pos = p;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_seek_byseq(fdb_iterator* it, fdb_seqnum_t s, fdb_iterator_seek_opt_t opt) {
    if (!it->seqMode) return FDB_RESULT_INVALID_ARGS;
    size_t i = lowerSeq(*it->v, s);
    bool eq = i < it->v->bySeq.size() && it->v->bySeq[i]->seq == s;
    int64_t p = (opt == FDB_ITR_SEEK_HIGHER || eq) ? (int64_t)i : (int64_t)i - 1;
    if (opt == FDB_ITR_SEEK_HIGHER) { if (p < (int64_t)it->lo) p = it->lo; }
    else { if (p >= (int64_t)it->hi) p = (int64_t)it->hi - 1; }
    if (p < (int64_t)it->lo || p >= (int64_t)it->hi) return FDB_RESULT_ITERATOR_FAIL;
    it->pos = p;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_seek_to_min(fdb_iterator* it) { it->pos = it->lo; return it->lo < it->hi ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL; }
fdb_status fdb_iterator_seek_to_max(fdb_iterator* it) { it->pos = (int64_t)it->hi - 1; if (it->lo >= it->hi) { it->pos = it->lo; return FDB_RESULT_ITERATOR_FAIL; } return FDB_RESULT_SUCCESS; }
fdb_status fdb_iterator_close(fdb_iterator* it) { delete it; return FDB_RESULT_SUCCESS; }
fdb_status fdb_doc_free(fdb_doc* d) { if (d) { free(d->key); free(d->meta); free(d->body); free(d); } return FDB_RESULT_SUCCESS; }

fdb_status fdb_get_file_info(fdb_file_handle* h, fdb_file_info* i) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    memset(i, 0, sizeof *i);
    i->filename = f.path.c_str();
    i->doc_count = f.latest->byKey.size();
    i->space_used = FILE_HDR + f.latest->bytes;
    i->file_size = f.end;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_info(fdb_kvs_handle* h, fdb_kvs_info* i) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    memset(i, 0, sizeof *i);
    ViewP v = view_of(h);
    i->name = "default"; i->last_seqnum = v->seq; i->doc_count = v->byKey.size(); i->space_used = v->bytes;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_all_snap_markers(fdb_file_handle* h, fdb_snapshot_info_t** out, uint64_t* n) {
    File& f = *h->f; std::lock_guard<std::recursive_mutex> l(f.m);
    size_t c = f.commits.size();
    if (!c) { *out = nullptr; *n = 0; return FDB_RESULT_NO_DB_INSTANCE; }
    fdb_snapshot_info_t* a = (fdb_snapshot_info_t*)calloc(c, sizeof *a);
    for (size_t i = 0; i < c; ++i) {
        a[i].marker = c - i; a[i].num_kvs_markers = 1;
        a[i].kvs_markers = (fdb_kvs_commit_marker_t*)calloc(1, sizeof(fdb_kvs_commit_marker_t));
        a[i].kvs_markers[0].seqnum = f.commits[c - 1 - i].seq;
    }
    *out = a; *n = c;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t* a, uint64_t n) { for (uint64_t i = 0; i < n; ++i) free(a[i].kvs_markers); free(a); return FDB_RESULT_SUCCESS; }
fdb_status fdb_traverse_index(fdb_kvs_handle* h, const void* key, size_t len, fdb_index_traversal_cb cb, void* ctx) {
    ViewP v; size_t i;
    { std::lock_guard<std::recursive_mutex> l(h->f->m); v = view_of(h); i = (key && len) ? lowerKey(*h->f, *v, key, len) : 0; }
    for (; i < v->byKey.size(); ++i) {
        std::string k = v->byKey[i]->key;
        if (cb(h, &k[0], k.size(), v->byKey[i]->offset, ctx) == FDB_IT_STOP) break;
    }
    return FDB_RESULT_SUCCESS;
}
uint64_t fdb_get_buffer_cache_used(void) { return 4096; }
void fdb_print_cache_stats(void) {}
fdb_status fdb_shutdown(void) { return FDB_RESULT_SUCCESS; }
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex, void*) { return FDB_RESULT_SUCCESS; }
}
