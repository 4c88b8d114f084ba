// Driver of the skiplist used by several threads, under the scheduler.
#include "unit.h"
#include "vsched.h"
#include "skiplist.h"
#include <thread>

using namespace vf;

struct Node { skiplist_node s; int key; int id; };
static int cmpS(skiplist_node* a, skiplist_node* b, void*) {
    Node* x = _get_entry(a, Node, s); Node* y = _get_entry(b, Node, s);
    vs::touch(&x->key, 4); vs::touch(&y->key, 4);
    return x->key - y->key;
}

struct Conc : Comp {
    // cfg: seed strategy fanout layers threads keys nodup
    int seed = 1, strat = 0, nthr = 2, range = 8, nodup = 1; skiplist_raw sl; bool ready = false;
    std::vector<std::vector<std::string>> prog; int nid = 0;
    struct Ev { bool call; int u; std::string op; int key, id, r; };
    std::vector<Ev> ev; std::string walk;
    ~Conc() { if (ready) skiplist_free(&sl); }
    std::string genCfg(Rng& r) override { return fmt("%d %d %d %d %d %d %d", r.range(1, 1000000000), r.range(0, 2) == 2, r.range(2, 3), r.range(1, 5), r.range(2, 4), r.pick(std::vector<int>{2, 3, 5, 9, 20}), r.range(0, 3) != 0); }
    void begin(const std::string& cfg) override {
        Words w(cfg); seed = w.i(0, 1); strat = w.i(1); nthr = w.i(4, 2); range = w.i(5, 8); nodup = w.i(6, 1);
        vs::lastWords = shared()->note;
        skiplist_init(&sl, cmpS); skiplist_raw_config c = skiplist_get_default_config(); c.fanout = w.i(2, 2); c.maxLayer = w.i(3, 4); skiplist_set_config(&sl, c);
        ready = true; prog.resize(nthr + 1);
        tr->cfg = "{}";
    }
    int seen = 0;
    std::string genOp(Rng& r) override {
        int k = r.below(range), p = r.range(0, 99);
        int u = seen < 4 ? 0 : r.range(1, nthr); ++seen;
        if (u == 0) return fmt("0 ins %d", k);
        if (p < 32) return fmt("%d ins %d", u, k);
        if (p < 58) return fmt("%d era %d", u, k);
        if (p < 64) return fmt("%d cera", u);
        if (p < 76) return fmt("%d find %d", u, k);
        if (p < 82) return fmt("%d ge %d", u, k);
        if (p < 88) return fmt("%d le %d", u, k);
        if (p < 93) return fmt("%d next", u);
        if (p < 97) return fmt("%d prev", u);
        return fmt("%d %s", u, p == 97 ? "first" : "last");
    }
    void exec(const std::string& line) override { Words w(line); prog[std::min<int>(w.i(0), nthr)].push_back(line.substr(line.find(' ') + 1)); }

    int call(int u, const std::string& op, int key, int id) { ev.push_back({true, u, op, key, id, 0}); return ev.size() - 1; }
    void ret(int c, int u, int r) { ev[c].r = r; ev.push_back({false, u, "", 0, 0, r}); }
    static int idOf(skiplist_node* n) { return n ? _get_entry(n, Node, s)->id : -1; }
    void run(int u) {
        skiplist_node* curs = nullptr;
        auto drop = [&] { if (curs) skiplist_release_node(curs); curs = nullptr; };
        for (auto& line : prog[u]) {
            Words w(line); const std::string op = w.op(); int k = w.i(1);
            auto query = [&](skiplist_node* (*f)(skiplist_raw*, skiplist_node*), const char* nm) {
                Node q; q.key = k; q.id = -1; skiplist_init_node(&q.s);
                int c = call(u, nm, k, -1); skiplist_node* x = f(&sl, &q.s); ret(c, u, idOf(x));
                drop(); curs = x; skiplist_free_node(&q.s); };
            auto erase = [&] {
                if (!curs) return;
                Node* n = _get_entry(curs, Node, s);
                int c = call(u, "era", n->key, n->id); int rc = skiplist_erase_node(&sl, curs); ret(c, u, rc == 0 ? 0 : -1);
                drop();
                if (rc == 0) { skiplist_wait_for_free(&n->s); skiplist_free_node(&n->s); free(n); } };
            if (op == "ins") {
                Node* n = (Node*)calloc(1, sizeof(Node)); skiplist_init_node(&n->s); n->key = k; n->id = nid++;
                int rc = -1;
                // A node refused once is offered again.
                for (int a = 0; a < 1 + k % 2 && rc; ++a) {
                    int c = call(u, nodup ? "insn" : "ins", k, n->id); rc = nodup ? skiplist_insert_nodup(&sl, &n->s) : skiplist_insert(&sl, &n->s); ret(c, u, rc == 0 ? 0 : -1);
                }
                if (rc) { skiplist_free_node(&n->s); free(n); }
            }
            else if (op == "era") { query(skiplist_find, "find"); erase(); }
            else if (op == "cera") erase();
            else if (op == "find") query(skiplist_find, "find");
            else if (op == "ge") query(skiplist_find_greater_or_equal, "ge");
            else if (op == "le") query(skiplist_find_smaller_or_equal, "le");
            else if (op == "next" || op == "prev") {
                if (!curs) continue;
                Node* n = _get_entry(curs, Node, s); int c = call(u, op, n->key, n->id);
                skiplist_node* x = op == "next" ? skiplist_next(&sl, curs) : skiplist_prev(&sl, curs); ret(c, u, idOf(x)); drop(); curs = x;
            }
            else if (op == "first" || op == "last") { int c = call(u, op, 0, -1); skiplist_node* x = op == "first" ? skiplist_begin(&sl) : skiplist_end(&sl); ret(c, u, idOf(x)); drop(); curs = x; }
        }
        drop();
    }
    void finish() override {
        vs::Opts o; o.seed = seed; o.strategy = strat; o.maxSteps = 3000000;
        vs::begin(o);
        run(0);
        { std::vector<std::thread> t; for (int u = 1; u <= nthr; ++u) t.emplace_back([this, u] { run(u); }); for (auto& x : t) x.join(); }
        // The quiescent list, in both directions; at most one step too many.
        std::string f, b; size_t lim = nid + 2, cnt = 0;
        for (skiplist_node* x = skiplist_begin(&sl); x && cnt++ < lim;) { f += (f.empty() ? "" : ",") + std::to_string(idOf(x)); skiplist_node* y = skiplist_next(&sl, x); skiplist_release_node(x); x = y; }
        cnt = 0;
        for (skiplist_node* x = skiplist_end(&sl); x && cnt++ < lim;) { b += (b.empty() ? "" : ",") + std::to_string(idOf(x)); skiplist_node* y = skiplist_prev(&sl, x); skiplist_release_node(x); x = y; }
        size_t size = skiplist_get_size(&sl);
        vs::end();
        for (auto& e : ev) {
            J j;
            if (e.call) j.str("op", "call").i("u", e.u).str("c", e.op).i("key", e.key).i("id", e.id).i("r", e.r);
            else j.str("op", "ret").i("u", e.u).i("r", e.r);
            tr->add(j);
        }
        J j; j.str("op", "walk").raw("f", "[" + f + "]").raw("b", "[" + b + "]").i("size", size);
        tr->add(j);
    }
};
int main(int argc, char** argv) { return unitMain(argc, argv, [] { return new Conc(); }, 120); }
