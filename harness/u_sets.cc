// Driver of the ordered sets: skiplist (kind 0) and AVL tree (kind 1), one thread.
#include "unit.h"
#include "avltree.h"
#include "skiplist.h"

using namespace vf;

struct Node { skiplist_node s; avl_node a; int key; int id; };
static int cmpS(skiplist_node* a, skiplist_node* b, void*) { return _get_entry(a, Node, s)->key - _get_entry(b, Node, s)->key; }
static int cmpA(avl_node* a, avl_node* b, void*) { return _get_entry(a, Node, a)->key - _get_entry(b, Node, a)->key; }

struct Sets : Comp {
    int kind = 0, range = 20; skiplist_raw sl; avl_tree av; bool ready = false;
    std::vector<Node*> nodes; std::vector<bool> in;
    ~Sets() { if (!ready) return; for (Node* n : nodes) { if (kind == 0) skiplist_free_node(&n->s); delete n; } if (kind == 0) skiplist_free(&sl); }
    // cfg: kind keys fanout layers seed
    std::string genCfg(Rng& r) override { static const std::vector<int> rg = {4, 8, 16, 30, 100, 1000}; return fmt("%d %d %d %d %d", r.range(0, 1), r.pick(rg), r.range(2, 4), r.range(2, 12), r.range(1, 1000000)); }
    void begin(const std::string& cfg) override {
        Words w(cfg); kind = w.i(0); range = w.i(1, 20); srand(w.i(4, 1));
        if (kind == 0) { skiplist_init(&sl, cmpS); skiplist_raw_config c = skiplist_get_default_config(); c.fanout = w.i(2, 4); c.maxLayer = w.i(3, 12); skiplist_set_config(&sl, c); }
        else avl_init(&av, nullptr);
        ready = true;
        tr->cfg = fmt("{\"kind\":%d}", kind);
    }
    std::string genOp(Rng& r) override {
        int k = r.below(range), p = r.range(0, 99), id = nodes.empty() ? -1 : (int)r.below(nodes.size()); int tries = 20;
        while (id >= 0 && !in[id] && --tries) id = (int)r.below(nodes.size());
        bool live = id >= 0 && in[id];
        if (p < 24) return fmt("insn %d", k);
        if (p < 30) return kind == 0 ? fmt("ins %d", k) : fmt("insn %d", k);
        if (p < 40) return fmt("find %d", k);
        if (p < 50) return fmt("ge %d", k);
        if (p < 60) return fmt("le %d", k);
        if (p < 68) return kind == 0 ? fmt("erase %d", k) : live ? fmt("erasen %d", id) : "";
        if (p < 76) return live ? fmt("erasen %d", id) : "";
        if (p < 84) return live ? fmt("next %d", id) : "";
        if (p < 92) return live ? fmt("prev %d", id) : "";
        if (p < 94) return "first";
        if (p < 96) return "last";
        if (p < 98) return "walk";
        return fmt("bulk %d %d %d", k, r.range(3, 25), r.range(0, 2));
    }
    Node* mk(int key) { Node* n = new Node(); n->key = key; n->id = nodes.size(); if (kind == 0) skiplist_init_node(&n->s); memset(&n->a, 0, sizeof n->a); nodes.push_back(n); in.push_back(false); return n; }
    Node* S(skiplist_node* n) { if (!n) return nullptr; skiplist_release_node(n); return _get_entry(n, Node, s); }
    Node* A(avl_node* n) { return n ? _get_entry(n, Node, a) : nullptr; }
    int height(avl_node* n, bool& bal) { if (!n) return 0; int l = height(n->left, bal), r = height(n->right, bal); if (abs(l - r) > 1) bal = false; return 1 + std::max(l, r); }
    void insert(int key, bool dup) {
        Node* n = mk(key); J j; j.str("op", "ins").i("key", key).i("id", n->id).i("dup", dup);
        int r;
        if (kind == 0) { r = dup ? skiplist_insert(&sl, &n->s) : skiplist_insert_nodup(&sl, &n->s); if (!r) in[n->id] = true; r = r ? -1 : n->id; }
        else { Node* x = A(avl_insert(&av, &n->a, cmpA)); r = x ? x->id : -2; if (x == n) in[n->id] = true; }
        tr->add(st(j.i("r", r)));
    }
    J& st(J& j) {
        if (kind == 0) return j.i("size", skiplist_get_size(&sl)).i("h", 0).i("bal", 1);
        bool bal = true; int h = height(av.root, bal); int n = 0; for (avl_node* x = avl_first(&av); x && n < 100000; x = avl_next(x)) ++n;
        return j.i("size", n).i("h", h).i("bal", bal);
    }
    void exec(const std::string& line) override {
        Words w(line); const std::string op = w.op(); int k = w.i(1); J j; Node q; q.key = k; q.id = -1; memset(&q.a, 0, sizeof q.a);
        if (op == "ins") return insert(k, true);
        if (op == "insn") return insert(k, false);
        if (op == "bulk") { for (int i = 0; i < w.i(2); ++i) insert(w.i(3) == 0 ? (k + i) % range : w.i(3) == 1 ? (k + range - i % range) % range : (k * 7 + i * 13) % range, false); return; }
        if (kind == 0) skiplist_init_node(&q.s);
        bool isId = op == "erasen" || op == "next" || op == "prev";
        if (isId && (k >= (int)nodes.size() || !in[k])) return;
        Node* x = nullptr;
        j.str("op", op);
        if (op == "find") x = kind == 0 ? S(skiplist_find(&sl, &q.s)) : A(avl_search(&av, &q.a, cmpA));
        else if (op == "ge") x = kind == 0 ? S(skiplist_find_greater_or_equal(&sl, &q.s)) : A(avl_search_greater(&av, &q.a, cmpA));
        else if (op == "le") x = kind == 0 ? S(skiplist_find_smaller_or_equal(&sl, &q.s)) : A(avl_search_smaller(&av, &q.a, cmpA));
        else if (op == "next") x = kind == 0 ? S(skiplist_next(&sl, &nodes[k]->s)) : A(avl_next(&nodes[k]->a));
        else if (op == "prev") x = kind == 0 ? S(skiplist_prev(&sl, &nodes[k]->s)) : A(avl_prev(&nodes[k]->a));
        else if (op == "first") x = kind == 0 ? S(skiplist_begin(&sl)) : A(avl_first(&av));
        else if (op == "last") x = kind == 0 ? S(skiplist_end(&sl)) : A(avl_last(&av));
        else if (op == "erase") {
            int rc = skiplist_erase(&sl, &q.s); std::vector<long long> gone;
            for (size_t i = 0; i < nodes.size(); ++i) if (in[i] && !skiplist_is_valid_node(&nodes[i]->s)) { gone.push_back(i); in[i] = false; if (!skiplist_is_safe_to_free(&nodes[i]->s)) rc = 99; }
            tr->add(st(j.i("key", k).i("rc", rc).arr("gone", gone))); return;
        } else if (op == "erasen") {
            int rc = 0;
            if (kind == 0) { rc = skiplist_erase_node(&sl, &nodes[k]->s); if (!rc && !skiplist_is_safe_to_free(&nodes[k]->s)) rc = 99; } else avl_remove(&av, &nodes[k]->a);
            in[k] = false;
            if (kind == 1) memset(&nodes[k]->a, 0x5a, sizeof(avl_node));       // nothing may refer to it any more
            tr->add(st(j.i("id", k).i("rc", rc))); return;
        } else if (op == "walk") {
            std::vector<long long> f, b; size_t lim = nodes.size() + 5;
            if (kind == 0) {
                skiplist_node* c = skiplist_begin(&sl); while (c && f.size() < lim) { f.push_back(_get_entry(c, Node, s)->id); skiplist_node* nx = skiplist_next(&sl, c); skiplist_release_node(c); c = nx; } if (c) skiplist_release_node(c);
                c = skiplist_end(&sl); while (c && b.size() < lim) { b.push_back(_get_entry(c, Node, s)->id); skiplist_node* nx = skiplist_prev(&sl, c); skiplist_release_node(c); c = nx; } if (c) skiplist_release_node(c);
            } else {
                for (avl_node* c = avl_first(&av); c && f.size() < lim; c = avl_next(c)) f.push_back(A(c)->id);
                for (avl_node* c = avl_last(&av); c && b.size() < lim; c = avl_prev(c)) b.push_back(A(c)->id);
            }
            tr->add(st(j.arr("f", f).arr("b", b))); return;
        } else return;
        tr->add(st(j.i(isId ? "id" : "key", k).i("r", x ? x->id : -1)));
    }
};
int main(int argc, char** argv) { return unitMain(argc, argv, [] { return new Sets; }); }
