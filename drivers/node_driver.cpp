// Calls the public Yaml::Node interface and records every call with the
// resulting trees.  usage: node_driver OUT seed nrandom depth mode(list|copy)
#include "vnode.h"
#include <map>
#include <memory>
using Yaml::Node;

static std::map<std::string, std::unique_ptr<Node>> R;
static FILE* out;

struct Call {
    std::string op, r = "a"; std::vector<int> p; int i = 0; std::string k, v, r2 = "a"; std::vector<int> p2;
};
static Node* at(const std::string& r, const std::vector<int>& p) {
    Node* n = R[r].get();
    for (int x : p) { auto it = n->Begin(); for (int j = 0; j < x; j++) it++; n = &(*it).second; }
    return n;
}
static std::string head(const Call& c) {
    auto num = [](int x) { return std::to_string(x); };
    return "\"op\":" + jq(c.op) + ",\"r\":" + jq(c.r) + ",\"p\":" + jlist(c.p.begin(), c.p.end(), num) + ",\"i\":" + std::to_string(c.i) +
           ",\"k\":" + jq(c.k) + ",\"v\":" + jq(c.v) + ",\"r2\":" + jq(c.r2) + ",\"p2\":" + jlist(c.p2.begin(), c.p2.end(), num);
}
static void run(const Call& c) {
    std::string h = head(c);
    doing(h);
    std::string ret = tree_json(Node());
    if (c.op == "reset") { for (auto x : {"a", "b", "c"}) R[x] = std::make_unique<Node>(); }
    else {
        Node& n = *at(c.r, c.p);
        if (c.op == "set") { if (c.i % 2) n = c.v; else n = c.v.c_str(); }
        else if (c.op == "pushback") n.PushBack() = c.v;
        else if (c.op == "pushfront") n.PushFront() = c.v;
        else if (c.op == "insert") n.Insert(c.i) = c.v;
        else if (c.op == "pushnone") n.PushBack();
        else if (c.op == "eraseidx") n.Erase((size_t)c.i);
        else if (c.op == "erasekey") n.Erase(c.k);
        else if (c.op == "putkey") n[c.k] = c.v;
        else if (c.op == "getkey") ret = tree_json(n[c.k]);
        else if (c.op == "getidx") ret = tree_json(n[(size_t)c.i]);
        else if (c.op == "setitem") { int j = 0; for (auto it = n.Begin(); it != n.End(); it++, j++) if (j == c.i) (*it).second = c.v; }
        else if (c.op == "clear") n.Clear();
        else if (c.op == "assign") n = *at(c.r2, c.p2);
        else if (c.op == "copy") { auto m = std::make_unique<Node>(*at(c.r2, c.p2)); R[c.r] = std::move(m); }
        else if (c.op == "putcopy") { Node src(*at(c.r2, c.p2)); n[c.k] = src; }
        else if (c.op == "read") ret = tree_json(n);
    }
    std::string vw = "ok", roots;
    for (auto& x : R) {
        std::string s = views(*x.second);
        if (s != "ok") vw = x.first + ": " + s;
        roots += (roots.empty() ? "" : ",") + jq(x.first) + ":" + tree_json(*x.second);
    }
    alarm(0);
    fprintf(out, "{%s,\"ret\":%s,\"views\":%s,\"roots\":{%s}}\n", h.c_str(), ret.c_str(), jq(vw).c_str(), roots.c_str());
    fflush(out);
}
static size_t count(const Node& n) { size_t s = 1; for (auto it = n.Begin(); (n.IsMap() || n.IsSequence()) && it != n.End(); it++) s += count((*it).second); return s; }

static std::vector<int> anypath(Rng& g, const std::string& r) {
    std::vector<int> p; Node* n = R[r].get();
    while ((n->IsMap() || n->IsSequence()) && n->Size() && g(3)) { int x = g((unsigned)n->Size()); p.push_back(x); auto it = n->Begin(); for (int j = 0; j < x; j++) it++; n = &(*it).second; }
    return p;
}

int main(int argc, char** argv) {
    install_watchdog();
    out = fopen(argv[1], "w");
    unsigned seed = atoi(argv[2]), nrandom = atoi(argv[3]), depth = atoi(argv[4]);
    const bool copies = !strcmp(argv[5], "copy");
    // 1. every sequence of `depth` calls out of a fixed alphabet, from several starting points
    std::vector<Call> alpha;
    auto add = [&](Call c) { alpha.push_back(c); };
    for (int i : {0, 1, 2, 5}) { Call c; c.op = "insert"; c.i = i; c.v = "i" + std::to_string(i); add(c); }
    for (int i : {0, 1, 3}) { Call c; c.op = "eraseidx"; c.i = i; add(c); }
    { Call c; c.op = "pushfront"; c.v = "f"; add(c); c.op = "pushback"; c.v = "b"; add(c); c.op = "pushnone"; add(c); }
    { Call c; c.op = "putkey"; c.k = "m"; c.v = "1"; add(c); c.k = "Z"; add(c); c.op = "getkey"; c.k = "a"; add(c); c.op = "erasekey"; c.k = "m"; add(c); }
    { Call c; c.op = "getidx"; c.i = 1; add(c); c.op = "clear"; add(c); c.op = "set"; c.v = ""; add(c); }
    if (copies) {
        alpha.resize(0);
        { Call c; c.op = "pushfront"; c.v = "f"; add(c); c.op = "putkey"; c.k = "m"; c.v = "1"; add(c); c.op = "insert"; c.i = 1; add(c); }
        { Call c; c.op = "eraseidx"; c.i = 0; add(c); c.op = "erasekey"; c.k = "m"; add(c); c.op = "clear"; add(c); c.op = "set"; c.v = "t"; add(c); c.op = "getidx"; c.i = 0; add(c); }
    { Call c; c.op = "copy"; c.r = "b"; c.r2 = "a"; add(c); c.op = "assign"; c.r = "a"; c.r2 = "b"; add(c); c.op = "assign"; c.r2 = "a"; add(c); }
    { Call c; c.op = "putcopy"; c.k = "q"; c.r2 = "a"; add(c); c.op = "assign"; c.r = "c"; c.r2 = "a"; add(c); c.op = "pushback"; c.v = "b2"; c.r = "b"; add(c); c.op = "putkey"; c.k = "n"; c.r = "b"; add(c); }
    }
    std::vector<size_t> idx(depth, 0);
    for (;;) {
        Call r; r.op = "reset"; run(r);
        for (size_t d = 0; d < depth; d++) run(alpha[idx[d]]);
        size_t d = depth; bool more = false;
        while (d--) { if (++idx[d] < alpha.size()) { more = true; break; } idx[d] = 0; }
        if (!more) break;
    }
    // 2. longer random histories
    Rng g(seed);
    const std::vector<std::string> roots = copies ? std::vector<std::string>{"a", "b", "c"} : std::vector<std::string>{"a"}, keys = {"a", "B", "k1", "k10", "k2", "zz", "_", "with space", ""},
        texts = {"", "1", "two", "x y", "-3.5", "#", "\"q\""},
        ops = !copies ? std::vector<std::string>{"set", "pushback", "pushback", "pushfront", "pushfront", "insert", "insert", "insert", "pushnone", "eraseidx", "eraseidx", "erasekey",
               "putkey", "putkey", "putkey", "getkey", "getidx", "setitem", "clear", "read"} : std::vector<std::string>{"set", "pushback", "pushback", "pushfront", "pushfront", "insert", "insert", "insert", "pushnone", "eraseidx", "eraseidx", "erasekey",
               "putkey", "putkey", "putkey", "getkey", "getidx", "setitem", "clear", "assign", "assign", "copy", "putcopy", "read"};
    { Call r; r.op = "reset"; run(r); }
    for (unsigned t = 0; t < nrandom; t++) {
        if (g(40) == 0) { Call r; r.op = "reset"; run(r); continue; }
        Call c;
        c.op = g.pick(ops); c.r = g.pick(roots); c.p = anypath(g, c.r); c.i = g(6); c.k = g.pick(keys); c.v = g.pick(texts); c.r2 = g.pick(roots); c.p2 = anypath(g, c.r2);
        size_t tot = count(*R["a"]) + count(*R["b"]) + count(*R["c"]);
        if (tot > 40) { c.op = "clear"; c.p.clear(); }
        run(c);
    }
    fclose(out);
    return 0;
}
