// Loads and stores configurations of all kinds of types and records what happened.
// usage: cfg_driver OUT TYPES seed n SCRATCH group   (group: load strict store hooks disc)
#include "cfg_types.h"

static FILE* out;
static std::string scratch, types;
static std::set<std::string> described;
struct Got { bool ok = true; std::string what, path; };

template <class T> std::string name_of();
#define NAME(...) template <> std::string name_of<__VA_ARGS__>() { return #__VA_ARGS__; }
template <class T> std::string describe() {
    std::string n = name_of<T>();
    if (described.insert(n).second) types += (types.empty() ? "" : ",\n") + jq(n) + ":" + D<T>::ty();
    return n;
}
template <class F> Got attempt(F f) {
    Got g;
    try { f(); }
    catch (const Yaml::ConfigurationException& e) { g.ok = false; g.what = e.what(); g.path = e._field_name; size_t p = g.what.find(" (base type"); if (p != std::string::npos) g.what.resize(p); }
    catch (const std::exception& e) { g.ok = false; g.what = std::string("another exception: ") + e.what(); }
    catch (const Yaml::Exception& e) { g.ok = false; g.what = std::string("another exception: ") + e.Message(); }
    return g;
}
static std::string got_json(const Got& g) { return "\"ok\":" + jb(g.ok) + ",\"what\":" + jq(g.what) + ",\"path\":" + jq(g.path) + ",\"log\":" + jlist(g_log.begin(), g_log.end(), [](const std::string& s) { return s; }); }
static std::string in_file(const std::string& text) { std::string f = scratch + "/in.yaml"; std::ofstream(f, std::ios::binary) << text; return f; }

template <class... T> std::string names(const T&...) { std::vector<std::string> n = {describe<T>()...}; return jqs(n); }
template <class... T> std::string values(const T&... v) { std::vector<std::string> n = {val<T>(v)...}; return jlist(n.begin(), n.end(), [](const std::string& s) { return s; }); }
static void loaded(const std::string& ty, bool strict, const std::string& form, const std::string& before, const std::string& in, const Got& g, const std::string& after) {
    alarm(0);
    fprintf(out, "{\"op\":\"load\",\"ty\":%s,\"strict\":%s,\"form\":\"%s\",\"before\":%s,\"in\":%s,%s,\"after\":%s}\n", ty.c_str(), jb(strict).c_str(), form.c_str(), before.c_str(), in.c_str(), got_json(g).c_str(), g.ok ? after.c_str() : "[]");
    g_log.clear();
}
// A document whose tree is (nearly) n; false if it cannot be written.
static bool text_of(Node& n, std::string& text, Node& tree) {
    try { Yaml::Serialize(n, text); Yaml::Parse(tree, text); return true; } catch (const Yaml::Exception&) { return false; }
}
template <class T> T fresh(Rng& r) { if constexpr (std::is_copy_constructible<T>::value) { if (r(3) == 0) return D<T>::gen(r); } return T{}; }

template <class T> void load_one(Rng& r, bool strict) {
    Node n; shape<T>(r, n);
    T v = fresh<T>(r);
    std::string before = values(v), ty = names(v);
    g_log.clear();
    if (!strict && r(3) == 0) {
        std::string in = tree_json(n);
        doing("deserialize " + ty + " " + in);
        Got g = attempt([&] { Yaml::deserialize(v, n); });
        loaded(ty, false, "node", before, in, g, values(v));
        return;
    }
    std::string text; Node tree;
    if (!text_of(n, text, tree)) return;
    std::string in = tree_json(tree);
    doing("load " + ty + " " + in);
    Got g; std::string after;
    switch (r(4)) {
    case 0: g = attempt([&] { if (strict) Yaml::from_string_strict(text, v); else Yaml::from_string(text, v); }); loaded(ty, strict, "string", before, in, g, values(v)); break;
    case 1: { std::string f = in_file(text); g = attempt([&] { if (strict) Yaml::from_file_strict(f, v); else Yaml::from_file(f, v); }); loaded(ty, strict, "file", before, in, g, values(v)); break; }
    case 2: { before = values(T{}); g = attempt([&] { T w = strict ? Yaml::from_string_strict<T>(text) : Yaml::from_string<T>(text); after = values(w); }); loaded(ty, strict, "string value", before, in, g, after); break; }
    default: { std::string f = in_file(text); before = values(T{}); g = attempt([&] { T w = strict ? Yaml::from_file_strict<T>(f) : Yaml::from_file<T>(f); after = values(w); }); loaded(ty, strict, "file value", before, in, g, after); break; }
    }
}
template <class A, class B, class... C> void load_many(Rng& r, bool strict) {
    Node n; shape<A>(r, n);
    { Node m; shape<B>(r, m); if (n.IsMap() && m.IsMap()) for (auto it = m.Begin(); it != m.End(); it++) if (!(*it).second.IsNone()) n[(*it).first] = (*it).second; }
    if (!n.IsMap()) return;
    std::string text; Node tree;
    if (!text_of(n, text, tree)) return;
    std::tuple<A, B, C...> v(fresh<A>(r), fresh<B>(r), fresh<C>(r)...);
    std::string in = tree_json(tree);
    std::apply([&](auto&... x) {
        std::string ty = names(x...), before = values(x...);
        g_log.clear();
        doing("load several " + ty + " " + in);
        bool file = r(2);
        std::string f = in_file(text);
        Got g = attempt([&] { if (strict) { if (file) Yaml::from_file_strict(f, x...); else Yaml::from_string_strict(text, x...); } else { if (file) Yaml::from_file(f, x...); else Yaml::from_string(text, x...); } });
        loaded(ty, strict, file ? "files" : "strings", before, in, g, values(x...));
    }, v);
}
// The text form of an enumeration, through its functions, streams and nodes.
template <class E> void enums(Rng& r) {
    std::string ty = names(E()), before, text;
    E v = D<E>::gen(r);
    before = val(v);
    if (r(3) == 0) {
        int i = (int)r(DE<E>::names.size() + 4) - 2;
        E w = (E)i;
        std::ostringstream o; o << w;
        Node n; n = "old"; Yaml::serialize(w, n);
        fprintf(out, "{\"op\":\"name\",\"ty\":%s,\"i\":%d,\"str\":%s,\"stream\":%s,\"node\":%s}\n", ty.c_str(), i, jq(to_string(w)).c_str(), jq(o.str()).c_str(), tree_json(n).c_str());
        return;
    }
    static const std::vector<std::string> near = {"", "Red", "red ", " red", "re", "redd", "v1", "v01", "v39", "v40", "a", "AAA"};
    text = r(3) == 0 ? r.pick(near) : r(4) ? r.pick(DE<E>::names) : r.pick(words);
    std::string form = "function";
    Got g;
    if (r(2)) { form = "stream"; std::istringstream is(text); g = attempt([&] { is >> v; }); }
    else g = attempt([&] { from_string(text, v); });
    fprintf(out, "{\"op\":\"named\",\"ty\":%s,\"form\":\"%s\",\"text\":%s,\"before\":%s,\"ok\":%s,\"what\":%s,\"after\":%s}\n", ty.c_str(), form.c_str(), jq(text).c_str(), before.c_str(), jb(g.ok).c_str(), jq(g.what).c_str(), val(v).c_str());
}
template <class... T> void store(Rng& r) {
    std::tuple<T...> v(D<T>::gen(r)...);
    std::apply([&](auto&... x) {
        std::string ty = names(x...), before = values(x...);
        doing("store " + ty + " " + before);
        Node n;
        (Yaml::serialize(x, n), ...);
        std::string text = Yaml::to_string(x...);
        Node tree; Yaml::Parse(tree, text);
        std::tuple<T...> w;
        g_log.clear();
        Got g = std::apply([&](auto&... y) { return attempt([&] { Yaml::from_string(text, y...); }); }, w);
        std::string after = std::apply([&](auto&... y) { return values(y...); }, w);
        alarm(0);
        fprintf(out, "{\"op\":\"store\",\"ty\":%s,\"vals\":%s,\"node\":%s,\"tree\":%s,\"same\":%s,\"ok\":%s,\"what\":%s,\"again\":%s}\n", ty.c_str(), before.c_str(), tree_json(n).c_str(), tree_json(tree).c_str(), jb(values(x...) == before).c_str(), jb(g.ok).c_str(), jq(g.what).c_str(), after.c_str());
        g_log.clear();
    }, v);
}

NAME(int) NAME(double) NAME(bool) NAME(std::string) NAME(Color) NAME(One) NAME(Kind) NAME(Many) NAME(Wide) NAME(std::vector<Many>) NAME(std::vector<Color>) NAME(std::array<Color, 2>) NAME(std::array<std::vector<int>, 3>) NAME(std::vector<std::array<Color, 2>>) NAME(Leafy) NAME(Lists) NAME(Maybe) NAME(Empty) NAME(EmptyDerived) NAME(Outer) NAME(Req) NAME(ReqBase) NAME(ReqDerived) NAME(ReqHolder)
NAME(Hooked) NAME(Tagged) NAME(OnlyDerive) NAME(OnlyValidate) NAME(HBase) NAME(HPlain) NAME(HOwn) NAME(HDeep) NAME(HParts) NAME(LeafyMore) NAME(std::vector<HParts>) NAME(HDeeper) NAME(VBase) NAME(VOwn) NAME(Hooks) NAME(MultiA) NAME(MultiB) NAME(MultiC) NAME(DA) NAME(DB) NAME(DAA) NAME(DBase) NAME(Mods)
NAME(std::vector<int>) NAME(std::vector<Leafy>) NAME(std::optional<int>) NAME(std::shared_ptr<Leafy>) NAME(std::shared_ptr<DBase>) NAME(std::unique_ptr<DBase>) NAME(std::shared_ptr<DA>) NAME(std::array<int, 3>) NAME(std::set<Color>) NAME(std::vector<std::vector<std::string>>)
NAME(std::vector<std::shared_ptr<DBase>>) NAME(std::optional<Leafy>) NAME(std::vector<std::array<int, 2>>) NAME(std::shared_ptr<Hooks>) NAME(std::vector<std::optional<int>>) NAME(std::vector<std::vector<Color>>) NAME(std::array<Leafy, 2>) NAME(std::unique_ptr<Hooked>)
using Op = void (*)(Rng&);
#define L(...) [](Rng& r) { load_one<__VA_ARGS__>(r, false); }
#define S(...) [](Rng& r) { load_one<__VA_ARGS__>(r, true); }
#define LM(...) [](Rng& r) { load_many<__VA_ARGS__>(r, false); }
#define SM(...) [](Rng& r) { load_many<__VA_ARGS__>(r, true); }
#define W(...) [](Rng& r) { store<__VA_ARGS__>(r); }

int main(int argc, char** argv) {
    install_watchdog();
    out = fopen(argv[1], "w"); scratch = argv[5];
    Rng r(atoi(argv[3]));
    std::string g = argv[6];
    std::vector<Op> ops;
#if !defined(GROUP) || GROUP == 1
    if (g == "load") ops = {L(Leafy), L(Lists), L(Maybe), L(Outer), L(std::vector<int>), L(std::vector<Leafy>), L(std::optional<int>), L(std::shared_ptr<Leafy>), L(std::array<int, 3>), L(std::set<Color>), L(Color), L(int), L(bool), L(double), L(std::string),
                            L(std::vector<std::vector<std::string>>), L(EmptyDerived), L(One), L(std::optional<Leafy>), L(std::vector<std::array<int, 2>>), L(std::vector<std::vector<Color>>), L(std::array<Leafy, 2>), LM(MultiA, MultiB), LM(MultiB, MultiC), LM(MultiA, MultiB, MultiC), LM(Leafy, MultiA), LM(Leafy, Maybe)};
#endif
#if !defined(GROUP) || GROUP == 2
    if (g == "strict") ops = {S(Leafy), S(Lists), S(Maybe), S(Outer), S(std::vector<Leafy>), S(std::shared_ptr<Leafy>), S(std::array<int, 3>), S(std::set<Color>), S(Req), S(ReqDerived), S(ReqHolder), S(Hooks), S(Mods), S(EmptyDerived), S(std::vector<std::vector<std::string>>), S(std::array<Leafy, 2>), S(std::optional<Leafy>),
                              SM(MultiA, MultiB), SM(MultiB, MultiC), SM(MultiA, MultiB, MultiC), SM(MultiC, MultiA), S(HDeeper), S(std::shared_ptr<DBase>)};
#endif
#if !defined(GROUP) || GROUP == 3
    if (g == "store") ops = {W(Leafy), W(Lists), W(Maybe), W(EmptyDerived), W(Req), W(ReqDerived), W(std::vector<int>), W(std::vector<Leafy>), W(std::optional<Leafy>), W(std::shared_ptr<Leafy>), W(std::array<int, 3>), W(std::set<Color>), W(Color), W(int), W(bool), W(double), W(std::string), W(std::vector<std::vector<std::string>>),
                             W(std::shared_ptr<DBase>), W(std::vector<std::shared_ptr<DBase>>), W(HDeeper), W(DAA), W(DB), W(MultiA, MultiB), W(MultiB, MultiC), W(MultiA, MultiB, MultiC), W(MultiC, MultiB), W(Leafy, MultiA), W(std::vector<std::array<int, 2>>), W(std::vector<std::optional<int>>), W(std::array<Leafy, 2>)};
#endif
#if !defined(GROUP) || GROUP == 4
    if (g == "hooks") ops = {L(Req), L(ReqDerived), L(ReqHolder), L(Hooked), L(Tagged), L(OnlyDerive), L(OnlyValidate), L(HBase), L(HPlain), L(HOwn), L(HDeep), L(HParts), L(LeafyMore), L(std::vector<HParts>), S(HParts), S(LeafyMore), L(HDeeper), L(VBase), L(VOwn), L(Hooks), L(std::shared_ptr<Hooks>), L(std::unique_ptr<Hooked>), S(Hooks), S(HDeeper), S(HOwn), S(VOwn), S(ReqDerived), S(Req), LM(Hooked, HOwn), SM(Hooked, HOwn), LM(Req, ReqDerived)};
#endif
#if !defined(GROUP) || GROUP == 5
    if (g == "disc") ops = {L(Mods), L(std::shared_ptr<DBase>), L(std::unique_ptr<DBase>), L(std::vector<std::shared_ptr<DBase>>), L(std::shared_ptr<DA>), L(DB), L(DAA), S(Mods), S(std::shared_ptr<DBase>), S(std::vector<std::shared_ptr<DBase>>), W(std::shared_ptr<DBase>), W(std::vector<std::shared_ptr<DBase>>)};
#endif
#if !defined(GROUP) || GROUP == 6
    if (g == "enum") ops = {enums<Color>, enums<One>, enums<Kind>, enums<Many>, L(Color), L(Many), L(std::vector<Color>), L(std::set<Color>), L(std::array<Color, 2>), L(std::array<int, 3>), L(std::vector<std::array<Color, 2>>), L(std::vector<Many>), L(std::array<std::vector<int>, 3>),
                            W(Many), W(std::vector<Many>), W(std::array<Color, 2>), W(std::array<std::vector<int>, 3>), S(std::array<std::vector<int>, 3>), S(std::vector<Color>), L(Wide), S(Wide), W(Wide)};
#endif
    unsigned n = atoi(argv[4]);
    for (unsigned i = 0; i < n; i++) ops[i % ops.size()](r);
    fclose(out);
    FILE* t = fopen(argv[2], "w");
    fprintf(t, "{%s}\n", types.c_str());
    fclose(t);
    return 0;
}
