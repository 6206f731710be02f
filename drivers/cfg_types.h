// The configuration types the drivers load and store, with their description
// (the type record of Config.tla) and the projection of their values.
#pragma once
#include <cmath>
#include <climits>
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "yaml-serializable.h"
#include "vnode.h"
using Yaml::Node;

inline std::vector<std::string> g_log;                       // hooks that ran
template <class T> struct D {                                // description of T (here: a structure)
    static std::string ty();
    static std::string val(const T& v);
    static void fill(Rng& r, T& t);
    static T gen(Rng& r);
    static void node(Rng& r, Node& n);
};
template <class T> std::string val(const T& v) { return D<T>::val(v); }
inline std::string V(const std::string& t, const std::string& v, const std::string& c = "") { return "{\"t\":\"" + t + "\",\"v\":" + jq(v) + ",\"c\":[" + c + "]}"; }
template <class T> void hook(const char* h, const char* n, const T& v) { g_log.push_back(std::string("{\"h\":\"") + h + "\",\"n\":\"" + n + "\",\"v\":" + val(v) + "}"); }

SERIALIZABLE_ENUM(Color, red, Green, blue_1)
SERIALIZABLE_ENUM(Kind, A, B, C, AA)
SERIALIZABLE_ENUM(One, only)

struct Leafy { int a = 1; double b = 2; bool c = false; std::string d = "dflt"; Color e = Color::Green;
    template <class F> void visit(F&& f) { f("a", a); f("b", b); f("c", c); f("d", d); f("e", e); } };
IMPL_YAML_SERIALIZABLE_FOR(Leafy, a, b, c, d, e)

struct Lists { std::vector<int> v; std::set<Color> s; std::vector<std::string> w; std::set<int> u; std::set<std::string> z; std::array<int, 3> f = {}; int g[2] = {}; std::vector<std::vector<int>> m; std::vector<bool> h; std::vector<double> r; std::array<Color, 2> k = {};
    template <class F> void visit(F&& x) { x("v", v); x("s", s); x("w", w); x("u", u); x("z", z); x("f", f); x("g", g); x("m", m); x("h", h); x("r", r); x("k", k); } };
IMPL_YAML_SERIALIZABLE_FOR(Lists, v, s, w, u, z, f, g, m, h, r, k)

struct Maybe { std::optional<int> a; std::optional<Leafy> b; std::optional<std::vector<int>> c; std::shared_ptr<Leafy> d; std::shared_ptr<std::vector<int>> e; std::optional<std::shared_ptr<int>> f; std::vector<std::shared_ptr<std::optional<Color>>> g; std::optional<std::array<int, 2>> h;
    template <class F> void visit(F&& x) { x("a", a); x("b", b); x("c", c); x("d", d); x("e", e); x("f", f); x("g", g); x("h", h); } };
IMPL_YAML_SERIALIZABLE_FOR(Maybe, a, b, c, d, e, f, g, h)

struct Empty { template <class F> void visit(F&&) {} };
IMPL_YAML_SERIALIZABLE_FOR(Empty)
struct EmptyDerived : Empty { template <class F> void visit(F&&) {} };
IMPL_YAML_SERIALIZABLE_WITH_BASE(EmptyDerived, Empty)

struct Outer { Leafy x; std::vector<Leafy> xs; Lists l; Maybe o; std::array<Leafy, 2> p; std::unique_ptr<Leafy> q; std::vector<Maybe> os; EmptyDerived n;
    template <class F> void visit(F&& f) { f("x", x); f("xs", xs); f("l", l); f("o", o); f("p", p); f("q", q); f("os", os); f("n", n); } };
IMPL_YAML_SERIALIZABLE_FOR(Outer, x, xs, l, o, p, q, os, n)

struct Req { int a = 0; std::string b; std::optional<int> c; Leafy d;
    template <class F> void visit(F&& f) { f("a", a); f("b", b); f("c", c); f("d", d); } };
YAML_ADD_REQUIRED_FIELDS_FOR(Req, b, a)
IMPL_YAML_SERIALIZABLE_FOR(Req, a, b, c, d)

struct ReqBase { int a = 0; std::vector<int> l; template <class F> void visit(F&& f) { f("a", a); f("l", l); } };
YAML_ADD_REQUIRED_FIELDS_FOR(ReqBase, l)
IMPL_YAML_SERIALIZABLE_FOR(ReqBase, a, l)
struct ReqDerived : ReqBase { int x = 0; int y = 0; template <class F> void visit(F&& f) { f("x", x); f("y", y); } };
YAML_ADD_REQUIRED_FIELDS_FOR(ReqDerived, x, l)
IMPL_YAML_SERIALIZABLE_WITH_BASE(ReqDerived, ReqBase, x, y)
struct ReqHolder { std::vector<ReqDerived> rs; std::optional<Req> r; template <class F> void visit(F&& f) { f("rs", rs); f("r", r); } };
IMPL_YAML_SERIALIZABLE_FOR(ReqHolder, rs, r)

#define TOO_LARGE(limit, ...) if (a > limit) throw Yaml::ConfigurationException(__VA_ARGS__)
struct Hooked : Yaml::DerivedFields, Yaml::ValidatedYaml { int a = 0; int b = 0;
    void derive() { hook("derive", "Hooked", *this); }
    void validate() { hook("validate", "Hooked", *this); TOO_LARGE(5, "too large", "a"); }
    template <class F> void visit(F&& f) { f("a", a); f("b", b); } };
struct Tagged : Yaml::DerivedFields, Yaml::ValidatedYaml { int a = 0; template <class F> void visit(F&& f) { f("a", a); } };
struct OnlyDerive { int a = 0; void derive() { hook("derive", "OnlyDerive", *this); } template <class F> void visit(F&& f) { f("a", a); } };
struct OnlyValidate { int a = 0; void validate() { hook("validate", "OnlyValidate", *this); TOO_LARGE(7, "too large"); } template <class F> void visit(F&& f) { f("a", a); } };
struct HBase { int a = 0; virtual ~HBase() = default;
    void derive() { hook("derive", "HBase", *this); }
    void validate() { hook("validate", "HBase", *this); TOO_LARGE(8, "too large", "a"); }
    template <class F> void visit(F&& f) { f("a", a); } };
struct HPlain : HBase { int x = 0; template <class F> void visit(F&& f) { f("x", x); } };      // inherits both hooks
struct HOwn : HBase { int y = 0;
    void derive() { hook("derive", "HOwn", *this); }
    void validate() { hook("validate", "HOwn", *this); }
    template <class F> void visit(F&& f) { f("y", y); } };
struct HDeep : HPlain { int z = 0; void validate() { hook("validate", "HDeep", *this); } template <class F> void visit(F&& f) { f("z", z); } };
struct HDeeper : HDeep { int w = 0; void derive() { hook("derive", "HDeeper", *this); } template <class F> void visit(F&& f) { f("w", w); } };
struct HParts : HBase { Hooked p; std::vector<OnlyValidate> q; Color e = Color::red;      // parts with hooks, base with hooks
    void validate() { hook("validate", "HParts", *this); }
    template <class F> void visit(F&& f) { f("p", p); f("q", q); f("e", e); } };
struct LeafyMore : Leafy { OnlyDerive w;                                                  // hooks only in the derived class
    void derive() { hook("derive", "LeafyMore", *this); }
    void validate() { hook("validate", "LeafyMore", *this); }
    template <class F> void visit(F&& f) { f("w", w); } };
struct VBase { int a = 0; virtual ~VBase() = default;
    virtual void derive() { hook("derive", "VBase", *this); }
    virtual void validate() { hook("validate", "VBase", *this); }
    template <class F> void visit(F&& f) { f("a", a); } };
struct VOwn : VBase { int v = 0;
    void derive() override { hook("derive", "VOwn", *this); }
    void validate() override { hook("validate", "VOwn", *this); }
    template <class F> void visit(F&& f) { f("v", v); } };
struct Hooks { std::vector<HOwn> hs; Hooked one; std::optional<Hooked> two; std::shared_ptr<HDeeper> three; std::array<OnlyValidate, 2> four; std::vector<VOwn> five;
    void derive() { hook("derive", "Hooks", *this); }
    void validate() { hook("validate", "Hooks", *this); }
    template <class F> void visit(F&& f) { f("hs", hs); f("one", one); f("two", two); f("three", three); f("four", four); f("five", five); } };

struct MultiA { int a = 100; double b = 0.5; std::vector<int> l; template <class F> void visit(F&& f) { f("a", a); f("b", b); f("l", l); } };
IMPL_YAML_SERIALIZABLE_FOR(MultiA, a, b, l)
struct MultiB { int a = 200; std::string c = "c"; Leafy x; std::optional<std::vector<int>> l; template <class F> void visit(F&& f) { f("a", a); f("c", c); f("x", x); f("l", l); } };
IMPL_YAML_SERIALIZABLE_FOR(MultiB, a, c, x, l)
struct MultiC { Leafy x; double b = 1.25; template <class F> void visit(F&& f) { f("x", x); f("b", b); } };
IMPL_YAML_SERIALIZABLE_FOR(MultiC, x, b)

struct DBase : Yaml::TypeDiscriminated<DBase, Kind>, Yaml::DerivedFields { std::optional<int> field;
    virtual ~DBase() = default;
    DBase() { type = Kind::C; }
    void derive() { hook("derive", "DBase", *this); }
    template <class F> void visit(F&& f) { f("type", type); f("field", field); } };
struct DA : DBase::Register<DA, Kind::A> { int x = 3; template <class F> void visit(F&& f) { f("x", x); } };
struct DB : DBase::Register<DB, Kind::B> { std::vector<int> y; int a = 0;
    void derive() { hook("derive", "DB", *this); }
    void validate() { hook("validate", "DB", *this); TOO_LARGE(5, "too large", "a"); }
    template <class F> void visit(F&& f) { f("y", y); f("a", a); } };
struct DAA : DA, DBase::Register<DAA, Kind::AA> { bool z = true; template <class F> void visit(F&& f) { f("z", z); } };
struct Mods { std::vector<std::shared_ptr<DBase>> modules; std::shared_ptr<DBase> main; std::unique_ptr<DBase> own; std::optional<std::shared_ptr<DBase>> may; std::shared_ptr<DA> da;
    template <class F> void visit(F&& f) { f("modules", modules); f("main", main); f("own", own); f("may", may); f("da", da); } };

// Long lists of fields and names.
SERIALIZABLE_ENUM(Many, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23, v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39)
struct Wide { int f00 = 0, f01 = 1, f02 = 2, f03 = 3, f04 = 4, f05 = 5, f06 = 6, f07 = 7, f08 = 8, f09 = 9, f10 = 10, f11 = 11, f12 = 12, f13 = 13, f14 = 14, f15 = 15, f16 = 16, f17 = 17, f18 = 18, f19 = 19, f20 = 20, f21 = 21, f22 = 22, f23 = 23, f24 = 24, f25 = 25, f26 = 26, f27 = 27, f28 = 28, f29 = 29, f30 = 30, f31 = 31, f32 = 32, f33 = 33, f34 = 34, f35 = 35, f36 = 36, f37 = 37, f38 = 38, f39 = 39;
    template <class F> void visit(F&& f) { f("f00", f00); f("f01", f01); f("f02", f02); f("f03", f03); f("f04", f04); f("f05", f05); f("f06", f06); f("f07", f07); f("f08", f08); f("f09", f09); f("f10", f10); f("f11", f11); f("f12", f12); f("f13", f13); f("f14", f14); f("f15", f15); f("f16", f16); f("f17", f17); f("f18", f18); f("f19", f19); f("f20", f20); f("f21", f21); f("f22", f22); f("f23", f23); f("f24", f24); f("f25", f25); f("f26", f26); f("f27", f27); f("f28", f28); f("f29", f29); f("f30", f30); f("f31", f31); f("f32", f32); f("f33", f33); f("f34", f34); f("f35", f35); f("f36", f36); f("f37", f37); f("f38", f38); f("f39", f39); } };
YAML_ADD_REQUIRED_FIELDS_FOR(Wide, f07, f03, f39)
IMPL_YAML_SERIALIZABLE_FOR(Wide, f00, f01, f02, f03, f04, f05, f06, f07, f08, f09, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39)

// ----------------------------------------------------------- descriptions
struct Info { const char* n; std::vector<const char*> req; bool derive, validate; const char *max, *vf; };
template <class T> struct SI { using Base = void; static Info info(); };
#define STRUCT(T, ...) template <> inline Info SI<T>::info() { return __VA_ARGS__; }
#define STRUCT_BASE(T, B, ...) template <> struct SI<T> { using Base = B; static Info info() { return __VA_ARGS__; } };
STRUCT(Leafy, {"Leafy", {}, false, false, "", ""})
STRUCT(Lists, {"Lists", {}, false, false, "", ""})
STRUCT(Maybe, {"Maybe", {}, false, false, "", ""})
STRUCT(Empty, {"Empty", {}, false, false, "", ""})
STRUCT(Wide, {"Wide", {"f07", "f03", "f39"}, false, false, "", ""})
STRUCT_BASE(EmptyDerived, Empty, {"EmptyDerived", {}, false, false, "", ""})
STRUCT(Outer, {"Outer", {}, false, false, "", ""})
STRUCT(Req, {"Req", {"b", "a"}, false, false, "", ""})
STRUCT(ReqBase, {"ReqBase", {"l"}, false, false, "", ""})
STRUCT_BASE(ReqDerived, ReqBase, {"ReqDerived", {"x", "l"}, false, false, "", ""})
STRUCT(ReqHolder, {"ReqHolder", {}, false, false, "", ""})
STRUCT(Hooked, {"Hooked", {}, true, true, "5", "a"})
STRUCT(Tagged, {"Tagged", {}, false, false, "", ""})
STRUCT(OnlyDerive, {"OnlyDerive", {}, true, false, "", ""})
STRUCT(OnlyValidate, {"OnlyValidate", {}, false, true, "7", ""})
STRUCT(HBase, {"HBase", {}, true, true, "8", "a"})
STRUCT_BASE(HPlain, HBase, {"HPlain", {}, false, false, "", ""})
STRUCT_BASE(HOwn, HBase, {"HOwn", {}, true, true, "", ""})
STRUCT_BASE(HParts, HBase, {"HParts", {}, false, true, "", ""})
STRUCT_BASE(LeafyMore, Leafy, {"LeafyMore", {}, true, true, "", ""})
STRUCT_BASE(HDeep, HPlain, {"HDeep", {}, false, true, "", ""})
STRUCT_BASE(HDeeper, HDeep, {"HDeeper", {}, true, false, "", ""})
STRUCT(VBase, {"VBase", {}, true, true, "", ""})
STRUCT_BASE(VOwn, VBase, {"VOwn", {}, true, true, "", ""})
STRUCT(Hooks, {"Hooks", {}, true, true, "", ""})
STRUCT(MultiA, {"MultiA", {}, false, false, "", ""})
STRUCT(MultiB, {"MultiB", {}, false, false, "", ""})
STRUCT(MultiC, {"MultiC", {}, false, false, "", ""})
STRUCT(DBase, {"DBase", {}, true, false, "", ""})
STRUCT_BASE(DA, DBase, {"DA", {}, false, false, "", ""})
STRUCT_BASE(DB, DBase, {"DB", {}, true, true, "5", "a"})
STRUCT_BASE(DAA, DA, {"DAA", {}, false, false, "", ""})
STRUCT(Mods, {"Mods", {}, false, false, "", ""})

static const std::vector<std::string> words = {"0", "1", "2", "5", "6", "7", "-3", "9", "12", "red", "Green", "blue_1", "A", "B", "AA", "only", "word", "two words", "x: y", "it's", "", "True", "yes", "FALSE", "[1, 2]", "[]", "[red, Green]", "[ 7 ,8 , 9]", "[1 2", "[a,,b]", "[[1], 2]",
    "0.5", ".5", "1.25", "-2.75", "3.0", "1e3", "12abc", "99999999999", "-2147483648", "+4", "line\nline2"};
static const std::vector<std::string> reals = {"0", "0.5", "1.25", "-2.75", "1000", "3", "1e-05", "-0.125"};
inline std::string real_text(double d) { std::ostringstream o; o << d; return o.str(); }

// Something that is usually not what is expected here.
inline void junk(Rng& r, Node& n, int d = 0) {
    unsigned k = r(d > 1 ? 2 : 5);
    if (k < 2) n = r.pick(words);
    else if (k == 2) for (unsigned m = 1 + r(3); m; m--) junk(r, n.PushBack(), d + 1);
    else for (unsigned m = 1 + r(3); m; m--) { static const std::vector<std::string> ks = {"a", "b", "x", "zz", "type", "l"}; junk(r, n[r.pick(ks)], d + 1); }
}
template <class T> void shape(Rng& r, Node& n) { if (r(24) == 0) junk(r, n); else D<T>::node(r, n); }

template <> struct D<int> { static std::string ty() { return "{\"t\":\"i\"}"; } static std::string val(int v) { return V("i", jn(v)); }
    static int gen(Rng& r) { static const std::vector<int> s = {0, 1, -1, 7, 42, -1000, 2147483647, INT_MIN}; return r(3) ? (int)r(9) : r.pick(s); }
    static void node(Rng& r, Node& n) { if (r(6)) n = jn(gen(r)); else n = r.pick(words); } };
template <> struct D<double> { static std::string ty() { return "{\"t\":\"d\"}"; } static std::string val(double v) { return V("d", real_text(v)); }
    static double gen(Rng& r) { return atof(r.pick(reals).c_str()); }
    static void node(Rng& r, Node& n) { if (r(6)) n = r.pick(reals); else n = r.pick(words); } };
template <> struct D<bool> { static std::string ty() { return "{\"t\":\"b\"}"; } static std::string val(bool v) { return V("b", v ? "True" : "False"); }
    static bool gen(Rng& r) { return r(2); }
    static void node(Rng& r, Node& n) { static const std::vector<std::string> s = {"True", "true", "FALSE", "yes", "YES", "no", "1", "0", "tRue", "t"}; n = r.pick(s); } };
template <> struct D<std::string> { static std::string ty() { return "{\"t\":\"s\"}"; } static std::string val(const std::string& v) { return V("s", v); }
    static std::string gen(Rng& r) { return r.pick(words); }
    static void node(Rng& r, Node& n) { n = r.pick(words); } };
template <class E> struct DE { static std::vector<std::string> names; static std::string ty() { return "{\"t\":\"e\",\"k\":" + jqs(names) + "}"; } static std::string val(const E& v) { return V("e", names[(int)v]); }
    static E gen(Rng& r) { return (E)r((unsigned)names.size()); }
    static void node(Rng& r, Node& n) { if (r(8)) n = r.pick(names); else n = r.pick(words); } };
template <> inline std::vector<std::string> DE<Color>::names = {"red", "Green", "blue_1"};
template <> inline std::vector<std::string> DE<Kind>::names = {"A", "B", "C", "AA"};
template <> inline std::vector<std::string> DE<One>::names = {"only"};
template <> inline std::vector<std::string> DE<Many>::names = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "v19", "v20", "v21", "v22", "v23", "v24", "v25", "v26", "v27", "v28", "v29", "v30", "v31", "v32", "v33", "v34", "v35", "v36", "v37", "v38", "v39"};
template <> struct D<Many> : DE<Many> {};
template <> struct D<Color> : DE<Color> {};
template <> struct D<Kind> : DE<Kind> {};
template <> struct D<One> : DE<One> {};

template <class It> std::string vals(It a, It b) { std::string s; bool f = true; for (; a != b; ++a) { if (!f) s += ","; f = false; s += val<typename std::iterator_traits<It>::value_type>(*a); } return s; }
template <class T> constexpr bool is_text = std::is_same<T, int>::value || std::is_same<T, std::string>::value || std::is_same<T, Color>::value || std::is_same<T, double>::value;
template <class T> void list_node(Rng& r, Node& n, int fixed) {
    unsigned len = fixed >= 0 && r(10) ? fixed : r(4);
    if (is_text<T> && r(3) == 0) {     // bracket notation
        std::string s = "[";
        for (unsigned i = 0; i < len; i++) { Node x; D<T>::node(r, x); std::string t = x.As<std::string>(); for (char& c : t) if (c == ',' || c == '[' || c == ']' || c == '\n') c = '_'; s += (i ? (r(3) ? ", " : ",") : "") + t + (r(8) ? "" : " "); }
        n = s + "]";
        return;
    }
    n.PushBack(); n.Erase(0);
    for (; len; len--) { Node& x = n.PushBack(); if (r(30)) shape<T>(r, x); }
}
template <class T> struct D<std::vector<T>> { static std::string ty() { return "{\"t\":\"q\",\"c\":[" + D<T>::ty() + "]}"; }
    static std::string val(const std::vector<T>& v) { return V("q", "", vals(v.begin(), v.end())); }
    static std::vector<T> gen(Rng& r) { std::vector<T> v; for (unsigned n = r(4); n; n--) v.push_back(D<T>::gen(r)); return v; }
    static void node(Rng& r, Node& n) { list_node<T>(r, n, -1); } };
template <class T> struct D<std::set<T>> { static std::string ty() { return "{\"t\":\"u\",\"c\":[" + D<T>::ty() + "]}"; }
    static std::string val(const std::set<T>& v) { return V("u", "", vals(v.begin(), v.end())); }
    static std::set<T> gen(Rng& r) { std::set<T> v; for (unsigned n = r(4); n; n--) v.insert(D<T>::gen(r)); return v; }
    static void node(Rng& r, Node& n) { list_node<T>(r, n, -1); } };
template <class T, size_t N> struct D<std::array<T, N>> { static std::string ty() { return "{\"t\":\"a\",\"n\":" + jn(N) + ",\"c\":[" + D<T>::ty() + "]}"; }
    static std::string val(const std::array<T, N>& v) { return V("a", "", vals(v.begin(), v.end())); }
    static std::array<T, N> gen(Rng& r) { std::array<T, N> v; for (auto& x : v) x = D<T>::gen(r); return v; }
    static void node(Rng& r, Node& n) { list_node<T>(r, n, N); } };
template <class T, size_t N> struct D<T[N]> { static std::string ty() { return D<std::array<T, N>>::ty(); }
    static std::string val(const T (&v)[N]) { return V("a", "", vals(v, v + N)); }
    static void node(Rng& r, Node& n) { list_node<T>(r, n, N); } };
template <class T> struct D<std::optional<T>> { static std::string ty() { return "{\"t\":\"o\",\"c\":[" + D<T>::ty() + "]}"; }
    static std::string val(const std::optional<T>& v) { return v ? V("o", "", D<T>::val(*v)) : V("0", ""); }
    static std::optional<T> gen(Rng& r) { if (r(3) == 0) return {}; return D<T>::gen(r); }
    static void node(Rng& r, Node& n) { shape<T>(r, n); } };
template <class T, class P> struct DP { static constexpr bool disc = std::is_same<T, DBase>::value;
    static std::string ty() {
        if constexpr (disc) return "{\"t\":\"D\",\"c\":[" + D<DBase>::ty() + "],\"r\":[{\"v\":\"A\",\"ty\":" + D<DA>::ty() + "},{\"v\":\"B\",\"ty\":" + D<DB>::ty() + "},{\"v\":\"AA\",\"ty\":" + D<DAA>::ty() + "}]}";
        else return "{\"t\":\"p\",\"c\":[" + D<T>::ty() + "]}"; }
    static std::string val(const P& v) {
        if (!v) return V("0", "");
        if constexpr (disc) {
            if (auto x = dynamic_cast<const DAA*>(v.get())) return V("p", "", D<DAA>::val(*x));
            if (auto x = dynamic_cast<const DA*>(v.get())) return V("p", "", D<DA>::val(*x));
            if (auto x = dynamic_cast<const DB*>(v.get())) return V("p", "", D<DB>::val(*x));
            return "\"unexpected dynamic type\"";
        } else return V("p", "", D<T>::val(*v)); }
    static P gen(Rng& r) {
        if (r(5) == 0) return P();
        if constexpr (disc) { switch (r(3)) { case 0: return P(new DA(D<DA>::gen(r))); case 1: return P(new DB(D<DB>::gen(r))); default: return P(new DAA(D<DAA>::gen(r))); } }
        else return P(new T(D<T>::gen(r))); }
    static void node(Rng& r, Node& n) {
        if constexpr (disc) { switch (r(5)) { case 0: shape<DA>(r, n); break; case 1: shape<DB>(r, n); break; case 2: shape<DAA>(r, n); break; case 3: shape<DBase>(r, n); return; default: if (r(4) == 0) { shape<DA>(r, n); return; } shape<DB>(r, n); }
            if (n.IsMap() && r(12)) { static const std::vector<std::string> ks = {"A", "B", "AA"}; n["type"] = r(10) ? r.pick(ks) : r.pick(words); } }
        else shape<T>(r, n); } };
template <class T> struct D<std::shared_ptr<T>> : DP<T, std::shared_ptr<T>> {};
template <class T> struct D<std::unique_ptr<T>> : DP<T, std::unique_ptr<T>> {};

template <class X> void regen(Rng& r, X& x) { if (r(4)) x = D<X>::gen(r); }
template <class T, size_t N> void regen(Rng& r, T (&x)[N]) { if (r(4)) for (auto& y : x) y = D<T>::gen(r); }
template <class T> constexpr bool based = !std::is_void<typename SI<T>::Base>::value;
template <class T> using BaseOf = typename SI<T>::Base;
template <class T> std::string D<T>::ty() {
    Info i = SI<T>::info(); T t{}; std::vector<std::string> k, c;
    t.T::visit([&](const char* n, auto& f) { using F = std::remove_reference_t<decltype(f)>; k.push_back(n); c.push_back(D<F>::ty()); });
    std::string base; if constexpr (based<T>) base = D<BaseOf<T>>::ty();
    std::vector<std::string> req(i.req.begin(), i.req.end()); auto id = [](const std::string& s) { return s; };
    return std::string("{\"t\":\"S\",\"n\":\"") + i.n + "\",\"base\":[" + base + "],\"k\":" + jqs(k) + ",\"c\":" + jlist(c.begin(), c.end(), id) + ",\"dv\":" + val(T{}) + ",\"req\":" + jqs(req) +
           ",\"derive\":" + jb(i.derive) + ",\"validate\":" + jb(i.validate) + ",\"max\":" + jq(i.max) + ",\"vf\":" + jq(i.vf) + "}";
}
template <class T> std::string D<T>::val(const T& v) {
    std::string c; bool first = true;
    if constexpr (based<T>) { c = D<BaseOf<T>>::val(v); first = false; }
    const_cast<T&>(v).T::visit([&](const char*, auto& f) { using F = std::remove_reference_t<decltype(f)>; if (!first) c += ","; first = false; c += D<F>::val(f); });
    return V("S", SI<T>::info().n, c);
}
template <class T> void D<T>::fill(Rng& r, T& t) {
    if constexpr (based<T>) D<BaseOf<T>>::fill(r, t);
    t.T::visit([&](const char* n, auto& f) { if (strcmp(n, "type")) regen(r, f); });
}
template <class T> T D<T>::gen(Rng& r) { T t; fill(r, t); return t; }
template <class T> void D<T>::node(Rng& r, Node& n) {
    if constexpr (based<T>) D<BaseOf<T>>::node(r, n); else { n["a"]; n.Erase("a"); }
    T t; t.T::visit([&](const char* k, auto& f) { using F = std::remove_reference_t<decltype(f)>; if (r(3)) { n[k].Clear(); shape<F>(r, n[k]); } });
    if (r(20) == 0) { static const std::vector<std::string> ks = {"zz", "A", "a0", "field2", "0"}; junk(r, n[r.pick(ks)]); }
}

IMPL_YAML_SERIALIZABLE_FOR(Hooked, a, b)
IMPL_YAML_SERIALIZABLE_FOR(Tagged, a)
IMPL_YAML_SERIALIZABLE_FOR(OnlyDerive, a)
IMPL_YAML_SERIALIZABLE_FOR(OnlyValidate, a)
IMPL_YAML_SERIALIZABLE_FOR(HBase, a)
IMPL_YAML_SERIALIZABLE_WITH_BASE(HPlain, HBase, x)
IMPL_YAML_SERIALIZABLE_WITH_BASE(HOwn, HBase, y)
IMPL_YAML_SERIALIZABLE_WITH_BASE(HParts, HBase, p, q, e)
IMPL_YAML_SERIALIZABLE_WITH_BASE(LeafyMore, Leafy, w)
IMPL_YAML_SERIALIZABLE_WITH_BASE(HDeep, HPlain, z)
IMPL_YAML_SERIALIZABLE_WITH_BASE(HDeeper, HDeep, w)
IMPL_YAML_SERIALIZABLE_FOR(VBase, a)
IMPL_YAML_SERIALIZABLE_WITH_BASE(VOwn, VBase, v)
IMPL_YAML_SERIALIZABLE_FOR(Hooks, hs, one, two, three, four, five)
IMPL_YAML_SERIALIZABLE_FOR(DBase, type, field)
IMPL_YAML_SERIALIZABLE_WITH_BASE(DA, DBase, x)
IMPL_YAML_SERIALIZABLE_WITH_BASE(DB, DBase, y, a)
IMPL_YAML_SERIALIZABLE_WITH_BASE(DAA, DA, z)
IMPL_YAML_SERIALIZABLE_FOR(Mods, modules, main, own, may, da)
