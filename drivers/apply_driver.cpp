// Applies lists of handlers to objects of a type-discriminated class tree and
// records which handler ran. usage: apply_driver OUT
#include "cfg_types.h"
static FILE* out;
static bool boom;                                             // handlers raise an error
static int ran, which; static const void* arg; static std::string seen;
struct Odd : std::bad_cast { };

// Kinds of handlers: class DA, DB, DAA, DBase by reference, const reference or pointer; anything.
template <class T> std::string cls() { return std::is_same<T, DA>::value ? "DA" : std::is_same<T, DB>::value ? "DB" : std::is_same<T, DAA>::value ? "DAA" : "DBase"; }
template <class T> struct Ref { static std::string name() { return cls<T>(); } static auto make(int i) { return [i](T& x) { ran++; which = i; arg = dynamic_cast<const void*>(&x); if (boom) throw Odd(); }; } };
template <class T> struct CRef { static std::string name() { return cls<T>(); } static auto make(int i) { return [i](const T& x) { ran++; which = i; arg = dynamic_cast<const void*>(&x); if (boom) throw Odd(); }; } };
template <class T> struct Ptr { static std::string name() { return cls<T>(); } static auto make(int i) { return [i](T* x) mutable { ran++; which = i; arg = dynamic_cast<const void*>(x); if (boom) throw Odd(); }; } };
struct Any { static std::string name() { return "*"; } static auto make(int i) { return [i](...) { ran++; which = i; arg = nullptr; if (boom) throw Odd(); }; } };
struct Nul { static std::string name() { return "*"; } static auto make(int i) { return [i]() { ran++; which = i; arg = nullptr; if (boom) throw Odd(); }; } };

static std::vector<std::pair<std::string, std::shared_ptr<DBase>>> objects;

template <class... H> void one() {
    std::vector<std::string> hs = {H::name()...};
    for (auto& o : objects) for (int t = 0; t < 4; t++) {
        boom = t > 1;
        ran = 0; which = 0; arg = nullptr;
        bool ret = true, threw = false;
        const void* self = dynamic_cast<const void*>(o.second.get());
        int k = 0;
        std::tuple<decltype(H::make(0))...> fs{H::make(++k)...};
        std::apply([&](auto&... f) {
            try { if (t % 2) ret = o.second->try_apply(f...); else o.second->apply(f...); }
            catch (const std::runtime_error&) { threw = ran == 0; }
            catch (const Odd&) { threw = ran > 0; }
        }, fs);
        fprintf(out, "{\"dyn\":\"%s\",\"hs\":%s,\"try\":%s,\"boom\":%s,\"ran\":%d,\"which\":%d,\"self\":%s,\"ret\":%s,\"threw\":%s}\n", o.first.c_str(), jqs(hs).c_str(), jb(t % 2).c_str(), jb(boom).c_str(), ran, which,
                jb(arg == nullptr || arg == self).c_str(), jb(ret).c_str(), jb(threw).c_str());
    }
}
template <class... A> struct List {};
template <int N, class All, class... H> struct Go;
template <class... A, class... H> struct Go<0, List<A...>, H...> { static void go() { one<H...>(); } };
template <int N, class... A, class... H> struct Go<N, List<A...>, H...> { static void go() { (Go<N - 1, List<A...>, H..., A>::go(), ...); } };

int main(int, char** argv) {
    install_watchdog();
    out = fopen(argv[1], "w");
    objects = {{"DA", std::make_shared<DA>()}, {"DB", std::make_shared<DB>()}, {"DAA", std::make_shared<DAA>()}, {"DBase", std::make_shared<DBase>()}};
    using All = List<Ref<DA>, Ref<DB>, Ptr<DAA>, CRef<DAA>, Ref<DBase>, Ptr<DB>, Any>;
    using Few = List<Ptr<DA>, CRef<DB>, Ref<DAA>, Nul>;
    Go<1, All>::go(); Go<1, Few>::go(); Go<2, All>::go(); Go<3, Few>::go();
    using Three = List<CRef<DBase>, Ref<DB>, Ref<DAA>>;
    Go<4, Three>::go();
    fclose(out);
    return 0;
}
