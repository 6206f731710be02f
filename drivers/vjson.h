// Small helpers shared by the conformance drivers: JSON text, watchdog.
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

inline std::string jq(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        switch (c) {
        case '"': r += "\\\""; break;
        case '\\': r += "\\\\"; break;
        case '\n': r += "\\n"; break;
        case '\r': r += "\\r"; break;
        case '\t': r += "\\t"; break;
        default:
            if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
    }
    return r + "\"";
}
template <class T> std::string jn(T v) { std::ostringstream o; o << v; return o.str(); }
inline std::string jb(bool b) { return b ? "true" : "false"; }
template <class It, class F> std::string jlist(It a, It b, F f) {
    std::string r = "["; bool first = true;
    for (; a != b; ++a) { if (!first) r += ","; first = false; r += f(*a); }
    return r + "]";
}
inline std::string jqs(const std::vector<std::string>& v) { return jlist(v.begin(), v.end(), [](const std::string& s) { return jq(s); }); }

// --- watchdog: what the driver is doing, reported when the code under test hangs or dies.
inline char g_doing[4096] = "starting";
inline void doing(const std::string& s) {
    strncpy(g_doing, s.c_str(), sizeof g_doing - 1);
    alarm(20);
}
inline void on_signal(int sig) {
    const char* n = sig == SIGALRM ? "HANG" : "CRASH";
    char b[4300]; int k = snprintf(b, sizeof b, "\n%s (signal %d) while: %s\n", n, sig, g_doing);
    ssize_t w = write(2, b, k); (void)w;
    _exit(sig == SIGALRM ? 98 : 99);
}
inline void install_watchdog() {
    for (int s : {SIGALRM, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
}

// --- deterministic random numbers
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 8; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    unsigned operator()(unsigned n) { return (unsigned)((next() >> 33) % n); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[(*this)((unsigned)v.size())]; }
};
