// Writes grid files with the real XdmfUniformGridWriter and VTKUniformGridWriter and reads them back as data.
// usage: grid_driver OUT seed n SCRATCH
#include "vjson.h"
#include <map>
#include <cmath>
#include "XdmfUniformGridWriter.h"
#include "VTKUniformGridWriter.h"

static FILE* out;
static std::string scratch;
static std::string content(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::string words_of(const std::string& s) { std::istringstream i(s); std::string w, r; while (i >> w) r += (r.empty() ? "" : " ") + w; return r; }

// A small XML reader: elements, attributes, text; comments and declarations skipped.
struct Xml {
    std::string s; size_t p = 0; bool ok = true;
    void skip() {
        for (;;) {
            while (p < s.size() && isspace((unsigned char)s[p])) p++;
            if (s.compare(p, 4, "<!--") == 0) { p = s.find("-->", p); if (p == std::string::npos) { ok = false; p = s.size(); return; } p += 3; }
            else if (s.compare(p, 2, "<?") == 0 || s.compare(p, 2, "<!") == 0) { p = s.find('>', p); if (p == std::string::npos) { ok = false; p = s.size(); return; } p++; }
            else return;
        }
    }
    std::string element() {          // JSON of the element at p
        std::string tag, at, text, c;
        if (p >= s.size() || s[p] != '<') { ok = false; return "null"; }
        size_t e = s.find_first_of(" \t\r\n/>", ++p);
        if (e == std::string::npos) { ok = false; return "null"; }
        tag = s.substr(p, e - p); p = e;
        for (;;) {
            while (p < s.size() && isspace((unsigned char)s[p])) p++;
            if (p >= s.size()) { ok = false; return "null"; }
            if (s[p] == '>') { p++; break; }
            if (s[p] == '/') { p += 2; return build(tag, at, text, c); }
            size_t q = s.find('=', p);
            if (q == std::string::npos || q + 1 >= s.size() || (s[q + 1] != '"' && s[q + 1] != '\'')) { ok = false; return "null"; }
            size_t z = s.find(s[q + 1], q + 2);
            if (z == std::string::npos) { ok = false; return "null"; }
            std::string k = trim(s.substr(p, q - p));
            if (k.compare(0, 5, "xmlns")) at += (at.empty() ? "" : ",") + jq(k) + ":" + jq(words_of(s.substr(q + 2, z - q - 2)));
            p = z + 1;
        }
        for (;;) {
            size_t b = p;
            while (p < s.size() && s[p] != '<') p++;
            text += s.substr(b, p - b);
            skip();
            if (p >= s.size()) { ok = false; return "null"; }
            if (s.compare(p, 2, "</") == 0) {
                size_t z = s.find('>', p);
                if (z == std::string::npos || trim(s.substr(p + 2, z - p - 2)) != tag) { ok = false; return "null"; }
                p = z + 1;
                return build(tag, at, text, c);
            }
            if (s[p] == '<') { c += (c.empty() ? "" : ",") + element(); if (!ok) return "null"; }
        }
    }
    static std::string build(const std::string& tag, const std::string& at, const std::string& text, const std::string& c) {
        return "{\"tag\":" + jq(tag) + ",\"at\":{" + at + "},\"text\":" + jq(words_of(text)) + ",\"c\":[" + c + "]}";
    }
    static std::string read(const std::string& text) {
        Xml x; x.s = text; x.skip();
        std::string r = x.element();
        x.skip();
        if (!x.ok || x.p < x.s.size()) return "{\"tag\":\"not well-formed\",\"at\":{},\"text\":" + jq(text) + ",\"c\":[]}";
        return r;
    }
};
static const std::vector<std::string> nms = {"phase_ids", "vm-stress", "S11", "U", "grain_ids", "eel 33"};

template <class T> void deduce(const char* ty) {
    XdmfUniformGridWriter w(1, 1, 1);
    T* p = nullptr; std::string a, b, got;
    try { w.deduce_attribute_number_type(p, a, b); got = jqs({a, b}); } catch (const std::runtime_error&) { got = "[]"; }
    fprintf(out, "{\"op\":\"deduce\",\"type\":\"%s\",\"got\":%s}\n", ty, got.c_str());
}
static void xdmf(Rng& r) {
    int n[3] = {(int)r(40), (int)r(40), (int)r(40)};
    if (r(5) == 0) n[r(3)] = 1 + r(100000);
    std::string f = scratch + "/out.xdmf", name = r.pick(nms), fields;
    XdmfUniformGridWriter w(n[0], n[1], n[2]);
    doing("xdmf " + f);
    w.open_file(f.c_str()); w.write_header(name.c_str());
    unsigned k = r(6);
    for (unsigned i = 0; i < k; i++) {
        static const std::vector<std::string> kinds = {"Scalar", "Vector", "Tensor"}, wh = {"micro_state_timestep_1.h5:/phase", "a.h5:/x/y", "b:/c"};
        std::string nm = r.pick(nms), kind = r.pick(kinds), where = r.pick(wh), num, prec;
        switch (r(3)) { case 0: { int* p = nullptr; w.deduce_attribute_number_type(p, num, prec); break; } case 1: { float* p = nullptr; w.deduce_attribute_number_type(p, num, prec); break; } default: { double* p = nullptr; w.deduce_attribute_number_type(p, num, prec); } }
        w.write_attribute(nm.c_str(), kind.c_str(), num.c_str(), prec.c_str(), where.c_str());
        fields += (i ? "," : "") + std::string("{\"name\":") + jq(nm) + ",\"kind\":" + jq(kind) + ",\"number\":" + jq(num) + ",\"precision\":" + jq(prec) + ",\"where\":" + jq(where) + "}";
    }
    w.write_footer(); w.close_file();
    fprintf(out, "{\"op\":\"xdmf\",\"n\":[%d,%d,%d],\"name\":%s,\"fields\":[%s],\"doc\":%s}\n", n[0], n[1], n[2], jq(name).c_str(), fields.c_str(), Xml::read(content(f)).c_str());
}
// Values are multiples of 1/8 and recorded in eighths.
template <class T> std::string vtk_field(Rng& r, VTKUniformGridWriter& w, size_t cells, const char* kind, bool whole) {
    std::vector<T> d(cells); std::vector<std::string> vals;
    for (auto& x : d) { int e = (int)r(2000001) - 1000000; if (r(4) == 0) e = (int)r(17) - 8; if (whole) e *= 8; x = (T)(e / 8.0); vals.push_back(std::to_string(e)); }
    if (!whole) for (size_t i = 0; i < cells; i++) { int e = atoi(vals[i].c_str()) % 5000; d[i] = (T)(e / 8.0); vals[i] = std::to_string(e); }
    std::string nm = nms[r(4)];
    w.write_scalar_dataset(d.data(), nm.c_str(), kind);
    return "{\"name\":" + jq(nm) + ",\"kind\":\"" + kind + "\",\"values\":" + jqs(vals) + "}";
}
static void vtk(Rng& r) {
    size_t n[3] = {1 + (size_t)r(6), 1 + (size_t)r(6), 1 + (size_t)r(6)};
    std::string f = scratch + "/out.vtk", fields;
    VTKUniformGridWriter w(n[0], n[1], n[2]);
    doing("vtk " + f);
    w.open_file(f.c_str()); w.write_header();
    unsigned k = r(4);
    for (unsigned i = 0; i < k; i++) {
        fields += i ? "," : "";
        switch (r(3)) { case 0: fields += vtk_field<int>(r, w, n[0] * n[1] * n[2], "int", true); break; case 1: fields += vtk_field<float>(r, w, n[0] * n[1] * n[2], "float", false); break; default: fields += vtk_field<double>(r, w, n[0] * n[1] * n[2], "double", r(2)); }
    }
    w.close_file();
    std::istringstream in(content(f)); std::string line, lines; bool body = false;
    while (std::getline(in, line)) {
        std::istringstream ws(line); std::string t; std::vector<std::string> v;
        while (ws >> t) v.push_back(t);
        if (!v.empty() && v[0] == "LOOKUP_TABLE") body = true; else if (body && v.size() == 1) {
            char* end; double x = strtod(v[0].c_str(), &end) * 8;
            if (!*end && std::nearbyint(x) == x && std::fabs(x) < 1e15) v[0] = std::to_string((long long)x);
        }
        lines += (lines.empty() ? "" : ",") + jqs(v);
    }
    fprintf(out, "{\"op\":\"vtk\",\"n\":[%zu,%zu,%zu],\"name\":\"\",\"fields\":[%s],\"lines\":[%s]}\n", n[0], n[1], n[2], fields.c_str(), lines.c_str());
}
int main(int argc, char** argv) {
    install_watchdog();
    out = fopen(argv[1], "w"); scratch = argv[4];
    Rng r(atoi(argv[2]));
    unsigned n = atoi(argv[3]);
    deduce<int>("int"); deduce<float>("float"); deduce<double>("double"); deduce<char>("char"); deduce<unsigned>("unsigned"); deduce<long long>("long long"); deduce<bool>("bool"); deduce<short>("short");
    for (unsigned i = 0; i < n; i++) i % 3 ? xdmf(r) : vtk(r);
    fclose(out);
    return 0;
}
