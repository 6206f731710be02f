// Reads every text of a file as a YAML document, in every way the library offers,
// and records what came out.   usage: text_driver OUT TEXTS SCRATCH
// TEXTS holds "<length>\n<bytes>" records.
#include "vnode.h"
using Yaml::Node;

static std::string outcome(const Node& n, const Yaml::Exception* e) {
    if (!e) return "{\"ok\":true,\"kind\":\"\",\"line\":0,\"tree\":" + tree_json(n) + "}";
    const char* k = dynamic_cast<const Yaml::ParsingException*>(e) ? "parsing" : dynamic_cast<const Yaml::InternalException*>(e) ? "internal" : "operation";
    Yaml::Exception::eType ty = e->Type();
    std::string kind = k;
    if ((kind == "parsing") != (ty == Yaml::Exception::ParsingError) || (kind == "internal") != (ty == Yaml::Exception::InternalError)) kind += "/type";
    std::string m = e->what(), msg = e->Message();
    if (m != msg) kind += "/what";
    // the line a message points at: " Line <n>" after its first words
    int line = 0;
    size_t p = m.find(" Line ");
    if (p != std::string::npos) line = atoi(m.c_str() + p + 6);
    return "{\"ok\":false,\"kind\":" + jq(kind) + ",\"line\":" + std::to_string(line) + ",\"tree\":" + tree_json(n) + "}";
}
template <class F> std::string attempt(F f) {
    Node n;
    n["left over"]["from"] = "before";
    try { f(n); }
    catch (const Yaml::Exception& e) { return outcome(n, &e); }
    return outcome(n, nullptr);
}

int main(int argc, char** argv) {
    install_watchdog();
    FILE* out = fopen(argv[1], "w");
    FILE* in = fopen(argv[2], "rb");
    std::string file = std::string(argv[3]) + "/doc.yaml";
    const std::string nothing = outcome(Node(), nullptr);
    unsigned long len, cnt = 0;
    while (fscanf(in, "%lu", &len) == 1) {
        fgetc(in);
        std::string t(len, 0);
        if (fread(&t[0], 1, len, in) != len) return 3;
        doing("reading the text " + jq(t));
        std::string a, b, c, d, next = nothing;
        a = attempt([&](Node& n) { Yaml::Parse(n, t); });
        std::stringstream ss(t);
        b = attempt([&](Node& n) { Yaml::Parse(n, ss); });
        if (b.compare(0, 10, "{\"ok\":true") == 0) next = attempt([&](Node& n) { Yaml::Parse(n, ss); });
        c = attempt([&](Node& n) { Yaml::Parse(n, t.data(), t.size()); });
        d = a;
        if (cnt++ % 8 == 0) {
            { std::ofstream f(file, std::ios::binary); f.write(t.data(), t.size()); }
            d = attempt([&](Node& n) { Yaml::Parse(n, file.c_str()); });
        }
        alarm(0);
        std::string same = a != b ? "string and stream differ" : a != c ? "string and buffer differ" : a != d ? "string and file differ" : "ok";
        fprintf(out, "{\"text\":%s,\"first\":%s,\"next\":%s,\"same\":%s}\n", jq(t).c_str(), a.c_str(), next.c_str(), jq(same).c_str());
    }
    fclose(out);
    return 0;
}
