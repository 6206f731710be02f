// Builds random trees, writes them under random layout options in every way the
// library offers, reads them back, and records what happened.
// usage: write_driver OUT seed n SCRATCH
#include "vnode.h"
using Yaml::Node;
static Rng* g;

static const std::vector<std::string> words = {"a", "Bc", "12", "-1.5e3", "two words", "x: y", "k:", "- i", "#", "a #b", "'", "it's", "| x", ">", "...", "---", "~", "[1, 2]", "{a}",
    "*p", "&q", "!t", "%", "@", "`", "?", "tab\there", "a  b", "true", "=", "<", ",", "the quick brown fox jumps over the lazy dog again and again", "a b c d e f g h i j k l m n o p", "$x_y/z"};
static std::string oneline() {
    Rng& r = *g;
    switch (r(5)) {
    case 0: { static const std::string al = "ab :-\"\\#'|.\t,[{>~"; std::string s; for (unsigned n = r(7); n; n--) s += al[r((unsigned)al.size())]; return s; }
    case 1: return r.pick(words) + " " + r.pick(words);
    case 2: { std::string s; for (unsigned n = 1 + r(12); n; n--) s += (s.empty() ? "" : r(6) ? " " : "  ") + r.pick(words); return s; }
    default: return r.pick(words);
    }
}
static std::string text() {
    Rng& r = *g;
    std::string s = oneline();
    if (r(4) == 0) { for (unsigned n = 1 + r(3); n; n--) s += "\n" + std::string(r(3) ? 0 : r(4), ' ') + oneline(); if (r(2)) s += "\n"; }
    return s;
}
static void grow(Node& n, int depth) {
    Rng& r = *g;
    unsigned k = depth >= 4 ? 2 : r(5);
    if (k == 0 || k == 3) { for (unsigned m = 1 + r(3); m; m--) { Node& c = n.PushBack(); if (r(12)) grow(c, depth + 1); } }
    else if (k == 1 || k == 4) { for (unsigned m = 1 + r(3); m; m--) { std::string key = oneline(); Node& c = n[key]; if (r(12)) grow(c, depth + 1); } }
    else n = text();
}

int main(int argc, char** argv) {
    install_watchdog();
    if (std::string(argv[1]) == "--one") {   // KEY TEXT: is a map with this one entry read back?
        Node n, b; std::string s;
        n[argv[2]] = argv[3];
        try { Yaml::Serialize(n, s); Yaml::Parse(b, s); } catch (const Yaml::Exception&) {}
        puts(tree_json(n) == tree_json(b) ? "kept" : "lost");
        return 0;
    }
    FILE* out = fopen(argv[1], "w");
    Rng rng(atoi(argv[2])); g = &rng;
    std::string file = std::string(argv[4]) + "/out.yaml";
    unsigned total = atoi(argv[3]);
    for (unsigned i = 0; i < total; i++) {
        Node n;
        grow(n, rng(3));
        Yaml::SerializeConfig cfg(rng(40) ? 2 + rng(4) : rng(2), std::vector<size_t>{0, 1, 5, 20, 64}[rng(5)], rng(2), rng(2));
        bool dflt = rng(5) == 0;
        if (dflt) cfg = Yaml::SerializeConfig();
        std::string t = tree_json(n);
        std::string head = "\"tree\":" + t + ",\"cfg\":{\"ind\":" + jn(cfg.SpaceIndentation) + ",\"max\":" + jn(cfg.ScalarMaxLength) + ",\"seqnl\":" + jb(cfg.SequenceMapNewline) + ",\"mapnl\":" + jb(cfg.MapScalarNewline) + "}";
        doing("writing " + head);
        std::string text, same = "ok";
        bool refused = false;
        try { if (dflt) Yaml::Serialize(n, text); else Yaml::Serialize(n, text, cfg); }
        catch (const Yaml::OperationException&) { refused = true; }
        if (!refused) {
            std::stringstream ss;
            if (dflt) Yaml::Serialize(n, ss); else Yaml::Serialize(n, ss, cfg);
            if (ss.str() != text) same = "stream output differs";
            if (i % 8 == 0) {
                if (dflt) Yaml::Serialize(n, file.c_str()); else Yaml::Serialize(n, file.c_str(), cfg);
                std::ifstream f(file, std::ios::binary);
                std::string ft((std::istreambuf_iterator<char>(f)), {});
                if (ft != text) same = "file output differs";
            }
        }
        if (tree_json(n) != t) same = "writing changed the tree";
        Node back; bool ok = true;
        try { if (!refused) Yaml::Parse(back, text); } catch (const Yaml::Exception&) { ok = false; }
        alarm(0);
        fprintf(out, "{%s,\"refused\":%s,\"text\":%s,\"same\":%s,\"back\":{\"ok\":%s,\"tree\":%s}}\n", head.c_str(), jb(refused).c_str(), jq(text).c_str(), jq(same).c_str(), jb(ok).c_str(), tree_json(back).c_str());
    }
    fclose(out);
    return 0;
}
