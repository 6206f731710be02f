// Projection of a real Yaml::Node to the record used by the specification,
// through the public read interface only.
#pragma once
#include "Yaml.hpp"
#include "vjson.h"

inline std::string tree_json(const Yaml::Node& n) {
    std::string k = "[", c = "[", v, t = "n";
    switch (n.Type()) {
    case Yaml::Node::None: t = "n"; break;
    case Yaml::Node::ScalarType: t = "s"; v = n.As<std::string>(); break;
    default: {
        t = n.Type() == Yaml::Node::MapType ? "m" : "q";
        bool first = true;
        for (auto it = n.Begin(); it != n.End(); it++) {
            if (!first) { c += ","; if (t == "m") k += ","; }
            first = false;
            if (t == "m") k += jq((*it).first);
            c += tree_json((*it).second);
        }
    }
    }
    return "{\"t\":\"" + t + "\",\"v\":" + jq(v) + ",\"k\":" + k + "],\"c\":" + c + "]}";
}

// All ways of looking at a tree agree; "ok" or what differs.
inline std::string views(Yaml::Node& n) {
    int is = n.IsNone() + n.IsScalar() + n.IsSequence() + n.IsMap();
    if (is != 1) return "type predicates";
    const Yaml::Node& cn = n;
    std::vector<const Yaml::Node*> fwd;
    std::vector<std::string> keys;
    if (n.IsNone() || n.IsScalar()) {
        if (n.Size() != 0) return "size of a leaf";
        if (n.IsNone() && n.As<std::string>() != "") return "text of nothing";
        if (n.Begin() != n.End() || cn.Begin() != cn.End()) return "iteration of a leaf";
        return "ok";
    }
    for (auto it = cn.Begin(); it != cn.End(); it++) { fwd.push_back(&(*it).second); keys.push_back((*it).first); }
    if (fwd.size() != n.Size()) return "size differs from iteration";
    std::vector<const Yaml::Node*> m;
    std::vector<std::string> mk;
    for (Yaml::Iterator it = n.Begin(); it != n.End(); it++) {
        Yaml::Iterator copy(it), other;
        other = it;
        { Yaml::Iterator& self = other; other = self; }
        if (!(copy == it) || other != it) return "iterator copy";
        m.push_back(&(*copy).second); mk.push_back((*other).first);
    }
    if (m != fwd || mk != keys) return "const and mutable iteration differ";
    std::vector<const Yaml::Node*> back;
    { auto it = n.End(); for (size_t i = 0; i < m.size(); i++) { it--; back.push_back(&(*it).second); } if (!(it == n.Begin())) return "backward iteration does not reach the start"; }
    { auto it = cn.End(); for (size_t i = 0; i < m.size(); i++) { it--; if (&(*it).second != back[i]) return "const backward iteration"; } }
    for (size_t i = 0; i < m.size(); i++) if (back[m.size() - 1 - i] != fwd[i]) return "backward iteration differs";
    if (n.As<std::string>() != "") return "text of a container";
    for (size_t i = 0; i < fwd.size(); i++) {
        Yaml::Node* at = n.IsMap() ? &n[keys[i]] : &n[i];
        if (at != fwd[i]) return "lookup differs from iteration";
        if (n.IsSequence() && !keys[i].empty()) return "list item has a key";
        std::string s = views(*at);
        if (s != "ok") return s;
    }
    if (n.IsSequence()) {   // nothing is there past the end, whatever was stored there before
        if (!n[fwd.size()].IsNone()) return "item past the end";
        n[fwd.size()] = "lost";
        if (!n[fwd.size()].IsNone() || !n[fwd.size() + 3].IsNone()) return "item past the end after a write";
    }
    if (n.Size() != fwd.size()) return "reading changed the size";
    return "ok";
}
