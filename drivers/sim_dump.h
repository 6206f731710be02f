// Shows the public state of a run of the multiphysics code as JSON (numbers in full precision).
#pragma once
#include "driver.hpp"
#include "fork_child.h"
#include <cmath>

inline std::string jd(double v)
{
    if (std::isnan(v)) return "1e308";
    if (std::isinf(v)) return v < 0 ? "-1e307" : "1e307";
    char b[40]; snprintf(b, sizeof b, "%.17g", v); return b;
}
template <class F> std::string jlist(size_t n, F f)
{
    std::string s = "[";
    for (size_t i = 0; i < n; i++) { if (i) s += ","; s += f(i); }
    return s + "]";
}
inline std::string jkey(const char* k, const std::string& v) { return jq(k) + ":" + v; }

inline std::string dump_mesh(Driver& d)
{
    auto& m = d.mesh; auto& n = d.State.node;
    return jkey("dims", jn((long)m.num_dims)) + "," +
        jkey("nodes", jlist(m.num_nodes, [&](size_t i) { return jlist(m.num_dims, [&](size_t k) { return jd(n.coords.host(i, k)); }); })) + "," +
        jkey("elems", jlist(m.num_elems, [&](size_t e) { return jlist(m.num_nodes_in_elem, [&](size_t l) { return jn((long)m.nodes_in_elem.host(e, l)); }); }));
}
inline std::string dump_sets(Driver& d)
{
    auto& m = d.mesh;
    return jkey("sets", jlist(m.num_bdy_sets, [&](size_t s) {
        return "{" + jkey("faces", jlist(m.num_bdy_patches_in_set.host(s), [&](size_t i) { size_t p = m.bdy_patches_in_set(s, i); return jlist(m.num_nodes_in_patch, [&](size_t k) { return jn((long)m.nodes_in_patch(p, k)); }); })) + "," +
               jkey("nodes", jlist(m.num_bdy_nodes_in_set.host(s), [&](size_t i) { return jn((long)m.bdy_nodes_in_set(s, i)); })) + "}"; }));
}
// the materials of every element: of each of them the values of its material point
inline std::string dump_mats(Driver& d)
{
    auto& S = d.State; auto& mp = S.MaterialPoints; auto& m = d.mesh;
    std::vector<std::string> bins(m.num_elems);
    for (size_t mat = 0; mat < d.Materials.num_mats; mat++)
        for (size_t k = 0; k < S.MaterialToMeshMaps.num_mat_elems.host(mat); k++) {
            size_t e = S.MaterialToMeshMaps.elem_in_mat_elem.host(mat, k);
            auto val = [&](const char* n, DRaggedRightArrayKokkos<double>& a) { return a.size() ? "," + jkey(n, jd(a.host(mat, k))) : std::string(); };
            auto& b = bins.at(e);
            b += (b.empty() ? "{" : ",{") + jkey("mat", jn((long)mat)) + val("vf", mp.volfrac) + val("gvf", mp.geo_volfrac) + val("den", mp.den) + val("mass", mp.mass) + val("sie", mp.sie) + val("cond", mp.conductivity) + val("heat", mp.specific_heat) +
                 val("pres", mp.pres) + val("sspd", mp.sspd) + "}";
        }
    // the same from the side of the elements
    auto& mm = S.MeshtoMaterialMaps;
    return jkey("bins", jlist(m.num_elems, [&](size_t e) { return "[" + bins[e] + "]"; })) + "," +
        jkey("mats", jlist(m.num_elems, [&](size_t e) { return jlist(mm.num_mats_in_elem.host(e), [&](size_t i) {
            size_t mat = mm.mats_in_elem.host(e, i), k = mm.mat_elems_in_elem.host(e, i);
            bool back = k < S.MaterialToMeshMaps.num_mat_elems.host(mat) && S.MaterialToMeshMaps.elem_in_mat_elem.host(mat, k) == e;
            return back ? jn((long)mat) : std::string("-1"); }); }));
}
inline std::string dump_nodes(Driver& d)
{
    auto& n = d.State.node; auto& m = d.mesh;
    std::string s;
    if (n.vel.size()) s += jkey("vel", jlist(m.num_nodes, [&](size_t i) { return jlist(m.num_dims, [&](size_t k) { return jd(n.vel.host(i, k)); }); }));
    if (n.temp.size()) s += (s.empty() ? "" : ",") + jkey("temp", jlist(m.num_nodes, [&](size_t i) { return jd(n.temp.host(i)); }));
    return s;
}
inline std::string dump_gauss(Driver& d)
{
    auto& g = d.State.GaussPoints; auto& m = d.mesh;
    std::string s = jkey("vol", jlist(m.num_elems, [&](size_t e) { return jd(g.vol.host(e)); }));
    if (g.level_set.size()) s += "," + jkey("ls", jlist(m.num_elems, [&](size_t e) { return jd(g.level_set.host(e)); }));
    return s;
}
