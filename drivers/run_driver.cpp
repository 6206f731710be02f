// Runs the decks named in a file and records what every solver does, step by step.
// usage: run_driver LIST OUT time|state ; the deck runs in its own directory
#include "sim_dump.h"
#include <dirent.h>
#include <set>
static Driver* drv; static bool states; static std::string rec;

static int outputs(size_t solver)                  // the outputs written for a solver so far
{
    const bool pvd = drv->SimulationParamaters.output_options.format == output_options::viz || drv->SimulationParamaters.output_options.format == output_options::viz_and_state;
    std::string s; int n = 0;
    if (drv->SimulationParamaters.output_options.format == output_options::ensight) {
        std::ifstream f("ensight/Outputs_SGH.case");
        while (std::getline(f, s)) if (s.find("number of steps:") == 0) n = atoi(s.c_str() + 16);
        return n;
    }
    if (!pvd) {
        if (DIR* d = opendir("state")) { while (dirent* e = readdir(d)) n += !strncmp(e->d_name, "mat_pt", 6); closedir(d); }
        return n;
    }
    std::ifstream f("vtk/Fierro.solver" + jn((long)solver) + ".pvd");
    while (std::getline(f, s)) if (s.find("<DataSet") != std::string::npos) n++;
    return n;
}
// the longest step the state allows (the smallest over the material points), without the limits of the deck
static double allowed(const char* method)
{
    auto& S = drv->State; auto& m = drv->mesh; auto& mp = S.MaterialPoints;
    const double cfl = drv->SimulationParamaters.dynamic_options.dt_cfl;
    double least = 1e9;
    for (size_t mat = 0; mat < drv->Materials.num_mats; mat++)
        for (size_t k = 0; k < S.MaterialToMeshMaps.num_mat_elems.host(mat); k++) {
            size_t e = S.MaterialToMeshMaps.elem_in_mat_elem.host(mat, k);
            double h = 1e300;
            for (size_t a = 0; a < m.num_nodes_in_elem; a++)
                for (size_t b = 0; b < a; b++) {
                    double s = 0;
                    for (size_t d = 0; d < m.num_dims; d++) { double x = S.node.coords.host(m.nodes_in_elem.host(e, a), d) - S.node.coords.host(m.nodes_in_elem.host(e, b), d); s += x * x; }
                    h = std::fmin(h, std::sqrt(s)); if (std::isnan(s)) return NAN;
                }
            double dt;
            if (!strcmp(method, "thrmex_FE")) dt = std::fmin(1.0, 0.3 * h * h * mp.den.host(mat, k) * mp.specific_heat.host(mat, k) / (6.0 * mp.conductivity.host(mat, k)));
            else if (!strcmp(method, "level_set")) {
                if (drv->Materials.MaterialEnums.host(mat).levelSetType != model::evolveFront) continue;
                auto& f = drv->Materials.MaterialFunctions(mat);
                dt = cfl * h / (1.5 + std::fabs(f.normal_velocity) + std::fabs(f.curvature_velocity) / (3.0 * h));
            }
            else dt = mp.eroded.host(mat, k) ? 1e9 : cfl * h / mp.sspd.host(mat, k);
            if (std::isnan(dt)) return NAN;
            least = std::fmin(least, dt);
        }
    return least;
}
static const char* method_of(size_t id)
{
    switch (drv->SimulationParamaters.solver_inputs[id].method) {
        case solver_input::SGTM3D: return "thrmex_FE";
        case solver_input::levelSet: return "level_set";
        case solver_input::SGHRZ: return "dynx_FE_rz";
        default: return "dynx_FE";
    }
}
static std::string flat(double* p, size_t n) { return jlist(n, [&](size_t i) { return jd(p[i]); }); }
static std::string state()
{
    auto& S = drv->State; auto& m = drv->mesh; auto& n = S.node; auto& mp = S.MaterialPoints;
    const size_t D = m.num_dims, N = m.num_nodes, L = m.num_nodes_in_elem;
    std::string s = jkey("x", jlist(N, [&](size_t i) { return jlist(D, [&](size_t k) { return jd(n.coords.host(i, k)); }); }));
    if (n.vel.size()) s += "," + jkey("v", jlist(N, [&](size_t i) { return jlist(D, [&](size_t k) { return jd(n.vel.host(i, k)); }); }));
    if (n.mass.size()) s += "," + jkey("m", jlist(N, [&](size_t i) { return jd(n.mass.host(i)); }));
    if (n.force.size()) s += "," + jkey("nf", jlist(N, [&](size_t i) { return jlist(D, [&](size_t k) { return jd(n.force.host(i, k)); }); }));
    if (n.temp.size()) s += "," + jkey("T", jlist(N, [&](size_t i) { return jd(n.temp.host(i)); }));
    if (n.q_transfer.size()) s += "," + jkey("nq", jlist(N, [&](size_t i) { return jd(n.q_transfer.host(i)); }));
    auto corner = [&](size_t e, size_t l) { return m.corners_in_elem(e, l); };
    if (n.gradient_level_set.size()) s += "," + jkey("gl", jlist(N, [&](size_t i) { return jlist(D, [&](size_t k) { return jd(n.gradient_level_set.host(i, k)); }); }));
    if (S.GaussPoints.vel_grad.size()) s += "," + jkey("vg", jlist(m.num_elems, [&](size_t e) { return jlist(9, [&](size_t i) { return jd(S.GaussPoints.vel_grad.host(e, i / 3, i % 3)); }); }));
    if (S.corner.force.size()) s += "," + jkey("F", jlist(m.num_elems, [&](size_t e) { return jlist(L, [&](size_t l) { return jlist(D, [&](size_t k) { return jd(S.corner.force(corner(e, l), k)); }); }); }));
    if (S.corner.q_transfer.size()) s += "," + jkey("cq", jlist(m.num_elems, [&](size_t e) { return jlist(L, [&](size_t l) { return jd(S.corner.q_transfer(corner(e, l))); }); }));
    s += "," + jkey("vol", jlist(m.num_elems, [&](size_t e) { return jd(S.GaussPoints.vol.host(e)); }));
    if (S.GaussPoints.level_set.size()) s += "," + jkey("ls", jlist(m.num_elems, [&](size_t e) { return jd(S.GaussPoints.level_set.host(e)); }));
    std::string pts;
    for (size_t mat = 0; mat < drv->Materials.num_mats; mat++)
        for (size_t k = 0; k < S.MaterialToMeshMaps.num_mat_elems.host(mat); k++) {
            size_t e = S.MaterialToMeshMaps.elem_in_mat_elem.host(mat, k);
            auto val = [&](const char* q, DRaggedRightArrayKokkos<double>& a) { return a.size() ? "," + jkey(q, jd(a.host(mat, k))) : std::string(); };
            pts += (pts.empty() ? "{" : ",{") + jkey("e", jn((long)e + 1)) + "," + jkey("mat", jn((long)mat)) + val("vf", mp.volfrac) + val("gvf", mp.geo_volfrac) + val("den", mp.den) + val("mass", mp.mass) +
                   val("sie", mp.sie) + val("pres", mp.pres) + val("sspd", mp.sspd) + val("cond", mp.conductivity) + val("heat", mp.specific_heat);
            if (mp.eroded.size()) pts += "," + jkey("gone", mp.eroded.host(mat, k) ? "true" : "false");
            if (mp.stress.size()) pts += "," + jkey("st", jlist(9, [&](size_t i) { return jd(mp.stress.host(mat, k, i / 3, i % 3)); }));
            if (S.MaterialCorners.force.size()) pts += "," + jkey("F", jlist(L, [&](size_t l) { return jlist(D, [&](size_t d) { return jd(S.MaterialCorners.force(mat, S.corners_in_mat_elem(k, l), d)); }); }));
            pts += "}";
        }
    return s + "," + jkey("pts", "[" + pts + "]");
}
void fierro_verif_trace(const char* where, size_t solver, size_t cycle, double t, double dt, swage::Mesh&, State_t&)
{
    const char* m = method_of(solver);
    if (!rec.empty()) rec += ",\n";
    rec += "{" + jkey("at", jq(where)) + "," + jkey("solver", jn((long)solver)) + "," + jkey("cycle", jn((long)cycle)) + "," + jkey("t", jd(t)) + "," + jkey("dt", jd(dt)) + "," +
           jkey("outs", jn(outputs(solver))) + "," + jkey("stable", jd(allowed(m)));
    if (states && strcmp(where, "end")) rec += "," + state();
    rec += "}";
}
static std::string listed(size_t solver)           // the times of the outputs, and whether their files are there
{
    std::ifstream f("vtk/Fierro.solver" + jn((long)solver) + ".pvd");
    std::string s, out;
    while (std::getline(f, s)) {
        size_t a = s.find("timestep=\""), b = s.find("file=\"");
        if (s.find("<DataSet") == std::string::npos || a == std::string::npos || b == std::string::npos) continue;
        std::string file = s.substr(b + 6, s.find('"', b + 6) - b - 6);
        bool there = std::ifstream("vtk/" + file).good();
        out += (out.empty() ? "" : ",") + std::string("[") + jd(atof(s.c_str() + a + 10)) + "," + (there ? "1" : "0") + "]";
    }
    return "[" + out + "]";
}
int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    states = !strcmp(argv[3], "state");
    std::string deck;
    while (std::getline(in, deck)) {
        Ended e = in_child([&]() {
            std::string dir = deck.substr(0, deck.rfind('/'));
            if (chdir(dir.c_str())) throw std::runtime_error("no directory");
            std::vector<char> path(deck.begin(), deck.end()); path.push_back(0);
            drv = new Driver(path.data());
            drv->initialize();
            drv->setup();
            drv->execute();
            std::string s = jkey("events", "[" + rec + "]") + "," + jkey("listed", jlist(drv->solvers.size(), listed)) + "," + dump_mesh(*drv) + "," + dump_sets(*drv);
            return "{" + s + "}";
        }, 120);
        std::string one;
        for (char c : e.text) if (c != '\n') one += c;
        if (e.how == "ok") out << "{\"how\":\"ok\",\"got\":" << one << "}\n" << std::flush;
        else out << "{\"how\":" << jq(e.how) << ",\"err\":" << jq(e.err) << "}\n" << std::flush;
    }
}
