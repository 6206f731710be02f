// Reads input decks and shows every setting the parser made of them.
// The parsers of materials and boundary conditions are included, because the
// models they select are functions local to the translation unit.
#include "parse_material_inputs.cpp"
#include "parse_bdy_conds_inputs.cpp"
#include "Yaml.hpp"
#include "parse_yaml.hpp"
#include "simulation_parameters.hpp"
#include "fork_child.h"

typedef std::vector<std::string> V;
static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.15g", v); return b; }
static V n1(double v) { return {num(v)}; }
static V n3(const double* v) { return {num(v[0]), num(v[1]), num(v[2])}; }
static V b1(bool b) { return {b ? "true" : "false"}; }
struct Rec {
    std::string s;
    void put(const std::string& k, const V& v) { s += (s.empty() ? "" : ",") + jq(k) + ":" + jqs(v); }
    void raw(const std::string& k, const std::string& v) { s += (s.empty() ? "" : ",") + jq(k) + ":" + v; }
    std::string str() const { return "{" + s + "}"; }
};
template <class E> struct Names { std::vector<std::pair<E, const char*>> t; V operator()(E e) const { for (auto& p : t) if (p.first == e) return {p.second}; return {"value " + jn((long)e)}; } };

static const Names<init_conds::init_scalar_conds> scalar{{{init_conds::noICsScalar, "none"}, {init_conds::uniform, "uniform"}, {init_conds::radialScalar, "radial"}, {init_conds::sphericalScalar, "spherical"}, {init_conds::xlinearScalar, "x_linear"}, {init_conds::ylinearScalar, "y_linear"}, {init_conds::zlinearScalar, "z_linear"}, {init_conds::tgVortexScalar, "tg_vortex"}}};
static const Names<init_conds::init_vector_conds> vectors{{{init_conds::noICsVec, "none"}, {init_conds::stationary, "static"}, {init_conds::cartesian, "cartesian"}, {init_conds::radialVec, "radial"}, {init_conds::sphericalVec, "spherical"}, {init_conds::radialLinearVec, "radial_linear"}, {init_conds::sphericalLinearVec, "spherical_linear"}, {init_conds::tgVortexVec, "tg_vortex"}}};
static const Names<region::vol_tag> volumes{{{region::no_volume, "none"}, {region::global, "global"}, {region::box, "box"}, {region::sphere, "sphere"}, {region::cylinder, "cylinder"}, {region::readVoxelFile, "voxel_file"}, {region::readVTUFile, "vtu_file"}}};
static const Names<solver_input::method> methods{{{solver_input::NONE, "none"}, {solver_input::SGH3D, "dynx_FE"}, {solver_input::SGHRZ, "dynx_FE_rz"}, {solver_input::SGTM3D, "thrmex_FE"}, {solver_input::levelSet, "level_set"}, {solver_input::TLQS3D, "qstatx_FE"}}};
static const Names<boundary_conditions::BdyTag> surfaces{{{boundary_conditions::xPlane, "x_plane"}, {boundary_conditions::yPlane, "y_plane"}, {boundary_conditions::zPlane, "z_plane"}, {boundary_conditions::cylinder, "cylinder"}, {boundary_conditions::sphere, "sphere"}, {boundary_conditions::global, "global"}}};
static const Names<boundary_conditions::BCVelocityModels> vels{{{boundary_conditions::noVelocityBC, "none"}, {boundary_conditions::constantVelocityBC, "constant"}, {boundary_conditions::timeVaryingVelocityBC, "time_varying"}, {boundary_conditions::reflectedVelocityBC, "reflected"}, {boundary_conditions::zeroVelocityBC, "fixed"}, {boundary_conditions::userDefinedVelocityBC, "user_defined"}, {boundary_conditions::pistonVelocityBC, "piston"}}};
static const Names<boundary_conditions::BCTemperatureModels> temps{{{boundary_conditions::noTemperatureBC, "none"}, {boundary_conditions::constantTemperatureBC, "constant"}, {boundary_conditions::convectionTemperatureBC, "convection"}, {boundary_conditions::radiationTemperatureBC, "radiation"}}};
static const Names<boundary_conditions::BCStressModels> stresses{{{boundary_conditions::noStressBC, "none"}, {boundary_conditions::constantStressBC, "constant"}, {boundary_conditions::timeVaryingStressBC, "time_varying"}, {boundary_conditions::userDefinedStressBC, "user_defined"}, {boundary_conditions::globalContact, "global_contact"}, {boundary_conditions::preloadContact, "preload_contact"}, {boundary_conditions::fractureStressBC, "fracture"}}};
static const Names<model::EOSType> eostypes{{{model::noEOSType, "no_eos"}, {model::coupledEOSType, "coupled"}, {model::decoupledEOSType, "decoupled"}}};
static const Names<model::EOSModels> eoses{{{model::noEOS, "no_eos"}, {model::gammaLawGasEOS, "gamma_law_gas"}, {model::voidEOS, "void"}, {model::userDefinedEOS, "user_defined_eos"}, {model::hostUserDefinedEOS, "host_user_defined_eos"}, {model::linearElasticEOS, "linear_elastic_eos"}}};
static const Names<model::StrengthType> strengthtypes{{{model::noStrengthType, "no_strength"}, {model::incrementBased, "increment_based"}, {model::stateBased, "state_based"}}};
static const Names<model::DissipationModels> dissipations{{{model::noDissipation, "no_dissipation"}, {model::MARS, "MARS"}, {model::MARSRZ, "MARS_rz"}, {model::directionalMARS, "directional_MARS"}, {model::directionalMARSRZ, "directional_MARS_rz"}}};
static const Names<model::levelSetType> levelsets{{{model::noLevelSet, "no_level_set"}, {model::evolveFront, "evolve_front"}, {model::advectFront, "advect_front"}}};
static const Names<model::EquilibrationModels> equils{{{model::noEquilibration, "no_equilibration"}, {model::tiptonEquilibration, "tipton"}, {model::userDefinedEquilibration, "user_defined"}}};
static const Names<output_options::format> formats{{{output_options::viz, "viz"}, {output_options::ensight, "ensight"}, {output_options::state, "state"}, {output_options::viz_and_state, "viz_and_state"}}};
static const Names<output_options::timer_output_level> timers{{{output_options::thorough, "thorough"}}};
static const Names<mesh_input::source> msources{{{mesh_input::none, "none"}, {mesh_input::generate, "generate"}, {mesh_input::file, "file"}}};
static const Names<mesh_input::type> mtypes{{{mesh_input::Box, "box"}, {mesh_input::Polar, "polar"}}};
static const Names<material_pt_state> matpt{{{material_pt_state::density, "den"}, {material_pt_state::pressure, "pres"}, {material_pt_state::stress, "stress"}, {material_pt_state::specific_internal_energy, "sie"}, {material_pt_state::sound_speed, "sspd"}, {material_pt_state::mass, "mass"}, {material_pt_state::volume_fraction, "volfrac"}, {material_pt_state::eroded_flag, "eroded"}}};
static const Names<node_state> nodest{{{node_state::coords, "coords"}, {node_state::velocity, "vel"}, {node_state::temp, "temp"}, {node_state::mass, "mass"}, {node_state::force, "force"}, {node_state::gradient_level_set, "grad_level_set"}}};
static const Names<gauss_pt_state> gausst{{{gauss_pt_state::volume, "volume"}, {gauss_pt_state::level_set, "level_set"}, {gauss_pt_state::gradient_velocity, "vel_grad"}}};
static const Names<fill_gauss_state> fillg{{{fill_gauss_state::density, "density"}, {fill_gauss_state::specific_internal_energy, "specific_internal_energy"}, {fill_gauss_state::internal_energy, "internal_energy"}, {fill_gauss_state::specific_heat, "specific_heat"}, {fill_gauss_state::thermal_conductivity, "thermal_conductivity"}, {fill_gauss_state::level_set, "level_set"}}};
static const Names<fill_node_state> filln{{{fill_node_state::velocity, "velocity"}, {fill_node_state::temperature, "temperature"}}};
template <class N, class T> V all(const N& n, const std::vector<T>& v) { V r; for (auto x : v) r.push_back(n(x)[0]); return r; }

// the models a function pointer stands for
template <class F> std::string which(F f, std::initializer_list<std::pair<F, const char*>> t) { if (!f) return "unset"; for (auto& p : t) if (p.first == f) return p.second; return "other"; }

static std::string settings(const std::string& yaml)
{
    Yaml::Node root;
    Yaml::Parse(root, yaml);
    SimulationParameters_t sp; Material_t mat; BoundaryCondition_t bc;
    parse_yaml(root, sp, mat, bc);

    Rec out, m;
    auto& mi = sp.mesh_input;
    m.put("source", msources(mi.source)); m.put("num_dims", n1(mi.num_dims)); m.put("file_path", {mi.file_path}); m.put("type", mtypes(mi.type));
    m.put("origin", n3(mi.origin)); m.put("length", n3(mi.length)); m.put("num_elems", {jn(mi.num_elems[0]), jn(mi.num_elems[1]), jn(mi.num_elems[2])});
    m.put("polynomial_order", n1(mi.p_order)); m.put("inner_radius", n1(mi.inner_radius)); m.put("outer_radius", n1(mi.outer_radius));
    m.put("starting_angle", n1(mi.starting_angle)); m.put("ending_angle", n1(mi.ending_angle)); m.put("num_radial_elems", n1(mi.num_radial_elems)); m.put("num_angular_elems", n1(mi.num_angular_elems));
    m.put("scale_x", n1(mi.scale_x)); m.put("scale_y", n1(mi.scale_y)); m.put("scale_z", n1(mi.scale_z));
    out.raw("mesh", m.str());

    Rec d; auto& o = sp.dynamic_options;
    d.put("time_initial", n1(o.time_initial)); d.put("time_final", n1(o.time_final)); d.put("dt_min", n1(o.dt_min)); d.put("dt_max", n1(o.dt_max)); d.put("dt_start", n1(o.dt_start)); d.put("dt_cfl", n1(o.dt_cfl));
    d.put("cycle_stop", {jn(o.cycle_stop)}); d.put("fuzz", n1(o.fuzz)); d.put("tiny", n1(o.tiny)); d.put("small", n1(o.small)); d.put("rk_num_stages", n1(o.rk_num_stages));
    out.raw("dynamic", d.str());

    Rec u; auto& oo = sp.output_options;
    u.put("output_file_format", formats(oo.format)); u.put("timer_output_level", timers(oo.timer_level)); u.put("graphics_time_step", n1(oo.graphics_time_step)); u.put("graphics_iteration_step", n1(oo.graphics_iteration_step));
    u.put("elem_field_outputs", all(matpt, oo.output_elem_state)); u.put("node_field_outputs", all(nodest, oo.output_node_state)); u.put("mat_pt_field_outputs", all(matpt, oo.output_mat_pt_state)); u.put("gauss_pt_field_outputs", all(gausst, oo.output_gauss_pt_state));
    out.raw("output", u.str());

    size_t ns = sp.solver_inputs.size();
    std::string list;
    for (auto& s : sp.solver_inputs) { Rec r; r.put("method", methods(s.method)); r.put("id", {jn(&s - &sp.solver_inputs[0])}); r.put("time_end", n1(s.time_end)); r.put("use_moving_heat_source", b1(s.use_moving_heat_source)); list += (list.empty() ? "" : ",") + r.str(); }
    out.raw("solvers", "[" + list + "]");

    size_t nb = bc.num_bcs;
    auto sets = [&](auto& ids, auto& count) { std::string l; for (size_t s = 0; s < ns; s++) { V v; for (size_t i = 0; i < count.host(s); i++) v.push_back(jn(ids.host(s, i))); l += (s ? "," : "") + jqs(v); } return "[" + l + "]"; };
    auto in_set = [&](auto& ids, auto& count, size_t b) { V r; for (size_t s = 0; s < ns; s++) for (size_t i = 0; i < count.host(s); i++) if (ids.host(s, i) == b) r.push_back(jn(s)); return r; };
    list = "";
    for (size_t b = 0; b < nb; b++) {
        Rec r; auto& e = bc.BoundaryConditionEnums(b); auto& su = bc.BoundaryConditionSetup(b); auto& f = bc.BoundaryConditionFunctions(b);
        V v = vels(e.BCVelocityModel), t = temps(e.BCTemperatureModel), s = stresses(e.BCStressModel);
        auto agree = [&](V& name, const std::string& fn, bool used) {   // the function selected is the one of the model named
            if (fn == "unset" && (!used || name[0] == "convection" || name[0] == "radiation" || &name == &t || e.BCStressModel == boundary_conditions::noStressBC && &name == &s)) return;
            if (fn != name[0]) name.push_back("function " + fn);
        };
        agree(v, which(f.velocity, {{&NoVelocityBC::velocity, "none"}, {&ConstantVelocityBC::velocity, "constant"}, {&TimeVaryingVelocityBC::velocity, "time_varying"}, {&ReflectedVelocityBC::velocity, "reflected"}, {&ZeroVelocityBC::velocity, "fixed"}, {&UserDefinedVelocityBC::velocity, "user_defined"}, {&PistonVelocityBC::velocity, "piston"}}), !in_set(bc.vel_bdy_sets_in_solver, bc.num_vel_bdy_sets_in_solver, b).empty());
        agree(t, which(f.temperature, {{&ConstantTemperatureBC::temperature, "constant"}}), e.BCTemperatureModel == boundary_conditions::constantTemperatureBC);
        agree(s, which(f.stress, {{&NoStressBC::stress, "none"}, {&ConstantStressBC::stress, "constant"}, {&TimeVaryingStressBC::stress, "time_varying"}, {&UserDefinedStressBC::stress, "user_defined"}, {&fractureStressBC::stress, "fracture"}}), true);
        // the solver a condition belongs to shows in the sets of the solver
        V ids; for (auto& q : {in_set(bc.vel_bdy_sets_in_solver, bc.num_vel_bdy_sets_in_solver, b), in_set(bc.temperature_bdy_sets_in_solver, bc.num_temperature_bdy_sets_in_solver, b), in_set(bc.stress_bdy_sets_in_solver, bc.num_stress_bdy_sets_in_solver, b)}) for (auto& x : q) ids.push_back(x);
        r.put("solvers_seen", ids);
        r.put("surface.type", surfaces(su.surface)); r.put("surface.value", n1(su.value)); r.put("surface.tolerance", n1(su.tolerance)); r.put("surface.origin", n3(su.origin));
        r.put("velocity_model", v); r.put("temperature_model", t); r.put("stress_model", s);
        auto vars = [&](auto& count, auto& values) { V w; for (size_t i = 0; i < count(b); i++) w.push_back(num(values(b, i))); return w; };
        r.put("velocity_bc_global_vars", vars(bc.num_velocity_bc_global_vars, bc.velocity_bc_global_vars)); r.put("temperature_bc_global_vars", vars(bc.num_temperature_bc_global_vars, bc.temperature_bc_global_vars)); r.put("stress_bc_global_vars", vars(bc.num_stress_bc_global_vars, bc.stress_bc_global_vars));
        list += (list.empty() ? "" : ",") + r.str();
    }
    out.raw("bcs", "[" + list + "]");
    out.raw("velocity_sets", sets(bc.vel_bdy_sets_in_solver, bc.num_vel_bdy_sets_in_solver)); out.raw("temperature_sets", sets(bc.temperature_bdy_sets_in_solver, bc.num_temperature_bdy_sets_in_solver)); out.raw("stress_sets", sets(bc.stress_bdy_sets_in_solver, bc.num_stress_bdy_sets_in_solver));
    out.put("contact", b1(bc.allow_contact)); out.put("preload", b1(bc.allow_preload)); out.put("fracture", b1(bc.allow_fracture)); out.put("fracture_bc", {jn(bc.fracture_bc_id)}); out.put("contact_bc_vars", {jn(bc.contact_max_local_iter), jn(bc.contact_max_global_iter)});

    auto& rs = sp.region_setups;
    list = "";
    for (size_t i = 0; i < rs.region_fills.size(); i++) {
        Rec r; auto& f = rs.region_fills(i); auto& h = rs.region_fills_host(i);
        r.put("solver_id", {jn(f.solver_id)}); r.put("material_id", {jn(f.material_id)});
        r.put("volume.type", volumes(f.volume)); r.put("volume.file_path", {h.file_path}); r.put("volume.origin", n3(f.origin));
        r.put("volume.x1", n1(f.x1)); r.put("volume.x2", n1(f.x2)); r.put("volume.y1", n1(f.y1)); r.put("volume.y2", n1(f.y2)); r.put("volume.z1", n1(f.z1)); r.put("volume.z2", n1(f.z2)); r.put("volume.radius1", n1(f.radius1)); r.put("volume.radius2", n1(f.radius2));
        r.put("volume.scale_x", n1(h.scale_x)); r.put("volume.scale_y", n1(h.scale_y)); r.put("volume.scale_z", n1(h.scale_z)); r.put("volume.part_id", n1(f.part_id));
        auto field = [&](const std::string& n, init_conds::init_scalar_conds k, double v) { r.put(n + ".type", scalar(k)); r.put(n + ".value", n1(v)); };
        field("density", f.den_field, f.den); field("specific_internal_energy", f.sie_field, f.sie); field("internal_energy", f.ie_field, f.ie); field("specific_heat", f.specific_heat_field, f.specific_heat); field("thermal_conductivity", f.thermal_conductivity_field, f.thermal_conductivity); field("temperature", f.temperature_field, f.temperature);
        field("level_set", f.level_set_field, f.level_set); r.put("level_set.slope", n1(f.level_set_slope)); r.put("level_set.origin", n3(f.level_set_origin));
        field("volume_fraction", f.volfrac_field, f.volfrac); r.put("volume_fraction.slope", n1(f.volfrac_slope)); r.put("volume_fraction.origin", n3(f.volfrac_origin));
        r.put("velocity.type", vectors(f.vel_field)); r.put("velocity.u", n1(f.u)); r.put("velocity.v", n1(f.v)); r.put("velocity.w", n1(f.w)); r.put("velocity.speed", n1(f.speed));
        list += (list.empty() ? "" : ",") + r.str();
    }
    out.raw("regions", "[" + list + "]");
    out.raw("fills", sets(rs.reg_fills_in_solver, rs.num_reg_fills_in_solver));
    out.put("gauss_fields", all(fillg, rs.fill_gauss_states)); out.put("node_fields", all(filln, rs.fill_node_states));

    list = "";
    for (size_t i = 0; i < mat.num_mats; i++) {
        Rec r; auto& e = mat.MaterialEnums(i); auto& f = mat.MaterialFunctions(i);
        r.put("id", {jn(i)}); r.put("eos_model_type", eostypes(e.EOSType));
        std::string p = which(f.calc_pressure, {{&NoEOSModel::calc_pressure, "no_eos"}, {&GammaLawGasEOSModel::calc_pressure, "gamma_law_gas"}, {&VoidEOSModel::calc_pressure, "void"}, {&UserDefinedEOSModel::calc_pressure, "user_defined_eos"}, {&HostUserDefinedEOSModel::calc_pressure, "host_user_defined_eos"}, {&LinearElasticEOS::calc_pressure, "linear_elastic_eos"}});
        std::string c = which(f.calc_sound_speed, {{&NoEOSModel::calc_sound_speed, "no_eos"}, {&GammaLawGasEOSModel::calc_sound_speed, "gamma_law_gas"}, {&VoidEOSModel::calc_sound_speed, "void"}, {&UserDefinedEOSModel::calc_sound_speed, "user_defined_eos"}, {&HostUserDefinedEOSModel::calc_sound_speed, "host_user_defined_eos"}, {&LinearElasticEOS::calc_sound_speed, "linear_elastic_eos"}});
        V eos{p};
        if (c != p) eos.push_back("sound speed " + c);
        if (eoses(e.EOSModels)[0] != (p == "unset" ? "no_eos" : p)) eos.push_back("model " + eoses(e.EOSModels)[0]);
        if ((e.EOSRunLocation == model::host) != (p == "host_user_defined_eos")) eos.push_back("location");
        r.put("eos_model", eos);
        r.put("strength_model_type", strengthtypes(e.StrengthType));
        std::string s = which(f.calc_stress, {{&NoStrengthModel::calc_stress, "no_strength"}, {&UserDefinedStrengthModel::calc_stress, "user_defined_strength"}, {&HypoPlasticityModel::calc_stress, "hypo_plasticity_strength"}, {&HypoPlasticityRZModel::calc_stress, "hypo_plasticity_strength_rz"}, {&HostANNStrengthModel::calc_stress, "host_ann_strength"}});
        std::string t = which(f.init_strength_state_vars, {{&NoStrengthModel::init_strength_state_vars, "no_strength"}, {&UserDefinedStrengthModel::init_strength_state_vars, "user_defined_strength"}, {&HypoPlasticityModel::init_strength_state_vars, "hypo_plasticity_strength"}, {&HypoPlasticityRZModel::init_strength_state_vars, "hypo_plasticity_strength_rz"}, {&HostANNStrengthModel::init_strength_state_vars, "host_ann_strength"}});
        V st{s};
        if (t != s) st.push_back("initial state " + t);
        if ((e.StrengthRunLocation == model::host) != (s == "host_ann_strength")) st.push_back("location");
        r.put("strength_model", st);
        V di = dissipations(e.DissipationModels);
        std::string df = which(f.calc_dissipation, {{&NoDissipationModel::calc_dissipation, "no_dissipation"}, {&MARSDissipationModel::calc_dissipation, "MARS"}, {&MARSRZDissipationModel::calc_dissipation, "MARS_rz"}, {&DirMARSDissipationModel::calc_dissipation, "directional_MARS"}, {&DirMARSRZDissipationModel::calc_dissipation, "directional_MARS_rz"}});
        if (df != di[0]) di.push_back("function " + df);
        r.put("dissipation_model", di);
        std::string er = which(f.erode, {{&NoErosionModel::erode, "no_erosion"}, {&BasicErosionModel::erode, "basic"}});
        V ev{er};
        if ((e.ErosionModels == model::basicErosion) != (er == "basic") || (e.ErosionModels != model::basicErosion && e.ErosionModels != model::noErosion)) ev.push_back("model");
        r.put("erosion_model", ev);
        r.put("erode_tension_val", n1(f.erode_tension_val)); r.put("erode_density_val", n1(f.erode_density_val));
        r.put("level_set_type", levelsets(e.levelSetType)); r.put("normal_velocity", n1(f.normal_velocity)); r.put("curvature_velocity", n1(f.curvature_velocity));
        auto vars = [&](auto& count, auto& values) { V w; for (size_t k = 0; k < count(i); k++) w.push_back(num(values(i, k))); return w; };
        r.put("eos_global_vars", vars(mat.num_eos_global_vars, mat.eos_global_vars)); r.put("strength_global_vars", vars(mat.num_strength_global_vars, mat.strength_global_vars)); r.put("dissipation_global_vars", vars(mat.num_dissipation_global_vars, mat.dissipation_global_vars));
        list += (list.empty() ? "" : ",") + r.str();
    }
    out.raw("materials", "[" + list + "]");

    Rec mm; auto vec = [&](auto& a) { V w; for (size_t k = 0; k < a.size(); k++) w.push_back(num(a(k))); return w; };
    mm.put("max_num_mats_per_element", {jn(mat.max_num_mats_per_element)}); mm.put("mat_equilibration_model", equils(mat.EquilibrationModels)); mm.put("geo_equilibration_model", equils(mat.GeoEquilibrationModels));
    mm.put("mat_equilibration_global_vars", vec(mat.equilibration_global_vars)); mm.put("geo_equilibration_global_vars", vec(mat.geo_equilibration_global_vars));
    out.raw("multi", mm.str());
    return out.str();
}

// argv: file of decks separated by lines "%%%", output file
int main(int, char** argv)
{
    std::ifstream in(argv[1]); std::ofstream out(argv[2]);
    std::string line, deck;
    while (std::getline(in, line)) {
        if (line != "%%%") { deck += line + "\n"; continue; }
        Ended e = in_child([&] { return settings(deck); });
        out << "{\"how\":" << jq(e.how) << ",\"why\":" << jq(e.how == "ok" ? "" : e.err.substr(0, 400)) << (e.how == "ok" ? ",\"got\":" + e.text : std::string()) << "}\n";
        deck = "";
    }
    return 0;
}
