#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one source of truth)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Y = "legacy/Fierro_V0/src/Yaml-Serializable/"
M = "apps/multiphysics/src/"
YC = [Y + "src/Yaml.cpp", Y + "include/Yaml.hpp", M + "input/Yaml.cpp", M + "input/Yaml.hpp"]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique="TLA+ model checked with TLC; trace validation of the real code", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, technique=technique, hook=hook))


prop("P01", "A YAML node behaves as an ordered list, a keyed map, a text or nothing",
     "Whatever calls are made on a YAML tree (append, insert and remove at any index or key, assign, clear, look up), every node has exactly one kind, and its size, the lookup by index or key, and forward and backward, constant and mutable iteration all show the same items in the same order. "
     "List items keep contiguous indices, map entries are visited in byte order of their keys, reading past the end of a list shows nothing and never changes the tree, and iteration always ends.",
     ["histories"], "for every sequence of calls on a tree of nodes",
     "The tests build a handful of trees by loading structures; no test inserts, erases, iterates backwards or mixes calls, and the property is about all histories.",
     YC, [("list and map containers", "SequenceImp, MapImp in Yaml.cpp"), ("iterators", "Iterator, ConstIterator in Yaml.cpp")],
     ["Yaml::Node public calls", "Yaml::Iterator"], "Node calls are checked against a TLA+ state machine: TLC explores it exhaustively within small constants; every call sequence up to length 3 (4) over a fixed alphabet and random longer histories of both copies of the library are validated event by event with the full tree projected after each call.")
prop("P02", "Copies of YAML trees are equal and independent",
     "Copying or assigning a YAML tree, also from or into a part of itself, gives a tree equal to the source as it was before the call, and no later change of either changes the other.",
     ["histories"], "for every sequence of copies and changes of several trees, including copies between a tree and its own parts",
     "The tests never copy a tree and change it afterwards.", YC, [("deep copy", "CopyNode, Node::operator= in Yaml.cpp")],
     ["Yaml::Node copy construction and assignment"], "As P01, over three trees with copies among their parts.")
prop("P03", "A well-formed document is read as the tree it denotes",
     "Reading a well-formed document (lists, maps, plain, quoted, literal and folded texts, comments, blank lines, markers, any indentation and line ends) gives exactly the tree it denotes, whether it is read from a text, a buffer, a stream or a file, and whatever the target held before. "
     "Reading from a stream stops at the end of the document, so that the next read gives the next document.",
     ["inputs"], "for every document of the supported notation",
     "The tests read about a dozen fixed documents.", YC, [("line reading", "ParseImp::ReadLines"), ("line classification", "ParseImp::PostProcessLines"), ("tree building", "ParseImp::ParseRoot and below")],
     ["Yaml::Parse"], "Two independent TLA+ models, a denotational generator of documents with their trees and an operational model of the reader, are checked against each other by TLC; generated documents and random variations are read by the real code (both copies, all sources) and compared.")
prop("P04", "A malformed document is rejected, at the right line, and leaves nothing behind",
     "Reading a malformed document (wrong indentation, invalid character, tab before text, unbalanced quote, missing key, list where none may start, mixed entries, unfinished entry) ends in a parsing or internal error that names the offending line, leaves the target empty, and never crashes or hangs. "
     "No text whatever makes the reader crash, hang or end in another kind of error.",
     ["inputs"], "for every text",
     "The tests contain no malformed document.", YC, [("error checks of the reader", "ParseImp in Yaml.cpp"), ("clearing on error", "ParseImp::Parse")],
     ["Yaml::Parse", "Yaml::Exception"], "As P03 with defects spoiled into documents by the model, all short texts over a token alphabet, and random texts; under AddressSanitizer and UBSan.")
prop("P05", "A written YAML tree reads back equal, laid out as asked for",
     "Writing any tree of texts, lists and maps under any layout options (indentation, fold length, list items or map values on new lines) and reading the result gives an equal tree without the entries that hold nothing, and the text is laid out as the options say. "
     "An indentation below two is refused, writing does not change the tree, and a text, a stream and a file receive the same output.",
     ["inputs", "configurations"], "for every tree whose texts and keys are printable and every combination of layout options",
     "The tests round-trip a few short scalars with the default layout.", YC, [("writing", "SerializeLoop, LineFolding, ShouldBeCited, AddEscapeTokens in Yaml.cpp")],
     ["Yaml::Serialize", "Yaml::Parse"], "The TLA+ writer and reader models are checked by TLC to round-trip every small text and tree; random trees and options written by the real code are validated: the text denotes the tree, is laid out as specified and is read back. Texts the notation cannot hold are listed as known findings.")

SC = [Y + "include/yaml-serializable.h", Y + "include/yaml-serializable-containers.h", Y + "include/serializable-struct.h"]
prop("P06", "A stored configuration loads back equal",
     "Any configuration built from the supported kinds of fields (numbers, flags, texts, enumerations, lists, sets, fixed arrays, optionals, pointers, nested and derived structures, structures chosen by type), stored as a text, loads back equal; fields that hold nothing stay absent. "
     "Several objects can be stored into one text (for a field they share the last one counts), and storing does not change them.",
     ["inputs"], "for every type built from the supported kinds and every value of it whose lists hold no absent items, reals up to six digits",
     "The tests store one value each of a few types.", SC, [("storing and loading of fields", "IMPL_YAML_SERIALIZABLE_FOR in serializable-struct.h"), ("containers", "Containers::Impl, FixedLengthImpl in yaml-serializable-containers.h")],
     ["Yaml::to_string", "Yaml::serialize", "Yaml::from_string"], "A TLA+ specification of typed values, storing and loading; TLC checks that every small value of 22 types comes back through the written text; random values of 31 types (and sets of types) stored and reloaded by the real code are validated: node tree, text tree and reloaded value.")
prop("P07", "Loading sets exactly the fields the document names",
     "Loading a document into an object sets the fields the document names, converted to their types, and leaves all other fields as they were; entries that are no field are ignored. A document loaded into several objects gives each what it would get alone. "
     "Loading from a text, a file or a node, into an existing object or a new one, gives the same result, as does a list in bracket notation. A value of the wrong kind is an error naming the field's full path.",
     ["inputs"], "for every document and every type of configuration",
     "The tests load one or two documents per feature, mostly into fresh objects.", SC, [("loading", "from_string, from_file in yaml-serializable.h"), ("bracket lists", "to_sequence_node, tokenizer")],
     ["Yaml::from_string", "Yaml::from_file", "Yaml::deserialize"], "As P06; TLC loads every document of depth two into 22 types (unnamed fields kept, order of objects irrelevant, loading twice is loading once); random documents, including ones that do not fit, loaded by the real code through every entry point are validated with the object before and after.")
prop("P08", "Strict loading accepts a document exactly if all of it is used",
     "Strict loading of one or several objects succeeds exactly if plain loading succeeds and every key and list item of the document is taken by some object; the result is then that of plain loading. Otherwise it reports the first unexpected field, dictionary, list or unloaded item with its full path.",
     ["inputs"], "for every document and every set of objects",
     "The tests try five documents on flat structures.", SC + [Y + "include/configuration-validation.h"], [("comparison with what was loaded", "strict_validation, validate_subset")],
     ["Yaml::from_string_strict", "Yaml::from_file_strict"], "TLC proves the operational specification (load raw, store again, compare) equivalent to the declarative one (every entry is used) on every document of depth two for 22 types; random documents loaded strictly by the real code are validated, including the reported path and message.")
prop("P09", "Required fields are enforced and hooks run once, in order, before use",
     "Loading fails with the name of the first missing required field of the class or its bases, at its full path. derive() and validate() of every loaded object run exactly once, base class before derived class, parts before the whole, derive before validate, on the fully loaded fields; inherited hooks are not run again for a derived class. "
     "An error raised by validate carries the path of the object. In strict loading no hook runs before the document is known to be used entirely.",
     ["inputs", "configurations"], "for every document and every hierarchy of classes with and without hooks and required fields",
     "The tests count hook calls for three small hierarchies.", SC + [Y + "include/yaml-post-processing.h"], [("required fields", "YAML_ADD_REQUIRED_FIELDS_FOR"), ("hooks", "derive_with_base, validate_with_base")],
     ["derive() and validate() of user classes", "Yaml::ConfigurationException"], "TLC checks the hook sequence of the loading specification against an independent definition for every small document; the real code logs each hook call with the object's value, and every log is validated.")
prop("P10", "A type-discriminated object is loaded and stored as its registered class",
     "A pointer to a discriminated base loads as the class registered for the document's `type`, with all fields of base and derived class and each hook once; a missing, unknown or unregistered type is an error. Storing writes all fields of the dynamic class, so that lists of different classes load back equal.",
     ["inputs"], "for every document and every registered class, in lists, optionals, shared and unique pointers",
     "The tests load one list of two classes.", [Y + "include/type-discrimination.h"], [("choice of class", "deserialize_as_derived, serialize_as_derived"), ("registration", "Register")],
     ["Yaml::from_string", "Yaml::to_string"], "As P06–P09 with types chosen by a field: TLC over 10 such types, random documents and objects of a four-class hierarchy with virtual bases through the real code.")
prop("P11", "apply calls exactly the first handler that takes the object's class",
     "apply and try_apply call exactly one handler, once: the first in the list whose argument (reference, constant reference, pointer, or anything) can take the object's dynamic class, and hand it the object itself. If none can, apply raises an error and try_apply returns false. An error raised by the handler reaches the caller and no other handler runs.",
     ["inputs"], "for every dynamic class and every list of handlers",
     "The tests try six lists of handlers.", [Y + "include/type-discrimination.h"], [("dispatch", "TypeDiscriminated::dispatcher, apply, try_apply")],
     ["TypeDiscriminated::apply", "TypeDiscriminated::try_apply"], "A TLA+ state machine (try, run, give up) is model checked for all lists up to length four over four classes; the real code runs 205 lists of handlers of all kinds on four classes, also with handlers that raise errors, and each outcome is validated.")
prop("P12", "Enumerations and fixed-length arrays accept exactly their names and length",
     "An enumeration is read from exactly its declared names, through text, stream, node or list, and gives the same name back; any other text is an error listing the allowed names and leaves the value as it was. A fixed array takes exactly as many items as it has. Errors in lists name the index of the item at every level.",
     ["inputs"], "for every text, every enumeration and every (nested) list or array",
     "The tests try one wrong name and one wrong length.", [Y + "include/serializable-enum.h", Y + "include/map-macro.h", Y + "include/yaml-serializable-containers.h"], [("names", "SERIALIZABLE_ENUM"), ("length", "FixedLengthImpl::validate_length"), ("item paths", "deserialize_from_indexed_item")],
     ["from_string and to_string of enumerations", "Yaml::from_string"], "As P06, over enumerations of 1 to 40 names, structures of 40 fields, and nested arrays and lists; near misses of names, out-of-range values and wrong lengths through the real code are validated.")

MI = ["apps/micromechanics/%s/src/" % v for v in ("EVPFFT", "LS-EVPFFT", "LS-EVPFFT-J2", "LSNP-EVPFFT")]
prop("P13", "The micromechanics command line takes exactly the options given",
     "For every command line of the four micromechanics solvers, each option (letter, name or unambiguous shortened name, value joined, after '=' or as the next argument) sets exactly its setting, the last value counts, other arguments are ignored and '--' ends the options. "
     "A run starts only with an input file and, for HDF5 microstructures, with all three data sets and the unit of the angles; otherwise, on the help option, an unknown or ambiguous option, or a missing value, the usage of every option is printed and the program ends with status 1.",
     ["inputs", "configurations"], "for every list of arguments and each of the four solvers",
     "No test runs a command line.", [d + "command_line_args.cpp" for d in MI], [("options", "CommandLineArgs::parse_command_line"), ("completeness", "CommandLineArgs::check_cmd_args")],
     ["CommandLineArgs after parse_command_line", "exit status and output"], "A TLA+ machine that takes one argument per step is model checked against a declarative reading of wishes (all lines of up to three of 32 arguments, all pairs of wishes); every line of up to two of 52 arguments and random longer ones are run through the real code in child processes and validated.")
prop("P14", "Result files describe exactly the grid and fields that were written",
     "An XDMF file is a well-formed document of one uniform grid with one more point than cells in each direction and exactly the fields written, in order, each with its name, kind, number type, precision, grid dimensions and location; number type and precision are those of the data, and data of another type is refused. "
     "A VTK file states the dimensions, the number of points and every field with all its values in order, for integer and real data.",
     ["inputs"], "for every grid size, number and type of fields",
     "No test writes a result file.", [d + f for d in MI for f in ("XdmfUniformGridWriter.cpp", "XdmfUniformGridWriter.h", "VTKUniformGridWriter.h")], [("XDMF text", "XdmfUniformGridWriter"), ("VTK text", "VTKUniformGridWriter")],
     ["the files written"], "A TLA+ machine of the writer (open, header, fields, footer) gives the document as a tree; TLC checks it holds exactly the fields written; files of random grids and fields written by the real code are read back by an XML reader and validated.")

prop("P15", "An input deck is taken as written, or refused",
     "Whatever an input deck of the multiphysics code says, it is either refused with an error, or every setting (mesh, time stepping, output, solvers, boundary conditions, regions, materials, multi-material options) has exactly the value the deck gives it, or its documented default, and every named model is the model that is selected. "
     "The order of words, sections and (numbered) entries and the way a number is written do not matter. A deck is refused when a word or option is unknown, a required word is missing, lists have a wrong length, ids are out of range or repeated, or settings contradict each other (a 3D model in 2D, variables without their model and the like). "
     "Each boundary condition and region acts in the solver it names.",
     ["inputs", "configurations"], "for every deck over the documented words and options",
     "No test reads an input deck.", [M + "input/" + f for f in ("parse_yaml.cpp", "parse_tools.cpp", "parse_mesh_inputs.cpp", "parse_dynamic_inputs.cpp", "parse_output_options.cpp", "parse_solver_inputs.cpp", "parse_bdy_conds_inputs.cpp", "parse_regions.cpp", "parse_material_inputs.cpp")] +
     [M + "common/include/" + f for f in ("material.hpp", "region.hpp", "boundary_conditions.hpp", "mesh_inputs.hpp", "output_options.hpp", "solver_inputs.hpp", "dynamic_options.hpp", "initial_conditions.hpp")],
     [("reading the sections of a deck", "parse_yaml and the parse_*_inputs functions"), ("checking words", "validate_inputs in parse_tools.cpp")],
     ["SimulationParameters_t, Material_t and BoundaryCondition_t after parse_yaml"], "A TLA+ specification of the deck (its schema, when it is taken, the settings it asks for) is model checked over edits of base decks (every single edit; random sequences), and each deck TLC prints is rendered as YAML in varied layouts and read by the real parser, whose settings are validated against the specification.")

SETUP = "A TLA+ specification (Setup.tla) defines the elements of generated and file meshes with their volumes, the boundary, the boundary sets and the fills of the regions; TLC model checks the fills as a machine against their meaning (MCSetup). Random decks that TLC generates (GenSetup) are rendered as YAML and mesh files, set up by the real code (Driver::initialize, built against serial stand-ins of its array and mesh libraries), and what the run starts from is validated against the specification (TraceSetup)."

prop("P16", "A generated mesh is the mesh that was asked for",
     "Whatever origin, size, radii, angles and numbers of cells a deck gives, the mesh a run starts from consists of exactly the cells of that box (2D or 3D) or polar sector (2D): its nodes are at the points of the grid and nowhere else, each once, every element joins the nodes of its cell in their fixed order (hexahedra with x fastest, quadrilaterals counter-clockwise), and the volume computed for every element is its exact volume (in 2D: of the quadrilateral turned about the x axis, per radian).",
     ["inputs"], "for every size, position and resolution", "No test generates a mesh.",
     [M + "common/include/mesh_io.hpp", M + "common/src/geometry_new.cpp", M + "input/parse_mesh_inputs.cpp"],
     [("the builders", "MeshBuilder in mesh_io.hpp"), ("volumes", "geometry::get_vol")], ["node coordinates, nodes_in_elem and GaussPoints.vol after Driver::initialize"], SETUP)

prop("P17", "A boundary set holds the boundary faces on its surface, and no others",
     "For every mesh (generated or from a file) and every surface a deck names (a plane of constant x, y or z, a cylinder about the z direction or a sphere, with its origin and tolerance), the boundary set holds exactly the faces that belong to one element only and have all their nodes on the surface within the tolerance, each once, and its nodes are exactly the nodes of these faces, each once. The sets are in the order of the boundary conditions.",
     ["inputs"], "for every mesh and surface", "No test builds a boundary set.",
     [M + "common/include/boundary_conditions.hpp", M + "common/src/geometry_new.cpp", M + "driver.cpp"],
     [("tagging the boundary", "tag_bdys and check_bdy in geometry_new.cpp")], ["bdy_patches_in_set and bdy_nodes_in_set after Driver::initialize"], SETUP)

prop("P18", "Regions fill the mesh as the deck says",
     "After the regions of a deck are applied in their order to any mesh, every element whose centre (the mean of its nodes) lies in the volume of a region (global, box, cylinder or spherical shell, part of a .vtu file) holds that region's material: a region with volume fraction one replaces what the element held, another one takes the place of the same material or is added to the element; other elements are untouched. "
     "The material point of every element and material has the volume fraction of the region's field at the centre (uniform, linear in a coordinate, radial, spherical; cut to [0,1]), the density, specific internal energy (or energy divided by mass; the specific energy wins when both are given), conductivity and specific heat of the region, and the mass density times volume times volume fraction; the maps from elements to materials and back agree; the level set of an element is the lowest of those of its materials; "
     "the velocity (static, cartesian, radial, spherical, Taylor-Green) and temperature of a node are those of a region that fills an element at the node. A deck that puts more materials in an element than max_num_mats_per_element is refused.",
     ["inputs", "histories"], "for every mesh and sequence of regions", "No test fills a mesh.",
     [M + "common/src/region_fill.cpp", M + "common/include/region_fill.hpp", M + "driver.cpp", M + "input/parse_regions.cpp"],
     [("fills", "fill_regions, append_fills_in_elem, get_region_scalar in region_fill.cpp"), ("material points", "material_state_setup in region_fill.cpp")], ["material points, maps, nodal and Gauss point state after Driver::initialize"], SETUP)

prop("P19", "A mesh file is read as the mesh it describes",
     "Whatever hexahedral mesh an Ensight (.geo), Abaqus (.inp), VTK (.vtk) or ASCII VTU (.vtu) file describes, in any order and numbering of nodes and elements the format allows and any layout of the numbers, the mesh a run starts from has exactly its nodes (scaled by scale_x, scale_y and scale_z) and elements, each element with its nodes in the order of the code (x fastest), the exact volumes, and the part ids of a .vtu file.",
     ["inputs"], "for every mesh and way to write it", "No test reads a mesh file.",
     [M + "common/include/mesh_io.hpp"], [("readers", "MeshReader in mesh_io.hpp")], ["node coordinates, nodes_in_elem and GaussPoints.vol after Driver::initialize"], SETUP)


RUN = "Random decks with one or two solvers that TLC generates (GenRun.tla: meshes, materials, boundary conditions, schedules) are run by the real code, built against the stand-ins with hooks that show its state at the start and after every step. "
HOOK = "a call after every step of a solver (FIERRO_VERIF_TRACE)"

prop("P20", "A run goes through time as its deck says, and writes every output that is due",
     "The solvers of a deck run one after the other: the first from time_initial, each other from where the one before ended, to its time_end or to time_final, whichever is first, or until it has taken cycle_stop steps. "
     "No step is longer than dt_max or than the state allows (dt_cfl times the shortest distance between nodes of an element over the sound speed, and the limits of heat conduction and level sets) unless dt_min says so, none is more than a tenth longer than the one before that was not cut short by an output, and none passes the end or the time of an output. "
     "An output is written at the start, at every multiple of graphics_time_step (for a level set: that long after the last output), every graphics_iteration_step steps, and at the end however the run ends; outputs for one reason neither delay nor repeat those for another. Each is listed with its time in the solver's .pvd file, and the file it names exists.",
     ["inputs", "histories"], "for every schedule, mesh and state",
     "No test runs a solver.", [M + "driver.cpp"] + [M + "Solvers/" + f for f in ("SGH_solver_3D/src/sgh_execute.cpp", "SGH_solver_3D/src/time_integration.cpp", "SGH_solver_rz/src/sgh_execute_rz.cpp", "SGH_solver_rz/src/time_integration_rz.cpp", "SGTM_solver_3D/src/sgtm_execute.cpp", "level_set_solver/src/level_set_execute.cpp")],
     [("times of the solvers", "Driver::setup_solver_vars in driver.cpp"), ("length of a step", "get_timestep of the solvers"), ("cycles and outputs", "execute of the solvers")],
     ["time, step and listed outputs after every step"], "A TLA+ specification of the cycle (RunLoop.tla) is model checked (never past the end, every due output written, no output without reason, progress, termination). " + RUN + "The length of each step, the outputs and the end are validated (TraceRunLoop).", hook=HOOK)

SGH = [M + "Solvers/SGH_solver_3D/src/" + f for f in ("boundary.cpp", "force_sgh.cpp", "momentum.cpp", "position.cpp", "energy_sgh.cpp", "properties.cpp", "sgh_execute.cpp", "sgh_setup.cpp")] + [M + "Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp"]
STEPS = "The equations of a step (Hydro.tla) are model checked in fixed-point arithmetic on small meshes. " + RUN + "Every step of them is validated against the equations (TraceHydro), within the rounding of the arithmetic."
prop("P21", "Boundary conditions on velocities and stresses hold",
     "After every step of a hydrodynamics solver, in 3D and 2D (RZ), the velocity of every node is the one the forces on it give, changed by the velocity conditions of this solver that hold its node, in their order: fixed (no velocity), reflected (none along the direction), constant (the given velocity), piston and time_varying (the speed of their law along the direction, the rest of the velocity kept, between their first and last time). "
     "Directions may be oblique and of any length. Stress conditions of this solver, and nothing else, add to the forces on the nodes of their faces a quarter each of the stress times the outward area of the face (at the beginning of the step), times the law of their time.",
     ["inputs", "histories"], "for every mesh, state, set of conditions and time", "No test applies a boundary condition.",
     [M + "boundary_conditions/velocity", M + "boundary_conditions/stress", M + "Solvers/SGH_solver_3D/src/boundary.cpp", M + "Solvers/SGH_solver_rz/src/boundary_rz.cpp"],
     [("conditions on velocities", "velocity() in boundary_conditions/velocity"), ("conditions on stress", "stress() in boundary_conditions/stress, boundary_stress")],
     ["velocities and nodal forces after every step"], STEPS, hook=HOOK)

prop("P22", "A step conserves mass, momentum and energy",
     "In every step of a hydrodynamics solver forces change velocities by force times step over mass, nodes move with the mean of their velocities before and after, and the internal energy of every material in every element changes by the work of its corner forces on these. "
     "The forces on a node are the sum of those of the corners around it, those of a corner the sum over the materials of the element, and the forces of a material in an element cancel; without dissipation they are its pressure times its share times the outward area of the corner, and dissipation never adds energy. "
     "So masses of materials and nodes stay (in 2D times the radius), and with conditions that only hold back, the total energy is constant to rounding; without conditions the momentum is.",
     ["inputs", "histories"], "for every mesh, state and material", "No test takes a step.", SGH,
     [("forces", "get_force of the solvers"), ("motion", "update_velocity, update_position, update_energy")], ["state before and after every step"], STEPS, hook=HOOK)

prop("P23", "The state of a material stays consistent",
     "After every step, the volume of an element is the exact volume its nodes span, the mass and volume fraction of a material in it have not changed, its density is its mass over its share of the volume, and pressure and sound speed follow from density and specific internal energy by its gamma-law equation of state.",
     ["inputs", "histories"], "for every mesh, state and material", "No test takes a step.",
     [M + "Solvers/SGH_solver_3D/src/properties.cpp", M + "Solvers/SGH_solver_rz/src/properties_rz.cpp", M + "material_models/eos/gamma_law_eos.hpp", M + "common/src/geometry_new.cpp"],
     [("state", "update_state of the solvers"), ("volumes", "get_vol in geometry_new.cpp")], ["state after every step"], STEPS, hook=HOOK)

prop("P24", "Heat flows as conduction, convection and fixed temperatures say",
     "In every step of the thermal solver, the heat that flows from an element to its corners is minus the conductivity of its materials (by their shares) times the temperature gradient (the mean over the element) times the outward area of the corner, and cancels over the element; a node gains what flows from its corners, and from the faces of convection conditions of this solver film coefficient times a quarter of the area times the difference to the reference temperature; "
     "its temperature rises by the heat gained in the step over its mass and specific heat (the mean of those of the elements around it), except where a constant temperature condition of this solver holds it. Masses stay.",
     ["inputs", "histories"], "for every mesh, state and material", "No test runs the thermal solver.",
     [M + "Solvers/SGTM_solver_3D/src/" + f for f in ("heat_flux.cpp", "temperature_sgtm.cpp", "boundary.cpp", "sgtm_execute.cpp")],
     [("conduction", "get_heat_flux"), ("temperatures", "update_temperature"), ("conditions", "boundary_temperature, boundary_convection")], ["state before and after every step"], STEPS, hook=HOOK)

prop("P25", "Output files say what the state is",
     "Every output of a run describes the state at its time. In the viz format the file of the mesh has the nodes (with z = 0 in 2D) as points and the elements as cells, exactly the asked fields, and for each of them the values of the state: those of nodes and elements themselves, and for materials that share an element the mean by volume fractions (masses are added, specific energies weighted by mass). "
     "If fields of materials are asked for, there is one file for every material that is anywhere on the mesh, and no other, with the elements that hold it and the values there. State files list centre, radii and state of every material in every element, and of every node; ensight files the points, elements and fields of elements with one material and of nodes. "
     "The acceleration of a node is its change of velocity in the last step over the step. The index of each solver (.pvd or .case) lists all outputs in order with their times, and every file listed exists.",
     ["inputs", "histories"], "for every mesh, number of materials, state and set of asked fields", "No test writes an output.",
     [M + "common/include/mesh_io.hpp", M + "common/src/region_fill.cpp"],
     [("fields of elements and nodes", "concatenate_elem_fields, concatenate_nodal_fields in mesh_io.hpp"), ("fields of materials", "concatenate_mat_fields, build_material_nodes_in_elem"), ("files", "write_vtu, write_vtm, write_pvd, write_ensight, write_material_point_state")],
     ["files in vtk, state and ensight after a run", "state after every step"], "What an output says of a state is specified in TLA+ (Output.tla) and model checked (means lie between the values, one file for every material that is anywhere). " + RUN + "Every file written is read back and validated against the state at its time (TraceOutput).", hook=HOOK)

prop("P26", "Solids resist, yield and break as their models say",
     "In every step, a hypo-elastic-plastic material adds to its stress the deviator of the strain rate times twice its shear modulus and the rotation of the stress (Jaumann), and the result is scaled back to its yield stress if it exceeds that (von Mises): so stress is always symmetric, without pressure (in 3D) and within yield, and materials without strength have none. "
     "The force of a material on a corner is the outward area of the corner times its pressure less its stress (in RZ also the hoop terms), by its share of the element; its work changes the internal energy, so energy is conserved. Pressure and sound speed of linear elastic solids, gases and voids follow their equations of state. "
     "Material whose pressure or density is at or below the limits of its erosion model, and no other, is gone for good: without pressure, stress, density and force, but with its mass, and the other materials of its elements keep their forces.",
     ["inputs", "histories"], "for every mesh, state and material", "No test runs a material model.",
     [M + "material_models/strength/decoupled_plasticity.hpp", M + "material_models/eos/elasticity.hpp", M + "material_models/erosion/basic_erosion.hpp"] + SGH[1:2] + [M + "Solvers/SGH_solver_rz/src/force_sgh_rz.cpp"] + SGH[5:6] + [M + "Solvers/SGH_solver_rz/src/properties_rz.cpp"],
     [("stress", "calc_stress, update_stress"), ("forces", "get_force of the solvers"), ("erosion", "erode in material_models/erosion, update_state")], ["state before and after every step"],
     STEPS.replace("on small meshes", "on small meshes, and a solid deformed at every sequence of rates from a small set (MCMatter)"), hook=HOOK)


prop("P27", "Level sets move as their fronts do",
     "In every step of the level set solver, the level set of an element whose material has a moving front changes by minus the step times the sum of front speed times slope and smoothed sign times (slope - 1), the slope being that of the nodes upwind of the front, "
     "weighted by how much of the front comes through their corners; with two stages, the first is half a step. The gradient of a node is the volume mean around it, the length over which the sign is smoothed is the element's own (wherever the element lies), and velocity conditions of the solver bend or stop the front at their nodes. "
     "All other elements keep their level set. So planes move at the speed of the front, and fields behave the same under reflection, translation and reversal.",
     ["inputs", "histories"], "for every mesh, level set, front speed and set of conditions", "No test runs the level set solver.",
     [M + "Solvers/level_set_solver/src/" + x for x in ("solver_functions.cpp", "level_set_boundary.cpp", "level_set_execute.cpp", "time_integration.cpp")],
     [("evolution", "nodal_gradient, update_level_set"), ("conditions", "boundary_velocity of the solver"), ("stages", "rk_init, execute")], ["state before and after every step"],
     STEPS.replace("on small meshes", "on a sheet of squares with walls (MCFront)"), hook=HOOK)


prop("P28", "Bodies in contact push each other apart and nothing else",
     "In every step of the 3D hydrodynamics solver with global contact, what nodes feel besides the forces of their elements is between the bodies: these forces add up to nothing and do not turn the whole, no body pulls another, nodes that touch nothing at the end of the step feel none, "
     "and a node over a face of another body does not pass through it in the step, whatever the axis, the faces' order and the way the bodies are shifted against each other. All else in the step (velocities, places, masses, energies, forces of elements) is as without contact.",
     ["inputs", "histories"], "for every pair of bodies, their meshes, materials, velocities and distance", "No test runs a solver.",
     [M + "Solvers/SGH_solver_3D/src/" + x for x in ("contact.cpp", "boundary.cpp", "momentum.cpp", "sgh_execute.cpp")] + [M + "Solvers/SGH_solver_3D/include/contact.hpp", M + "input/parse_bdy_conds_inputs.cpp"],
     [("detection", "sort, penetration_sweep"), ("forces", "force_resolution, frictionless_increment, distribute_frictionless_force, remove_pairs"), ("use", "boundary_contact_force, update_velocity")], ["state before and after every step"],
     STEPS.replace("on small meshes", "on two squares that meet (MCContact)"), hook=HOOK)

prop("P29", "Bonds between bodies pull and wear as their law says",
     "With the fracture condition, every pair of nodes of two bodies that lie in one place at the start is a bond, and there are no others: in every step of the 3D hydrodynamics solver, what nodes feel besides the forces of their elements is between such pairs, equal and opposite, along and across the common face in proportion to its area, "
     "and of the size that follows from how the bond has opened so far: effective opening, wear (which grows only while the bond opens further, and never beyond one), slackening parts with their relaxation times, and tractions by the increments the law states. A bond whose nodes share no common face does not pull. All else in the step is as without bonds.",
     ["inputs", "histories"], "for every pair of bodies, their meshes and velocities, and every law of up to two slackening parts", "No test runs a solver.",
     [M + "Solvers/SGH_solver_3D/src/" + x for x in ("fracture.cpp", "sgh_setup.cpp", "sgh_execute.cpp")] + [M + "Solvers/SGH_solver_3D/include/fracture.hpp", M + "boundary_conditions/stress/fracture_stress_bc.hpp", M + "input/parse_bdy_conds_inputs.cpp"],
     [("pairs and faces", "initialize, build_cohesive_zone_info, compute_face_geometry"), ("opening", "oriented, ucmap"), ("law", "cohesive_zone_var_update, commit_internal_vars"), ("forces", "cohesive_zone_loads, add_cohesive_zone_nodal_forces")], ["state before and after every step"],
     STEPS.replace("on small meshes", "on a bond opened and closed in every way (MCBond)"), hook=HOOK)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": p.get("hook")}}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
               "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P]
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
                   "hooks": {"guard": "FIERRO_VERIF_TRACE", "enable": "compile apps/multiphysics with -DFIERRO_VERIF_TRACE and define fierro_verif_trace (as drivers/run_driver.cpp does)", "source_commits": ["405aecc"]},
                   "checks": checks, "not_applicable": NA,
                   "notes": "One TLA+ specification per part of Fierro in specs/, bound to the code by drivers/ (see DESIGN.md)."}, f, indent=1)
    print(len(P), "properties")


NA = []
if __name__ == "__main__":
    main()
