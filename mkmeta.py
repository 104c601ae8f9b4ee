#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import subprocess
import sys

L = 'src/lib/pytornado/'
T = {}


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    T[pid] = {'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': [L + f for f in files],
                          'mechanism': [{'name': n, 'where': L + w} for n, w in mech],
                          **({'state': state} if state else {}),
                          **({'observe_at': observe} if observe else {}), 'hook_needed': None}}


prop('C01', 'The panel mesh tiles every wing segment exactly once, on both sides',
     'For every aircraft definition, the panels generated for a wing segment cover that segment (and, for a symmetric wing, '
     'its mirror image) completely, without gaps and without overlaps, and every panel corner lies on the segment surface. '
     'The panel bookkeeping assigns every panel index to exactly one wing, segment part and side, and the reported numbers of wings, '
     'control surfaces, strips and panels agree with the mesh.',
     ['inputs', 'configurations'],
     'All aircraft with up to 2 wings, 3 segments per wing, 4 symmetry settings, 8 planforms, panel counts 1..4 and up to 2 control surfaces '
     '(slat/flap, one or several segments, any declaration order).',
     'Tests run one or two fixed aircraft and look only at total coefficients; a hole or double-covered sliver in another combination goes unseen.',
     ['aero/vlm.py', 'aero/c_lattice.cpp', 'objects/aircraft.py', 'objects/vlm_struct.py', 'objects/objecttools.py'],
     [('mesh generation and bookkeeping', 'aero/vlm.py: pre_panelling, gen_lattice'), ('strip subdivision', 'objects/aircraft.py: WingSegment.add_subdivision'),
      ('panel corner computation', 'aero/c_lattice.cpp: vlm_lattice')],
     ['lattice panel corner array', 'panel bookkeeping entries', 'lattice info counters'])

prop('C02', 'Control surfaces occupy exactly their declared planform',
     'The panels attributed to a control surface cover exactly the area between its declared inner and outer edges and between its declared chordwise '
     'line and the trailing edge (flap) or leading edge (slat), on every segment it spans and on the mirrored side. '
     'Panels outside that area are never attributed to it, and the result does not depend on the order in which control surfaces are declared. '
     '(Division lines closer than 1 % of the segment span to an existing line may snap to it.)',
     ['inputs', 'configurations'],
     'All placements of 1 and 2 control surfaces on an eta/xsi grid over 1..3 segments, every declaration order, with uniform spanwise divisions on top.',
     'The tested aircraft have a few non-interacting flaps; overlapping spanwise divisions, several controls per segment and segment-crossing controls form a product space.',
     ['aero/vlm.py', 'objects/aircraft.py'],
     [('division of segments for controls', 'aero/vlm.py: pre_panelling'), ('subareas per control', 'objects/aircraft.py: WingSegment.add_subdivision_for_control'),
      ('inheritance on later division', 'objects/aircraft.py: WingSegment.add_subdivision')],
     ['panel corner array restricted to bookkeeping entries of a control'])

prop('C03', 'Vortex, collocation, normal and area data follow from the panel corners',
     'For every panel, the bound vortex lies on the quarter-chord line, the collocation point at mid-span of the three-quarter-chord line, the normal has unit length '
     'and is perpendicular to the panel there, and the trailing vortex legs start at the ends of the bound leg and run downstream parallel to the free stream. '
     'The panel area equals the true area of a flat panel, and the reported minimum, maximum and mean area and aspect ratio agree with the panels.',
     ['inputs', 'configurations'],
     'All aircraft of the mesh alphabet times all angle pairs from {-90,..,90} x {-90,..,90} on a coarse grid.',
     'Tests only compare coefficients of one aircraft at small angles with loose tolerances.',
     ['aero/c_lattice.cpp', 'aero/vlm.py', 'aero/c_vlm.cpp'],
     [('panel element computation', 'aero/c_lattice.cpp: vlm_lattice'), ('free-stream direction', 'aero/c_vlm.cpp: get_freestream_direction')],
     ['lattice arrays', 'lattice info statistics'])

prop('C04', 'A symmetric wing is meshed as the exact mirror image about its plane',
     'For a wing declared symmetric about the xy, xz or yz plane, the mirrored half of the mesh is the exact reflection of the defined half about that plane, panel by panel, '
     'with every panel belonging to the same segment and control surface as the panel it mirrors. '
     'Every mirrored panel again runs from its front edge to its rear edge and from left to right, so its bound vortex, collocation point and normal are those of a wing defined explicitly at that place. '
     'A deflection turns mirrored control-surface normals about the reflected hinge line; for xz symmetry, equal deflections and camber give mirror-symmetric normals.',
     ['configurations', 'inputs'],
     'Symmetry plane (3) x 8 planforms x control layouts x panel counts.',
     'The tests only contain xz-symmetric wings.',
     ['objects/aircraft.py', 'aero/vlm.py'],
     [('mirroring of vertices', 'objects/aircraft.py: mirror_vertices, order_mirrored_vertex_points'), ('mirrored subareas', 'objects/aircraft.py: StripSubdivision.abs_vertices')],
     ['lattice arrays of mirrored bookkeeping entries'])

prop('C05', 'Reflecting configuration and flow left-right reflects all loads',
     'If an aircraft and its flight state (side-slip angle, roll and yaw rate, left/right control deflections) are replaced by their mirror images about the xz plane, then the '
     'longitudinal force, lift, drag and pitching moment are unchanged and the side forces, rolling and yawing moments change sign. '
     'In particular a left-right symmetric aircraft in symmetric flow has zero side force, rolling moment and yawing moment.',
     ['inputs', 'configurations'],
     'All aircraft of the alphabet (symmetric and asymmetric, controls, camber, mixed deflections) x flight-state grid.',
     'Tests only contain beta=0 runs of symmetric aircraft and never compare a mirrored pair.',
     ['aero/vlm.py', 'aero/c_lattice.cpp', 'aero/c_boundary.cpp', 'aero/c_downwash.cpp', 'aero/c_results.cpp', 'objects/aircraft.py'],
     [('boundary condition', 'aero/c_boundary.cpp'), ('loads', 'aero/c_results.cpp'), ('mirrored mesh', 'objects/aircraft.py')],
     ['total forces, moments and coefficients'])

prop('C06', 'Deflections and camber tilt exactly the normals they should',
     'A control deflection rotates the normals of exactly the panels of that control about its hinge line by the given angle (positive: trailing edge down for a wing in the xy plane), '
     'using the mirrored-side deflection for panels on the mirrored side and leaving all other panels unchanged. '
     'Airfoil camber additionally rotates each panel normal about the spanwise axis by the camber-line slope of the locally interpolated airfoil at the panel\'s three-quarter-chord position; '
     'symmetric airfoils cause no rotation.',
     ['inputs', 'configurations'],
     'Control layouts x deflection grid (both sides independently) x hinge positions x airfoil pairs x symmetry.',
     'Tests check one flap deflection through total coefficients.',
     ['aero/vlm.py', 'objects/aircraft.py'],
     [('normal rotation', 'aero/vlm.py: gen_lattice'), ('hinge and camber axes', 'objects/aircraft.py: abs_hinge_axis, abs_camber_line_rot_axis')],
     ['lattice normals'])

prop('C07', 'The solved circulation satisfies flow tangency at every panel',
     'The influence matrix equals the Biot-Savart normal velocity of every horseshoe vortex at every collocation point (with the configured regularisation), the right-hand side is the normal '
     'component of the body velocity due to free stream and rotation about the centre of gravity, and the computed circulations make the total flow through every panel vanish. '
     'This holds for every lattice, angle, airspeed and rotation-rate combination.',
     ['inputs', 'configurations'],
     'Aircraft alphabet x (alpha, beta, airspeed, P, Q, R) grid x regularisation values.',
     'Tests compare only end coefficients to stored values for rotation-free states within a few per cent.',
     ['aero/c_downwash.cpp', 'aero/c_boundary.cpp', 'aero/vlm.py', 'aero/c_vlm.cpp'],
     [('influence matrix', 'aero/c_downwash.cpp'), ('boundary condition', 'aero/c_boundary.cpp'), ('linear solve', 'aero/vlm.py: solver')],
     ['influence matrix', 'right-hand side', 'circulation'])

prop('C08', 'Loads are consistent: Kutta-Joukowski, sums, moments, axes, coefficients',
     'Each panel force is the Kutta-Joukowski force of its bound leg in the local flow (free stream, induced velocity and rotation about the centre of gravity), totals are the sums over panels, '
     'moments are taken about the moment reference point, and drag/side force/lift are the same force vector in wind axes. '
     'Coefficients are these loads divided by dynamic pressure and reference area (and span for roll/yaw, chord for pitch), and the panel pressure coefficient is the normal force per dynamic pressure and panel area.',
     ['inputs', 'configurations'],
     'Aircraft alphabet x flight-state grid x reference-value sets (centre of gravity, reference point, area, chord, span varied independently).',
     'Stored coefficients of one aircraft cannot separate reference point from centre of gravity, span from chord, or sign errors in beta.',
     ['aero/c_results.cpp', 'aero/c_vlm.cpp', 'aero/vlm.py'],
     [('loads and coefficients', 'aero/c_results.cpp: vlm_results, vlm_coeffs'), ('data marshalling', 'aero/c_vlm.cpp')],
     ['panelwise results', 'total forces and coefficients'])

prop('C09', 'Results obey the scaling and invariance laws of potential flow',
     'Multiplying density by k multiplies forces and moments by k; multiplying airspeed and rotation rates by k multiplies them by k squared; in both cases all coefficients stay the same. '
     'Scaling the whole geometry (with reference values) leaves coefficients unchanged (to within the far-field truncation), translating aircraft and reference points together changes no result, and for fixed flow '
     'angles the circulation is linear in airspeed and rotation rates.',
     ['inputs', 'configurations'],
     'Aircraft alphabet x flight states x scale factors and translations, compared pairwise.',
     'Needs pairs of runs; tests contain none.',
     ['aero/c_results.cpp', 'aero/c_boundary.cpp', 'aero/c_downwash.cpp', 'aero/c_lattice.cpp', 'aero/vlm.py'],
     [('kernels', 'aero/c_results.cpp'), ('geometry', 'objects/aircraft.py')],
     ['total loads', 'circulation'])

prop('C10', 'Each flight state of a sequence is computed as if it were analysed alone',
     'In an analysis over a list of flight states, the results reported for each state (in memory, in its own result directory and in the aeroperformance map) equal those of a separate analysis of that state alone, '
     'whatever states precede or follow it, and appear at its own position in the list. '
     'Likewise an analysis gives the same results no matter which other analyses ran before it in the same process, also of the same project with input files edited in between, and what it returned does not change afterwards.',
     ['histories'],
     'All sequences of flight states up to length 3 (thorough 4) over an alphabet that differs in angles, rates, speed, density; all sequences of up to 3 analyses in one process over a set of projects, and of up to 3 analyses of one project edited in place.',
     'The tests run one sequence per process and compare with tolerances of a few per cent.',
     ['stdfun/run.py', 'aero/vlm.py', 'objects/state.py', 'fileio/native/results.py', 'objects/settings.py'],
     [('state loop', 'stdfun/run.py: standard_run'), ('state iteration', 'objects/state.py: FlightState.iter_states')],
     ['aeroperformance map', 'per-state result files'])

prop('C11', 'Only well-defined flight states are accepted, and they are converted right',
     'A flight state is accepted exactly when it gives one of the three allowed pairs (airspeed and density, airspeed and altitude, Mach number and altitude), all lists have the same length, and both flow angles lie '
     'within -90 to 90 degrees; every other input is refused with an error. '
     'For accepted input, missing density and airspeed follow from the standard atmosphere entry by entry, given values are used unchanged, and the free-stream velocity has the given speed and direction.',
     ['inputs'],
     'All subsets of the four speed/atmosphere parameters x scalar/list/null forms x list lengths x angle grid including just-outside values.',
     'Tests use two valid combinations and no invalid one.',
     ['objects/state.py', 'fileio/native/state.py'],
     [('acceptance and conversion', 'objects/state.py: FlightState.update_from_dict'), ('angle check', 'objects/state.py: FlightState.check_values')],
     ['flight-state object', 'raised errors'])

prop('C12', 'Saving and re-loading aircraft and flight-state files loses nothing',
     'Writing an aircraft model or a flight state to its project file and reading it back gives a model that describes the same aircraft or the same flight conditions, produces the same mesh and the same results, and writes the same file again. '
     'This holds for every valid definition, including optional entries left out.',
     ['inputs', 'histories'],
     'Aircraft alphabet (symmetry, panels given or left open, controls, airfoil files and NACA names, mirrored deflection given or not) and all valid flight-state forms; repeated save/load cycles.',
     'No test saves an aircraft and loads it again.',
     ['fileio/native/aircraft.py', 'fileio/native/state.py', 'fileio/utils.py', 'objects/aircraft.py', 'objects/state.py'],
     [('aircraft file', 'fileio/native/aircraft.py: load, save'), ('state file', 'fileio/native/state.py: load, save')],
     ['files on disk', 'generated lattice'])

prop('C13', 'Settings: defaults, validation, isolation between instances, lossless saving',
     'Every setting left out takes its documented default, every given value is used as given, and a value of the wrong type is refused (the deformation entry may be a file name or empty). '
     'Changing one settings object never changes another one, and saving settings to file changes neither the settings object in use nor, when loaded again, any visible setting.',
     ['inputs', 'histories'],
     'All settings dictionaries with up to 2 (thorough 3) departures from the default, and all operation sequences (create, update, mutate, save, load) up to depth 4 on two instances.',
     'Tests load three fixed settings files.',
     ['objects/settings.py', 'objects/utils.py', 'fileio/native/settings.py'],
     [('defaults and checks', 'objects/utils.py: get_default_dict, check_dict'), ('persistence', 'fileio/native/settings.py: load, save')],
     ['settings dictionary', 'settings file'])

prop('C14', 'Ill-defined aircraft definitions are refused, well-defined ones accepted',
     'An aircraft definition with a missing or out-of-range required value - reference values, duplicate or empty identifiers of wings, segments and controls, incomplete vertices, relative control coordinates outside 0..1, '
     'missing or out-of-range deflection, unknown device type, controls on unknown segments, inverted control edges, non-positive panel counts, unknown airfoil, invalid symmetry, overlapping control surfaces - is refused with an error before any result is produced. '
     'A definition without such a defect is accepted.',
     ['inputs'],
     'The valid baseline definitions with every single defect (thorough: every pair) from a catalogue applied at every place it can occur.',
     'No test feeds an invalid aircraft definition.',
     ['objects/aircraft.py', 'fileio/native/aircraft.py', 'aero/vlm.py'],
     [('schemas and checks', 'objects/aircraft.py'), ('file loader', 'fileio/native/aircraft.py')],
     ['raised errors'])

prop('C15', 'Project commands never damage input files and only create what they should',
     'Over any sequence of the command-line actions (create example project, run analysis, run with cleaning, clean only, list examples), input files of a project are never changed or removed, '
     'cleaning removes exactly the result and plot directories of that project, an existing project directory is never overwritten by the example template, and a run recreates its results completely. '
     'A command that is refused (contradictory options, missing settings file, existing example project) leaves the directory as it was; a run that fails on bad input leaves inputs as they are and no results.',
     ['histories'],
     'Explicit-state search over all command sequences up to depth 4 (thorough 5) from an empty directory, from a project with foreign files, and from a project with old results.',
     'The CLI tests run a single command in a fresh directory.',
     ['stdfun/setup.py', 'stdfun/run.py', 'objects/settings.py', 'database/tools.py'],
     [('command dispatch', '../../bin/_pytornado_exe.py'), ('template creation', 'stdfun/setup.py'), ('cleaning', 'objects/settings.py: Settings.clean')],
     ['directory tree contents'])

prop('C16', 'Result files are written exactly when requested and hold the computed results',
     'Each result file (global loads, panelwise data, equation system, aeroperformance map) exists after a run exactly when its option is switched on, for every flight state, and its contents equal the computed results '
     'at the printed precision with labels, order and reference values matching. '
     'Plots are written exactly when saving them is requested. '
     'Switching saving or plotting options on or off never changes the computed results.',
     ['configurations'],
     'All 16 combinations of save options x projects x number of states, and all plot-option combinations with one departure.',
     'Tests check existence of files in one configuration.',
     ['fileio/native/results.py', 'stdfun/run.py', 'plot/makeplots.py', 'objects/settings.py'],
     [('result writers', 'fileio/native/results.py'), ('run loop', 'stdfun/run.py: standard_run')],
     ['files on disk', 'returned results'])

prop('C17', 'A deformation field moves exactly the wing side it is declared for',
     'The leading- and trailing-edge points of every strip of a wing side with a deformation field are the undeformed points of that side displaced by the field interpolated at those points, the panels divide the displaced strip '
     'as they divide the undeformed one, and sides and wings without a field keep their undeformed mesh. '
     'A field that is zero everywhere gives the undeformed mesh, a rigid translation moves every panel of that side by that vector, and generating the mesh again gives the same mesh. '
     'In the file, names ending in the mirror suffix address the mirrored side of the wing with the remaining name, and names starting with an underscore are ignored.',
     ['inputs', 'configurations'],
     'Wing names (including names that contain the suffix elsewhere) x symmetry x which sides get a field x field shapes (with displacement and rotation) x planforms and controls.',
     'Tests do not load a deformation file at all.',
     ['fileio/native/deformation.py', 'objects/aircraft.py', 'aero/vlm.py'],
     [('deformation file', 'fileio/native/deformation.py: load'), ('deformed points', 'objects/aircraft.py: WingSegment.get_deformed_segment_point')],
     ['lattice panel corners', 'panel normals'])

prop('C18', 'The command line performs exactly the requested action',
     'For every combination of command-line options the tool either performs exactly the action asked for (run, example creation, example listing, conversion, cleaning; verbosity flags never change results) and exits with status 0, '
     'or refuses contradictory, unknown or incomplete options with a non-zero status and without running anything or touching files.',
     ['inputs'],
     'All subsets of the command-line options up to size 3 with valid and invalid operands.',
     'Tests call the executable with three option sets.',
     ['stdfun/run.py', 'stdfun/setup.py'],
     [('argument parsing', '../../bin/_pytornado_exe.py')],
     ['exit status', 'directory tree'])

prop('C19', 'Segments can be defined by any documented mix of corner points and dimensions',
     'Defining a segment by all four corner points, by one corner point and all dimensions, by the inner edge and the outer dimensions, or by the outer edge and the inner dimensions gives the same segment whenever the numbers describe the same shape, '
     'and the dimensions derived from four corner points (chords, incidence, span, sweep, dihedral) reproduce those corner points (chords and span positive, angles below 90 degrees). '
     'Any other partial definition is refused.',
     ['inputs'],
     'Grid over chords, incidence, span, sweep, dihedral (zero included) and reference corner x all 16 subsets of given corner points x subsets of given dimensions.',
     'Tests only define segments by four points.',
     ['objects/aircraft.py'],
     [('segment generation', 'objects/aircraft.py: WingSegment.generate')],
     ['segment vertices and geometry', 'raised errors'])

prop('C20', 'CPACS input is mapped completely and results return to the same map entries',
     'Wings, segments (given from either edge), leading- and trailing-edge devices, their deflections, airfoils and reference values read from a CPACS model give the aircraft the CPACS data describe, the flight states are the entries of the referenced aeroperformance map, '
     'and the coefficients written back have one value per map entry in the same order (drag, side force, lift and moment coefficients each under its own name); '
     'the CPACS document stays as it was if writing back fails. '
     'Converting a CPACS project to native files and running those gives the same results as running the CPACS project directly.',
     ['inputs', 'configurations'],
     'Models with up to 2 wings, 3 segments (any connection order), leading/trailing-edge devices, map lengths 1..3, run against an in-memory stand-in of the CPACS libraries.',
     'The CPACS libraries are not installed, so the CPACS tests are skipped.',
     ['fileio/cpacs/aircraft.py', 'fileio/cpacs/state.py', 'fileio/cpacs/results.py', 'fileio/cpacs/utils.py', 'stdfun/setup.py'],
     [('aircraft import', 'fileio/cpacs/aircraft.py'), ('state import', 'fileio/cpacs/state.py'), ('result export', 'fileio/cpacs/results.py')],
     ['aircraft and state objects', 'written CPACS nodes'])

prop('C21', 'Panel counts are honoured when given, derived by the documented rule otherwise',
     'A segment without control surfaces has exactly the given numbers of chordwise and spanwise panels per side, and a control surface has exactly its given number of chordwise panels on every strip it occupies. '
     'Where counts are left open, the global chordwise setting and the global spanwise setting in proportion to the segment\'s share of the wing span (rounded up) are used, and explicitly given counts are never overridden.',
     ['inputs', 'configurations'],
     'Given/open for each count x global settings 1..7 x segment span shares x controls.',
     'Tests use one setting and never inspect the mesh.',
     ['aero/vlm.py', 'objects/aircraft.py'],
     [('automatic panel counts', 'aero/vlm.py: set_autopanels'), ('strip layout', 'aero/vlm.py: pre_panelling, gen_lattice')],
     ['numbers of panels per segment and control'])

prop('C22', 'A failing file operation is reported and never damages input files',
     'If any single file-system operation of a run (opening, reading, writing or creating a file or directory, other than writing the log) fails, the run ends with an error instead of reporting success. '
     'Whether an operation fails or the process dies at any point, no input file of the project (aircraft, state, settings, airfoils, deformation) is changed, '
     'and repeating the run gives the same results and files as an undisturbed run.',
     ['fault_sequences', 'crash_points'],
     'Every position of a single injected failure in the sequence of file operations of a run (and every write position of each output file), followed by a fault-free rerun.',
     'Tests never inject failures.',
     ['fileio/native/results.py', 'fileio/native/settings.py', 'stdfun/run.py', 'objects/settings.py'],
     [('file writers', 'fileio/native/results.py'), ('path handling', 'objects/settings.py')],
     ['directory tree', 'raised errors'])

prop('C23', 'The numerical kernels stay inside their arrays and leave inputs unchanged',
     'For every lattice size and shape, the compiled kernels write only to the result arrays they are given and read only initialised memory within their input arrays; '
     'the aircraft definition, flight state, reference values and already computed inputs (mesh, matrix, right-hand side) are unchanged afterwards, and the same call repeated gives bit-identical results.',
     ['inputs', 'configurations'],
     'All lattices with 1..12 panels from the mesh alphabet x calls in pipeline order and repeated, with guard zones around every buffer and under an address sanitizer.',
     'Out-of-bounds access by one element does not change coefficients.',
     ['aero/c_vlm.cpp', 'aero/c_lattice.cpp', 'aero/c_downwash.cpp', 'aero/c_boundary.cpp', 'aero/c_results.cpp', 'aero/vlm.py'],
     [('array handling', 'aero/c_vlm.cpp')],
     ['array contents around and inside buffers'])

prop('C24', 'Equivalent descriptions of the same aircraft give the same results',
     'Re-ordering wings or control surfaces, writing a symmetric wing as two explicit halves, or splitting an aircraft\'s segment into two segments along an existing panel line changes no force, moment or coefficient. '
     'Renaming components or permuting result-neutral entries changes nothing either.',
     ['inputs', 'configurations'],
     'Aircraft alphabet x all permutations and splits x flight-state grid, compared pairwise.',
     'Needs pairs of equivalent inputs; tests contain none.',
     ['aero/vlm.py', 'objects/aircraft.py', 'aero/c_lattice.cpp'],
     [('mesh generation', 'aero/vlm.py'), ('subdivision', 'objects/aircraft.py')],
     ['total loads'])

prop('C25', 'Damaged or missing input files are refused before anything is written',
     'If any input file of a project (settings, aircraft, flight state, airfoil, deformation) is missing, unreadable, truncated at any byte, not valid JSON or valid JSON with unusable content, the command ends with a failure status '
     'and an error message, and no result, plot or input file is created or changed.',
     ['inputs', 'crash_points'],
     'Every file x every damage (missing, directory, dangling link, empty, cut at every byte, every structural character dropped, foreign contents), every ill-defined entry of aircraft, state, settings and deformation files, and pairs of them.',
     'Tests read only sound files; a truncated file may also still parse, and each byte position is a different case.',
     ['fileio/native/aircraft.py', 'fileio/native/state.py', 'fileio/native/settings.py', 'fileio/native/deformation.py', 'objects/aircraft.py', 'stdfun/run.py'],
     [('reading inputs', 'fileio/native/aircraft.py'), ('run', 'stdfun/run.py')],
     ['exit status', 'directory tree'])

prop('C26', 'The plots show the analysed geometry, mesh and results',
     'Each plot asked for is made once per flight state and shows, in every view, the outlines of all wings and their mirror images, the control surfaces and hinge lines, the panels of the mesh, the centre of gravity and the influence matrix as they were analysed; '
     'result plots colour each panel by the value of the chosen quantity in the result files, with a matching colour bar, labels, flow direction and airspeed, and all views have equal scales on all axes.',
     ['inputs', 'configurations'],
     'Configurations x plotted quantities x flight states within a departure bound; the artists of every figure compared with the geometry, mesh and result files.',
     'Tests do not look at the figures; a wrong axis, mirror image, colour or quantity goes unnoticed.',
     ['plot/makeplots.py', 'plot/plottools.py', 'stdfun/run.py'],
     [('plots', 'plot/makeplots.py'), ('drawing', 'plot/plottools.py')],
     ['figures'])

prop('C27', 'Example projects are complete, faithful to the database and ready to run',
     'The project created from the template or from any aircraft of the database, named plainly or by a file name, consists of an aircraft, a settings and a state file that belong together; the aircraft file says the same as the database aircraft, '
     'settings and state hold the documented start values, and the project can be run as it is and after the usual changes by the user, with the same results as a project built around the database file itself. '
     'The list of the database names every aircraft with its comment; a name that is not in the list is refused.',
     ['inputs', 'configurations'],
     'All database aircraft (shipped and added) and the template x spellings of the name x changes of flight state, settings and aircraft within a departure bound.',
     'Tests create the template and one example and do not look at what they contain.',
     ['stdfun/setup.py', 'database/tools.py', 'fileio/native/aircraft.py', 'fileio/native/settings.py', 'fileio/native/state.py'],
     [('creation of projects', 'stdfun/setup.py: setup_wkdir'), ('database access', 'database/tools.py')],
     ['created project files', 'result files', 'listing'])

prop('C28', 'A project gives the same results wherever it lies and is run from',
     'The results of a project depend on its input files only: not on the name or place of the project directory, the name of the settings file, the directory the command is started in, the way the settings path is written '
     '(relative, absolute, with dots or links), or on other files and projects around it. Relative airfoil paths refer to the project directory. Results, plots and the log appear in that project only, and nothing else is created, changed or removed.',
     ['inputs', 'configurations'],
     'Placements x working directories x path spellings x airfoil references x surroundings x commands within a departure bound.',
     'Tests run one project by one path; hidden dependence on the current directory or on names shows only when the project is moved or run from elsewhere.',
     ['fileio/native/settings.py', 'objects/settings.py', 'fileio/native/aircraft.py', 'objects/aircraft.py', 'stdfun/run.py', '_pytornado_exe.py'],
     [('finding the project directory', 'fileio/native/settings.py: load'), ('paths of the project', 'objects/settings.py: generate_paths'), ('airfoil references', 'fileio/native/aircraft.py: load')],
     ['directory trees', 'result files'])

prop('C29', 'Analyses running at the same time do not disturb each other',
     'Two analyses that run at the same time - two commands in one project (with different settings files or the same one), one of which may fail, or two threads of one Python process analysing different projects or different settings of one project - '
     'give the results each of them gives alone, in every interleaving: both succeed, return and save the same numbers under the same names, and leave the input files untouched. Commands that clean the project are excluded, and so is the text of the log file.',
     ['schedules'],
     'All schedules with one preemption at any executed line of the package or file operation, and all with two (thorough: three) preemptions at calls of the run function and file operations.',
     'Tests run one analysis at a time; shared directories, temporary names and module-level data fail only in particular interleavings.',
     ['stdfun/run.py', 'objects/settings.py', 'objects/vlm_struct.py', 'fileio/native/results.py', 'aero/vlm.py'],
     [('state of an analysis', 'objects/vlm_struct.py'), ('directories', 'objects/settings.py: generate_paths'), ('result files', 'fileio/native/results.py')],
     ['result files', 'returned results', 'directory trees'])

# pid -> (technique, level, level_note)
C = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.py')).read())


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as fp:
        for p in sorted(T):
            fp.write(json.dumps(T[p]) + '\n')
    checks = []
    for pid in sorted(C):
        tech, level, note = C[pid]
        checks.append({'property': pid, 'quick_cmd': f'./check {pid} --tier quick', 'thorough_cmd': f'./check {pid} --tier thorough',
                       'evidence_file': f'evidence/{pid}.json', 'technique': tech, 'level': level, 'level_note': note})
    na = [{'property': p, 'reason': NA.get(p, 'no check registered yet')} for p in sorted(T) if p not in C]
    m = {'version': 1, 'setup_cmd': './setup.sh',
         'hooks': {'guard': 'none', 'enable': 'no hooks: checks stage and compile a scratch copy of /repo/src/lib and observe public objects', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'Every check stages /repo/src/lib/pytornado into a scratch directory and compiles the C++ extension there from the current sources.'}
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as fp:
        json.dump(m, fp, indent=1)
        fp.write('\n')


main()
