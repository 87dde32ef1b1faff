import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); P.append(d)
L='libvvhd/src/'; H='libvvhd/headers/'; U='utils/'

p("C01","Saving and loading a problem preserves all of it, whatever was loaded before",
 "Saving a problem (flow parameters, times, expressions, all element lists, all bodies with every attribute, their order and root links) and loading the file gives back exactly the same problem, bit for bit, under any file name and into an object with any earlier content, nothing of which survives. Saving changes nothing in memory. A problem with an invalid body (infinite damping, negative stiffness, inverted collision limits) is refused with an error and an existing file is left intact.",
 ["inputs","histories"],"all problems with at most two attributes away from the default, every attribute; all sequences of loads into one object; list and body sizes across storage-chunk and digit boundaries; all file name lengths",
 "Tests save and load a couple of fixed problems; which attribute, size, receiving history or name breaks is a question over all of them.",
 [L+"TSpace.cpp",L+"TSpace_save_hdf.cpp",L+"TSpace_load_hdf.cpp",L+"vvhdf.cpp"],
 [("attribute and dataset writers","libvvhd/src/TSpace_save_hdf.cpp"),("readers, body order and root resolution","libvvhd/src/TSpace_load_hdf.cpp"),("clearing before load, naming","libvvhd/src/TSpace.cpp"),("validation","libvvhd/src/TBody.cpp TBody::validate")],["HDF5 files","S:save, S:load"])
p("C02","Times are exact fractions and periods fire exactly on their multiples",
 "A decimal time is stored as exactly that decimal, adding time steps is exact (a sum that no 32-bit fraction can hold is an error), and a time is judged a multiple of a period exactly when it is one. So after any number of steps the current time is start + n*dt without drift.",
 ["inputs","histories"],"all decimals up to seven fractional digits that fit, all pairs of fractions with denominators up to the bound, histories of thousands of steps",
 "Tests try a handful of literals; 0.29 was wrong while 0.33 was right.",
 [H+"TTime.hpp",U+"vvflow/getset.cpp"],[("decimal to fraction, sum, divisibility","libvvhd/headers/TTime.hpp")],["S.time, S.dt, snapshot times"])
p("C03","A time expression yields its own value at every time, in any history or thread",
 "Evaluating an expression at a time gives the value its current text denotes at that time, whatever was assigned, copied or evaluated before, on this or other expressions, and however many threads evaluate concurrently. A text that is not a valid expression is refused with an error and the previous one stays in force; an evaluation that fails raises an error and later evaluations are unaffected.",
 ["histories","schedules"],"all operation sequences on two expression objects up to the bound; all interleavings of two or three evaluating threads up to a preemption bound",
 "Tests evaluate a fresh expression once; value caching and the shared interpreter only go wrong in particular sequences or interleavings.",
 [L+"TEval.cpp",U+"vvflow/lua_teval.cpp"],[("two-entry cache and critical section","libvvhd/src/TEval.cpp TEval::eval"),("trial evaluation on assignment","libvvhd/src/TEval.cpp operator=")],["S.inf_vx:eval, simulated flow"])
p("C04","The step record holds exactly the simulated steps across interruptions",
 "After any history of runs, interruptions and restarts of a problem, its step record has one row per simulated step in time order, without gaps or duplicates, every series has the same number of rows, and each row has the time and body values of that step. Restarting from an earlier time replaces exactly the rows from that time on; a different problem's steps already recorded before that time stay.",
 ["histories","crash_points"],"all sequences of runs with varying start, length, profile option and bodies up to the bound",
 "Tests run a simulation once from the start; truncation and appending only matter in restart histories.",
 [L+"MStepdata.cpp",U+"vvflow/vvflow.cpp"],[("rows kept on reopening, truncation","libvvhd/src/MStepdata.cpp constructor, h5d_init"),("append","libvvhd/src/MStepdata.cpp append, write")],["stepdata_<caption>.h5"])
p("C05","The neighbour search tree covers every element exactly once",
 "For any arrangement of vortices, heat particles, streak particles and body segments, every element belongs to exactly one cell, no element is lost, added or altered by building the tree, and every cell's bounds contain its elements. For each cell, its near cells plus its far aggregates account for every other cell exactly once, and aggregates have the exact total and centre of the circulation of each sign. Looking up a point finds the cell of that part of the plane.",
 ["inputs"],"all small multisets of points on a grid, many coincident or collinear, in all combinations of kinds, and sizes around the splitting limits",
 "Tests never look at the tree; degenerate arrangements (coincident, collinear, empty kinds, exact limits) are what breaks it.",
 [L+"TSortedTree.cpp",H+"TSortedTree.hpp"],[("splitting and distribution","libvvhd/src/TSortedTree.cpp DivideNode, DistributeContent"),("near/far classification","libvvhd/src/TSortedTree.cpp FindNearNodes"),("aggregates","libvvhd/src/TSortedTree.cpp CalculateCMass")],["velocities of elements"])
p("C06","Computed velocities equal the direct sum over everything in the flow",
 "The velocity obtained at any point, and that given to every vortex, heat and streak particle in a step, equals the undisturbed flow plus the contributions of all vortices, all sinks and sources, and all moving body surfaces, each exactly once; the far-field acceleration changes it only within its truncation error. Adding the contribution of one element changes the result by exactly that element's contribution.",
 ["inputs"],"all small configurations of vortices, sinks, markers, moving bodies and freestream from a finite alphabet, and larger deterministic clouds that force every near/far pattern",
 "Tests compare a few reference pictures; a term missing for one kind of element or one geometric pattern goes unnoticed.",
 [L+"MConvectiveFast.cpp",L+"TSortedTree.cpp"],[("near, far, sink, body influence","libvvhd/src/MConvectiveFast.cpp velocity, process_all_lists")],["sensor output, element motion, velocity fields"])
p("C07","Merging conserves circulation and changes nothing else",
 "The step that sets vortex core sizes and merges close vortices keeps the total circulation, and the centre of circulation when the pair has one sign, never touches other elements, and only removes vortices by merging. With merging off (inviscid flow) positions and circulations are untouched. Every vortex gets a finite positive core size: the distance to its second nearest neighbour (to the only one, if there is one), but no less than a third of the nearest wall segment. The same holds for heat particles and their heat.",
 ["inputs"],"all small configurations of vortices of either sign near and away from body walls",
 "Tests compare pictures of long runs; a loss of circulation in one pattern is invisible there.",
 [L+"MEpsilonFast.cpp"],[("merging","libvvhd/src/MEpsilonFast.cpp MergeVortexes, CalcEpsilonFast"),("core size","libvvhd/src/MEpsilonFast.cpp epsv")],["vortex list after a step"])
p("C08","Circulation is conserved by shedding, motion and absorption",
 "Over any step, the circulation in the flow plus the circulation accounted to bodies is constant: what a surface sheds appears in the flow, and what enters a body leaves the flow and is credited to that body and its nearest segment with its impulse. After a step no free vortex and no marker is inside a body, vortices weaker than the threshold are gone, and all others have moved by exactly velocity times step.",
 ["inputs","histories"],"all small configurations of vortices, markers and bodies (one or two, either orientation, slip or not), all positions on a grid, and sequences of steps",
 "Tests compare pictures; removal in a loop over a changing list goes wrong only for particular neighbours in it.",
 [L+"MFlowmove.cpp",L+"TBody.cpp"],[("motion and removal","libvvhd/src/MFlowmove.cpp move_and_clean"),("shedding","libvvhd/src/MFlowmove.cpp vortex_shed, streak_shed")],["vortex list, body force accounts"])
p("C09","Being inside a body is decided correctly for every shape, point and history",
 "A point is judged to be in the body exactly when it is on the solid side of the closed contour (inside of a clockwise contour; outside of a counter-clockwise one, which bounds the fluid), and the segment reported is the nearest one. The answer is right after any sequence of moves, rotations, copies and assignments of the body, for the wall as well as for the thermal layer.",
 ["inputs","histories"],"all small lattice polygons in both orientations with all half-lattice points; all short sequences of moves and copies",
 "Tests use one convex body; concave shapes, vertices level with the point, clockwise contours and stale bounding boxes need enumeration.",
 [L+"TBody.cpp"],[("crossing test and bounding shortcuts","libvvhd/src/TBody.cpp isPointInContour"),("cached extents","libvvhd/src/TBody.cpp doFillProperties")],["vortex removal, field gaps"])
p("C10","A body's derived geometry always matches its contour",
 "Length, area, centre of mass, moments of inertia, axis and segment vectors of a body equal those of its current contour after any sequence of moves, rotations, copies, assignments, reloads and slip changes. Rotation turns about the axis and keeps the shape; holder, deflection and contour stay consistent.",
 ["histories","inputs"],"all sequences of body operations up to the bound on all small shapes",
 "Tests check a fresh body; caches go stale only in histories.",
 [L+"TBody.cpp",U+"vvflow/lua_tbody.cpp"],[("property recomputation","libvvhd/src/TBody.cpp move, doUpdateSegments, doFillProperties"),("Lua methods","utils/vvflow/lua_tbody.cpp")],["get_area, get_cofm, get_moi_*, get_slen, get_axis, totable"])
p("C11","Generators produce the described body or a clear error",
 "For every combination of parameters a generator either raises an error naming the wrong, missing or extra parameter, or returns a closed, simple contour with the documented dimensions, position, orientation, segment count or length and slip zones. It does not change its argument's meaning on repeated use.",
 ["inputs","configurations"],"all combinations of parameter presence, type and sign for all eight generators; all N in a range and grids of dimensions",
 "Tests check a few parameter sets.",
 [U+"vvflow/gen_body.cpp",U+"vvflow/gen_cylinder.cpp",U+"vvflow/gen_ellipse.cpp",U+"vvflow/gen_plate.cpp",U+"vvflow/gen_parallelogram.cpp",U+"vvflow/gen_savonius.cpp",U+"vvflow/gen_gis.cpp",U+"vvflow/gen_box.cpp"],[("parameter handling","utils/vvflow/gen_body.cpp"),("contours","utils/vvflow/gen_*.cpp")],["gen_* in scripts"])
p("C12","Script lists behave as lists under every sequence of operations",
 "The body list and the element lists behave like ordinary sequences under every sequence of insert, erase, append, load, clear, index, iterate and length operations, including wrong arguments: contents and order are those of a plain list, a failed operation raises an error and changes nothing, and no operation corrupts memory.",
 ["histories"],"all operation sequences up to the bound over two bodies / three element forms",
 "Tests call each method a few times in one order.",
 [U+"vvflow/lua_bodylist.cpp",U+"vvflow/lua_objlist.cpp",U+"vvflow/lua_tobj.cpp"],[("list methods","utils/vvflow/lua_bodylist.cpp, lua_objlist.cpp")],["S.body_list, S.vort_list, ..."])
p("C13","Every script property accepts exactly its type, and a refusal changes nothing",
 "Assigning any kind of value to any property of the space, a body, a vector or an element either stores exactly that value, as reading it back shows, or raises an error that a script can catch and leaves every property unchanged. No assignment aborts the program or affects another property.",
 ["inputs","histories"],"every property crossed with every kind of value; all ordered pairs of assignments to related properties",
 "Tests try some combinations; the table is large.",
 [U+"vvflow/getset.cpp",U+"vvflow/lua_space.cpp",U+"vvflow/lua_tbody.cpp",U+"vvflow/lua_tvec.cpp",U+"vvflow/lua_tvec3d.cpp",U+"vvflow/lua_tobj.cpp",U+"vvflow/lua_teval.cpp"],[("setters and member tables","utils/vvflow/getset.cpp and lua_*.cpp")],["script assignments"])
p("C14","Isolines are exactly the level sets of the field",
 "For every field and every set of levels, the drawn polylines consist of exactly the level-crossing segments of the field cells, each once: none lost, invented or duplicated by joining pieces into lines, and consecutive points of a line are joined by such a segment.",
 ["inputs"],"all fields on small grids over a small value alphabet with generic levels, including fields with gaps",
 "Tests compare one picture; joining lines at both ends, closing loops and saddles depend on the pattern.",
 [L+"XIsoline.cpp"],[("cell contours","libvvhd/src/XIsoline.cpp process_rect"),("joining","libvvhd/src/XIsoline.cpp commit_segment, merge_lines")],["vvplot -i output, isoline text"])
p("C15","Computed fields hold the right value in every cell and survive storage",
 "Velocity, vorticity, streamfunction and pressure fields contain in every cell the value their definition gives at that point of that flow, independent of how large a region is asked for, and zero or gap inside bodies as documented. Writing a field and reading it back gives the same field, and its extremes and percentiles are those of its values.",
 ["inputs"],"all small flow configurations on small grids, all sub-rectangles; all small value arrays for statistics and storage",
 "Tests compare averaged pictures.",
 [L+"XField.cpp",L+"XVelocity.cpp",L+"XVorticity.cpp",L+"XStreamfunction.cpp",L+"XPressure.cpp"],[("evaluation loops","libvvhd/src/X*.cpp evaluate"),("storage and statistics","libvvhd/src/XField.cpp")],["vvplot output, XStreamfunction()"])
p("C16","The extraction tool prints exactly what the file holds",
 "For every snapshot and step record, the extraction tool's listing, information and table output show exactly the datasets, attributes and values in the file, all rows and columns in order, for every selection of columns. A wrong name or file gives an error and a non-zero exit status.",
 ["inputs","configurations"],"all datasets of files with all small list sizes and body counts, all column selections up to the bound, all wrong names",
 "Tests extract a few columns from two files.",
 [U+"vvxtract/vvxtract.cpp",U+"vvxtract/optparse.cpp"],[("listing, info, table","utils/vvxtract/vvxtract.cpp")],["vvxtract stdout, exit status"])
p("C17","Plots are drawn from the requested region and packed plots reproduce themselves",
 "For every combination of frame size, region and field options the plot covers exactly the requested region with square cells and both field and elements are placed at their true coordinates. A plot package contains every data item its script refers to, and executing the package gives the same script and data as plotting directly.",
 ["configurations","inputs"],"all combinations of the option alphabet; all sets of packed items of boundary sizes",
 "Tests draw a few fixed pictures.",
 [U+"vvplot/vvplot.cpp",U+"vvplot/optparse.cpp",U+"vvplot/gnuplotter.cpp"],[("geometry of the frame","utils/vvplot/optparse.cpp, vvplot.cpp"),("packing","utils/vvplot/gnuplotter.cpp")],["the gnuplot script and data"])
p("C18","The column scripts compute the statistics they document",
 "For every input file and option, the averaging, deviation, moving average, derivative, zero-crossing and amplitude scripts print what their definitions give for the selected columns and range, ignoring comment lines.",
 ["inputs","configurations"],"all short two-column files over a small alphabet, all option combinations",
 "There are no tests of these scripts.",
 [U+"scripts/vvawk.avg",U+"scripts/vvawk.sd",U+"scripts/vvawk.mavg",U+"scripts/vvawk.drv",U+"scripts/vvawk.zeros",U+"scripts/vvawk.ampl"],[("scripts","utils/scripts/vvawk.*")],["their stdout"])
p("C19","Resuming from any snapshot reproduces the uninterrupted run",
 "A run resumed from any of its snapshots, in a new process or the same, continues to the same flow, body motion, snapshots and step record as the run that was never interrupted, within rounding. It makes no difference whether the problem is simulated directly by the script or saved, loaded and then simulated.",
 ["crash_points","histories"],"every snapshot of every problem in a set covering all body kinds (fixed, moving, elastic, colliding, rooted, slip) as resume point, with and without profile",
 "Tests run once from the start.",
 [U+"vvflow/vvflow.cpp",L+"TSpace_save_hdf.cpp",L+"TSpace_load_hdf.cpp",L+"MStepdata.cpp"],[("state written at snapshots","libvvhd/src/TSpace_save_hdf.cpp"),("loop order around saving","utils/vvflow/vvflow.cpp simulate")],["results_*/ and stepdata"])
p("C20","Results do not depend on the number of threads or their scheduling",
 "Velocities, matrices, fields and whole simulations give the same results for every number of threads and every way of handing loop iterations to threads, and no two threads touch the same data without synchronisation.",
 ["schedules","configurations"],"all assignments of chunks to two or three threads and their interleavings at chunk and critical-section boundaries up to a bound, for every parallel loop; all thread counts 1..8",
 "Tests run with one thread.",
 [L+"MConvectiveFast.cpp",L+"TMatrix.cpp",L+"XVorticity.cpp",L+"XVelocity.cpp",L+"XStreamfunction.cpp",L+"XPressure.cpp",L+"TEval.cpp"],[("parallel loops","#pragma omp in libvvhd/src")],["simulation results, fields"])
p("C21","A failed write is never reported as success",
 "If any write, creation or close of an output file fails during saving, simulating, plotting to a file or extracting, the program ends with a non-zero status or raises an error, and does not crash. Inputs and earlier complete outputs not being rewritten stay intact.",
 ["fault_sequences","crash_points"],"every single failing output system call of each tool's run, by error kind, and every suffix of failures (disk stays full)",
 "Tests never see a failing disk.",
 [L+"TSpace.cpp",L+"MStepdata.cpp",U+"vvflow/vvflow.cpp",U+"vvxtract/vvxtract.cpp",U+"vvplot/gnuplotter.cpp"],[("error checks after HDF5 calls","libvvhd/src/TSpace.cpp, MStepdata.cpp")],["exit status, stderr, files"])
p("C22","The solved flow satisfies the boundary conditions and the laws of motion",
 "After the circulation of the surfaces is solved, the normal flow through every wall segment (except the one replaced by the integral condition) vanishes relative to the moving wall, total circulation equals the prescribed one, and each body's velocity and forces satisfy its prescribed motion, spring law or collision law. The answer is the same whether the solver reuses earlier factorisation or starts anew, in any sequence of steps.",
 ["inputs","histories"],"all small sets of bodies with every combination of fixed, moving, elastic, rooted, slip and special segment settings; all sequences of solve steps up to the bound",
 "Tests compare pictures and a few forces.",
 [L+"MConvectiveFast.cpp",L+"TMatrix.cpp"],[("equations","libvvhd/src/MConvectiveFast.cpp fill_matrix"),("solver and reuse of the inverse","libvvhd/src/TMatrix.cpp")],["surface circulation, speeds, forces"])
p("C23","Bodies move by their laws and never pass their collision limits",
 "Each step moves a body, its holder and its deflection consistently with its speed, its prescribed speed and its root's motion, keeping every body rigid and every chain connected. No elastic body's coordinate passes its collision limits, and at a limit the speed is reversed with the given restitution.",
 ["inputs","histories"],"all one- and two-body chains over an alphabet of speeds, springs, limits and restitutions, sequences of steps",
 "Tests have one collision example.",
 [L+"MFlowmove.cpp",L+"MConvectiveFast.cpp",L+"TBody.cpp"],[("collision detection and step shortening","libvvhd/src/MFlowmove.cpp move_and_clean"),("collision equations","libvvhd/src/MConvectiveFast.cpp fill_matrix")],["holder_pos, delta_pos, speed"])
p("C24","A simulation takes exactly the prescribed steps and writes exactly its snapshots",
 "A simulation advances from its start time by the time step until its finish time (a step that does not advance is refused with an error), records every step, and writes a snapshot at exactly those non-negative times that are multiples of the save period, each under its step number and holding that time. Markers are shed exactly at the multiples of the streak period and sensors are recorded at every step.",
 ["configurations","inputs"],"all combinations of start time, step, finish, save period and streak period from an alphabet of fractions",
 "Tests use one or two time settings.",
 [U+"vvflow/vvflow.cpp",L+"MFlowmove.cpp",H+"TTime.hpp",U+"vvflow/sensors.cpp"],[("main loop","utils/vvflow/vvflow.cpp simulate"),("marker shedding","libvvhd/src/MFlowmove.cpp streak_shed")],["results_*/*.h5, stepdata"])
p("C25","Viscous velocity equals the direct sum over neighbours and walls",
 "The diffusion velocity given to every vortex equals the sum over its neighbouring vortices and wall segments prescribed by the method, each once, with opposite signs handled as prescribed, and wall friction receives exactly the contribution of every vortex near it. Heat particles follow the same rule.",
 ["inputs"],"all small configurations of vortices of either sign and size near zero, one or two walls",
 "Tests compare pictures only.",
 [L+"MDiffusiveFast.cpp"],[("pair and wall influence","libvvhd/src/MDiffusiveFast.cpp")],["vortex motion, friction force"])
p("C26","A file is loaded as exactly what it holds, or refused with an error",
 "Loading a problem (HDF5 or the legacy binary format) or a body from text takes exactly what the file holds, or fails with an error that a script can catch. No file, however truncated, damaged or foreign, ends or crashes the program, or is loaded as something it does not hold (an empty file holds nothing). After a refusal the file is closed and everything else works as before.",
 ["inputs","crash_points"],"all truncations and single-byte damages of a rich legacy file, pairs of variations of its fields; truncations of an HDF5 file, every attribute and dataset absent or of every other rank, size and type; all sequences of text lines; all sequences of refusals in one process",
 "Tests load a few good files.",
 [L+"TSpace.cpp",L+"TSpace_load_hdf.cpp",L+"TSpace_load_v13.cpp",L+"vvhdf.cpp",L+"TBody.cpp",U+"vvflow/lua_space.cpp"],[("legacy reader","libvvhd/src/TSpace_load_v13.cpp load_v13"),("HDF5 reader","libvvhd/src/TSpace_load_hdf.cpp"),("text reader","libvvhd/src/TBody.cpp load_txt")],["loaded Space, errors, exit status, open handles"])
p("C27","The step record holds the forces, positions and profiles of each step",
 "The row of each step in the step record holds the hydrodynamic force, the holder's force, the friction force and its moment about the axis, the position, deflection and speed of every body as they were at that step, agreeing with the snapshot saved then; with profiles asked for, also the pressure along every surface as the running sum of circulation shed and absorbed, and the friction. Nothing else is recorded, however many bodies, segments or steps there are.",
 ["inputs","histories"],"all combinations of flows, contents, sets of bodies and starts of the tables, every step of each run; records beyond the buffer and chunk sizes",
 "Tests look at the record of one or two problems with one body.",
 [L+"TSpace.cpp",L+"MStepdata.cpp",U+"vvflow/vvflow.cpp"],[("forces and profiles of the step","libvvhd/src/TSpace.cpp calc_forces, zero_forces"),("rows","libvvhd/src/MStepdata.cpp write, append")],["stepdata_<caption>.h5, results_<caption>/*.h5"])
p("C28","Every simulated step carries all elements and bodies by the flow and their laws",
 "In a simulated run each snapshot follows from the one before it: what the surfaces shed appears, close vortices merge, every vortex, marker and body moves by the velocity of the flow, diffusion and its law of motion, what enters a body is absorbed and credited to it, friction and sensors report this flow. At every snapshot the forces balance the momentum of bodies and flow, holders act as prescribed or as springs, a body that met its limit has bounced, and total circulation is the prescribed one.",
 ["inputs","histories"],"all combinations of flows, contents, sets of bodies and starts of the tables, every step of each run",
 "Tests compare pictures of a few runs; an order of phases or a term wrong in one combination stays unnoticed.",
 [U+"vvflow/vvflow.cpp",L+"MFlowmove.cpp",L+"MConvectiveFast.cpp",L+"MDiffusiveFast.cpp",L+"MEpsilonFast.cpp",L+"TSpace.cpp",U+"vvflow/sensors.cpp"],[("main loop","utils/vvflow/vvflow.cpp simulate"),("motion and removal","libvvhd/src/MFlowmove.cpp move_and_clean"),("equations of the bodies","libvvhd/src/MConvectiveFast.cpp fill_matrix")],["results_<caption>/*.h5, velocity_<caption>"])
p("C29","A command line means what the documentation says, or is refused",
 "Whatever the order, spelling (abbreviated, with = or separate, short), repetition and position of the options, vvflow, vvxtract and vvplot do exactly what the options say, the last of contradicting ones counting and -- ending them; or they refuse an unknown, incomplete or unusable one with a message and a non-zero status, writing nothing. A script sees its own name and arguments in arg; its error is reported with a non-zero status; profiles, progress and sensors are there exactly when asked for.",
 ["inputs"],"all sequences of up to three tokens from tables of options in every spelling, operands, inputs and mistakes, for each of the three tools",
 "Tests use the options in one spelling and order.",
 [U+"vvflow/optparse.cpp",U+"vvflow/vvflow.cpp",U+"vvxtract/optparse.cpp",U+"vvplot/optparse.cpp"],[("options of vvflow, table arg","utils/vvflow/optparse.cpp parse, vvflow.cpp main"),("options of vvxtract","utils/vvxtract/optparse.cpp"),("options of vvplot","utils/vvplot/optparse.cpp")],["exit status, stdout, stderr, files"])
p("C30","gpquick plots exactly what its options ask for",
 "Whatever the order, spelling and repetition of its options, gpquick asks gnuplot for exactly the columns, lines or points, ranges, ratio, grid, size and output file they name, the last of repeated ones counting and defaults for the others. The script is printed when asked for or when there is no output file; with one, gnuplot draws it from the data on the standard input, unchanged, and its exit status is passed on. A mistaken option is refused with a message and a non-zero status, and nothing is drawn.",
 ["inputs"],"all sequences of up to two options in every spelling (three thorough), all sets of options, mistakes",
 "A test draws one plot.",
 ["utils/scripts/gpquick"],[("options and script","utils/scripts/gpquick parse_args, main")],["stdout, the script and data given to gnuplot, exit status"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
