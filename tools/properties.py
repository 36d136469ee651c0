"""Writes properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
R="building3d/sim/rays/"
p("C01","Ray simulation results do not depend on how parallel workers are scheduled",
 "For a given building, configuration and random seed, the recorded ray positions, ray energies and absorber hits are the same however the rays are divided among parallel workers and however those workers are interleaved, delayed or stalled. The result equals that of handling the rays one after another.",
 ["schedules","inputs","configurations"],"All worker counts, all divisions of rays among workers, all interleavings of their memory accesses; all buildings, sources, absorbers and absorption values.",
 "The tests run whatever schedule the installed thread pool happens to produce (or none, with compilation off) and only compare first and last positions of a handful of rays; a race that needs a particular interleaving is never forced.",
 [R+"simulation_loop.py",R+"simulation.py",R+"find_target.py",R+"find_nearby_polygons.py"],
 [("per-ray state only inside the parallel loop; absorber sums kept in a serial loop",R+"simulation_loop.py simulation_loop")],
 [("position/velocity/energy/hits","arrays shared by all workers",R+"simulation_loop.py")],
 ["arrays returned by Simulation.run()","files in the buffer directory"])
p("C02","Splitting a run into batches does not change its recorded history",
 "For a given building, configuration and random seed, every batch size that divides the number of steps gives the same recorded history, step for step and up to rounding: ray positions, ray energies and absorber hits read back from the buffer directory, and the final state returned by the run.",
 ["inputs","configurations","schedules"],"All pairs of batch sizes dividing the number of steps, all buildings and ray configurations; batch boundaries falling before, on and after reflections, absorptions and deaths of rays.",
 "The tests use one batch size per test and never compare two; a state variable lost or recomputed wrongly at a batch boundary only shows when the boundary coincides with an event.",
 [R+"simulation.py",R+"simulation_loop.py",R+"dump_buffers.py"],
 [("state carried over between batches",R+"simulation.py Simulation.run"),("one file per step, batch row 0 is the previous batch's last row",R+"dump_buffers.py")],
 [("position, velocity, energy, hits","carried across the boundary",R+"simulation.py Simulation.run")],["files in the buffer directory","arrays returned by Simulation.run()"])
p("C03","The spatial lookup grid never changes where rays go",
 "The grid of cells used to find nearby surfaces is only an accelerator: with the same seed, every cell size larger than the distance a ray covers in one step (with its 1 % margin) gives the same ray positions, energies and absorber hits. Moving the whole scene (building, source and absorbers) by a common offset moves the ray positions by that offset and changes nothing else.",
 ["inputs","configurations"],"All cell sizes above the step length, all buildings (including negative coordinates, surfaces lying on cell borders, rooms much larger or smaller than a cell, offsets of up to some tens of metres) and all ray directions; equality is up to rounding and is not required of rays that come within rounding distance of an edge or of a decision threshold.",
 "Tests fix one cell size and one building position; a surface missing from one cell only matters for the few rays that approach it through that cell.",
 [R+"voxel_grid.py",R+"find_nearby_polygons.py",R+"find_target.py",R+"simulation_loop.py"],
 [("every surface is registered in every cell it passes through; a ray looks at its own and all adjacent cells",R+"voxel_grid.py, "+R+"find_nearby_polygons.py")],
 [("grid","cell -> surface numbers",R+"voxel_grid.py")],["files in the buffer directory"])
p("C04","Ray energy is accounted for exactly once",
 "Each ray starts with energy 1, which never increases and never drops below zero. A ray that has energy left and is inside an absorber's radius at one recorded step has no energy at the next, and that absorber's recorded hit for that next step is the sum of the energies such rays brought, each ray counted once in the whole run and for one absorber only. A ray without energy never moves again and is never counted again.",
 ["schedules","inputs","configurations","histories"],"All worker schedules, batch splits, absorber placements (including overlapping ones and ones containing the source) and absorption values.",
 "Tests look at total hits of one example; double counting or losing energy needs a particular schedule, batch boundary or absorber layout.",
 [R+"simulation_loop.py",R+"simulation.py"],
 [("serial absorber loop that zeroes the ray energy when it adds it to the hit",R+"simulation_loop.py")],
 [("energy, hits","shared accumulators",R+"simulation_loop.py")],["files in the buffer directory","arrays returned by Simulation.run()"])
p("C05","Rays stay inside: opaque surfaces are never crossed, interior ones are open",
 "In a closed building, a ray carrying energy never crosses a surface other than an interface between two adjacent solids of the same zone, so it always stays inside the group of connected solids that contains the source. Such interfaces do not deflect or weaken rays. With the search for interfaces switched off every surface blocks rays.",
 ["inputs","histories","configurations","schedules"],"All closed buildings made of box and floor-plan solids in any number of zones, within some tens of metres of the origin, all sources inside, all ray directions, time steps and batch/grid settings, and all edit/analysis histories of the building before the run.",
 "Tests check two fixed rooms with unseeded directions; a missed surface shows only for the few rays meeting a particular edge, cell or interface.",
 [R+"simulation_loop.py",R+"find_target.py",R+"find_transparent.py",R+"voxel_grid.py","building3d/geom/polygon/distance.py"],
 [("target surface search ignoring transparent surfaces, reflection before the surface can be reached",R+"simulation_loop.py, "+R+"find_target.py")],
 (),["files in the buffer directory"])
p("C06","Rays travel at constant speed and reflect like a mirror, at the surface's cost",
 "In every step a ray that keeps energy moves by exactly its speed times the time step. Its direction changes only when a blocking surface lies within the reflection distance (1.01 steps), only by mirroring about such surfaces, and each mirroring costs the absorption configured for that surface; otherwise energy and direction stay as they were.",
 ["inputs","configurations","histories"],"All buildings, ray directions, time steps, batch sizes, worker schedules and per-surface absorption assignments.",
 "Tests check the step length once and never the direction or the per-surface cost; errors appear only for rays meeting corners, batch boundaries or particular surfaces.",
 [R+"simulation_loop.py",R+"simulation.py",R+"simulation_config.py","building3d/geom/vectors.py"],
 [("reflection formula, per-surface absorption array",R+"simulation_loop.py"),("configured values by surface",R+"simulation_config.py surface_params_to_array")],
 (),["files in the buffer directory"])
p("C07","A seeded run is reproducible in any process",
 "With the same building geometry, the same configuration and the same NumPy seed set before the run, the recorded history is the same in every process: whatever the automatically generated names and identifiers, the string-hash seed, the memory addresses, the order in which directories are listed, the wall clock, and whatever other buildings or runs the process handled before.",
 ["histories","schedules","configurations"],"All values of the environment's nondeterministic inputs and all earlier operations in the process.",
 "Tests run once in one process and never compare two runs.",
 [R+"simulation.py",R+"find_transparent.py","building3d/random.py","building3d/geom/building/graph.py","building3d/io/arrayformat.py"],
 [("directions drawn from the global NumPy generator; surfaces numbered in insertion order",R+"simulation.py, building3d/io/arrayformat.py")],
 (),["files in the buffer directory"])
p("C08","A finished run leaves its complete history on disk",
 "When a simulation run returns normally, reading its buffer directory gives exactly one state for each step from 0 to the number of steps, with exactly the positions, energies and hits that were simulated, ending with the returned state. This holds in whatever order the operating system lists the directory, when writes are performed in pieces, when unrelated files are present, and whatever was read from or removed from that directory before.",
 ["fault_sequences","inputs","configurations","histories"],"All step counts, batch sizes, ray counts, directory listing orders, short or interrupted system calls and foreign files.",
 "Tests read back one run on one file system, where listing order and write sizes are always the same.",
 [R+"dump_buffers.py",R+"simulation.py","building3d/paths/wildcardpath.py"],
 [("one file per step and quantity, found by wildcard and loaded by number",R+"dump_buffers.py, building3d/paths/wildcardpath.py")],
 (),["read_buffers()","arrays returned by Simulation.run()"])
p("C09","A run that dies never leaves a history that reads back wrong",
 "If the process dies or a disk operation fails at any point of a run, the run does not report success, and reading the buffer directory afterwards either raises an error or returns an exact, gap-free beginning of the true history. It never returns missing, torn, mixed or shifted states.",
 ["crash_points","fault_sequences","configurations"],"All crash points between and inside file operations, all single and repeated disk errors (no space, I/O error, permission), including data not yet flushed being lost and loss of one complete file.",
 "No test injects a disk error or stops a run half way.",
 [R+"dump_buffers.py",R+"simulation.py"],
 [("per-step files, reader requires equal last steps and every file in between",R+"dump_buffers.py read_buffers")],
 (),["exception raised by Simulation.run()","read_buffers() after a restart"])
p("C10","Old results are never overwritten, and an empty buffer directory is usable",
 "Creating a simulation whose buffer directory already contains anything fails and leaves every file in it as it was. It succeeds when the directory does not exist or is empty, including when an earlier attempt died at any point before storing results.",
 ["crash_points","histories","fault_sequences"],"All histories of attempts in the same project directory with crashes and disk errors at any file operation.",
 "Tests always start from a fresh directory or a completed run.",
 [R+"simulation.py"],[("directory preparation",R+"simulation.py Simulation.make_dirs")],(),["exception raised by Simulation()","contents of the buffer directory"])
p("C11","A saved building reads back as the same building",
 "After a save reported success, reading the file gives the same building: for the native format the same names, structure and order at every level and the same identifier, vertices and triangles of every surface; for dotbim the same names, identifiers, structure and surfaces; for STL the same solids with the same triangles (all coordinates within the format's precision). This holds for every sequence of saves over the same path, including replacing larger files by smaller ones, with writes performed in pieces.",
 ["inputs","histories","fault_sequences"],"All buildings with non-empty zones, solids and walls, any legal names, any coordinates, any order of saves to the same or different paths, any short or interrupted system calls.",
 "Tests save one or two fixed buildings to fresh files.",
 ["building3d/io/b3d.py","building3d/io/dotbim.py","building3d/io/stl.py"],
 [("writers and readers of the three formats","building3d/io/")],(),["read_b3d(), read_dotbim(), read_stl()"])
p("C12","A failed or interrupted save is noticed, never read as a smaller building",
 "A save raises an error if a disk operation it needs fails. Reading a model file whose writing was cut short at any byte raises an error or returns the complete building, never a building with parts missing or changed; STL, which has no end mark, may at most lack solids whose beginning was not written. Other files in the directory are never touched.",
 ["crash_points","fault_sequences","inputs"],"All crash points and disk errors during a save of any building in each format, over a new or an existing file.",
 "No test injects a disk error or reads a truncated file.",
 ["building3d/io/b3d.py","building3d/io/dotbim.py","building3d/io/stl.py"],
 [("single JSON document; solid/endsolid pairing in STL","building3d/io/")],(),["exception raised by write_*()","read_*() after a restart"])
p("C13","Concurrent saves into a new directory all succeed",
 "Several threads or processes saving different files or pictures, starting simulations with different buffer directories, or starting logging into the same not yet existing directory all succeed, and each file afterwards holds exactly what its writer saved.",
 ["schedules","inputs"],"All interleavings of the file operations of up to four writers of any kind.",
 "Tests never run two writers at once.",
 ["building3d/io/b3d.py","building3d/io/dotbim.py","building3d/io/stl.py","building3d/logger/__init__.py",R+"simulation.py"],
 [("parent directories are created on demand","building3d/io/, building3d/logger/__init__.py, "+R+"simulation.py")],(),["return of write_*()","contents of the files"])
p("C14","Transparent surfaces always follow the building's current geometry",
 "The set of transparent surfaces reported for a building is exactly the surfaces that separate two adjacent solids of one zone in that building as it is at the time of the call. It does not depend on earlier calls, on what callers did with earlier answers, on edits made in between, on other buildings that have existed in the process, or on an earlier call having been interrupted.",
 ["histories","schedules","fault_sequences"],"All histories of queries, edits, stitching, deletions of buildings and interruptions in one process, and concurrent queries.",
 "Tests ask once per building, so a stale, shared or mixed-up remembered answer cannot show.",
 [R+"find_transparent.py",R+"simulation.py","building3d/geom/building/graph.py"],
 [("remembered answer per building",R+"find_transparent.py CACHE")],[("CACHE","remembered answers",R+"find_transparent.py")],["find_transparent()","Simulation"])
p("C15","Adjacency graph answers match the question asked",
 "A building's adjacency graph contains exactly the pairs of surfaces (or their walls, solids, zones) that satisfy the requested relations - facing, overlapping, touching - symmetrically and without duplicates. A graph asked for anew reflects the current geometry; otherwise it reflects the geometry at the last calculation for the same relations (at any level) or later, never a mixture, and never the answer to a different question, even after interrupted calls or with concurrent callers.",
 ["histories","schedules","fault_sequences","inputs"],"All histories of graph requests with different levels and relations, edits, interruptions and concurrent callers, over buildings of several solids and zones.",
 "Tests ask for each graph once on fixed buildings.",
 ["building3d/geom/building/__init__.py","building3d/geom/building/graph.py"],
 [("remembered graphs","building3d/geom/building/__init__.py Building.get_graph")],[("graph, graph_wall, graph_solid, graph_zone","remembered graphs","building3d/geom/building/__init__.py")],["Building.get_graph()"])
p("C16","Names, paths and ownership in the building tree stay consistent",
 "After any sequence of additions, replacements and renamings of the building, accepted, rejected or interrupted, every object is found under its full path, its path leads back to it, its parent is the object containing it, and no name occurs twice in one parent. A rejected addition or replacement leaves the tree exactly as it was, and an interrupted one leaves it as before or as after.",
 ["histories","fault_sequences","inputs"],"All sequences of add/replace operations at all levels, with name collisions, unknown names, invalid names, and interruptions at every point.",
 "Tests perform single valid operations.",
 ["building3d/geom/building/__init__.py","building3d/geom/zone/__init__.py","building3d/geom/solid/__init__.py","building3d/geom/wall/__init__.py","building3d/geom/paths/validate_name.py"],
 [("add_*, replace_* methods","building3d/geom/")],(),["get(), path, parent, children at all levels"])
p("C17","Surface parameters: the last assignment covering a surface wins, and is used",
 "The value of a surface parameter is that of the most recent accepted assignment to a path that covered the surface at that time, or the default if there was none; a rejected assignment changes nothing. The values handed to the simulation are, for each surface, those values, whatever edits, renumberings and other buildings' conversions happened in between.",
 ["histories","inputs","fault_sequences"],"All sequences of assignments on complete and partial paths, changes of the default, rejected assignments, edits of the building and conversions of this and other buildings.",
 "Tests assign one value and look at one array.",
 [R+"simulation_config.py",R+"simulation.py","building3d/io/arrayformat.py"],
 [("values by surface path, mapped to surface numbers",R+"simulation_config.py")],[("surfaces","values by path",R+"simulation_config.py")],["surfaces of the configuration","array given to the simulation","energy lost by rays"])
p("C18","Stitching keeps every wall whole, whatever the names, order or interruptions",
 "Stitching a building keeps the total area, plane and orientation of every wall and leaves surfaces that take part in no contact untouched; afterwards adjacent solids meet in matching surfaces. The outcome does not depend on names reused in other zones or walls or on graphs asked for before, and an interruption at any point leaves every wall's area whole.",
 ["histories","fault_sequences","inputs"],"All row and staggered arrangements of box solids in one or more zones, with unique or repeated names, with any earlier graph requests, and interruptions at every point.",
 "Tests stitch a few fixed pairs once, with unique names and no interruption.",
 ["building3d/geom/solid/stitch.py","building3d/geom/building/__init__.py","building3d/geom/wall/__init__.py","building3d/geom/polygon/slice/"],
 [("slice, then replace the surface in its wall","building3d/geom/solid/stitch.py")],(),["walls and polygons of the building after Building.stitch_solids()"])
p("C19","Each log record is written exactly once, to the current log file",
 "After logging is set up, every record at or above the chosen level appears exactly once, complete and in order, in the most recently chosen log file and in no earlier one. Setting up again, for the same or another file, by one or several threads, starts that file afresh and neither loses later records nor repeats them.",
 ["histories","schedules","inputs"],"All sequences of set-ups and log calls with any levels, files and directories, with concurrent loggers.",
 "Tests set up logging once per test and check that the file exists.",
 ["building3d/logger/__init__.py"],[("set-up replaces earlier handlers","building3d/logger/__init__.py init_logger")],(),["contents of the log files"])
p("C20","Wildcard paths find exactly the files they name",
 "Looking up a wildcard path in a directory returns exactly the existing entries that filling the wildcards with numbers would name, each once and with those numbers, whatever order the directory is listed in and whatever entries of other names appear in the meantime. Filling the path with the returned numbers gives the same entry again.",
 ["histories","schedules","inputs"],"All patterns with one to three wildcards in file names, all sets of numbers, all listing orders, entries of other names (not containing such a name) and entries created while the search runs.",
 "Tests match one or two patterns against a handful of files in creation order.",
 ["building3d/paths/wildcardpath.py"],[("pattern to regular expression","building3d/paths/wildcardpath.py")],(),["WildcardPath.fill(), get_matching_paths()"])
p("C21","Asking, converting and saving never change the building",
 "Queries, analyses, conversions, saves and simulations leave names, structure, vertices and triangles of the building exactly as they were. Any number of them running concurrently on one building, in any order and interrupted at any point, give the answers they give alone.",
 ["schedules","histories","fault_sequences","inputs"],"All interleavings of up to four concurrent read-only operations of any kind, all sequences of them, with interruptions.",
 "Tests call each operation once on a fresh building and look only at its result.",
 ["building3d/geom/building/__init__.py","building3d/geom/polygon/__init__.py","building3d/io/","building3d/sim/rays/find_transparent.py","building3d/geom/solid/__init__.py"],
 [("operations work on copies","building3d/")],(),["the building before and after","results of the operations"])
p("C22","Array conversion round trip restores the building",
 "Converting a building to arrays and back gives a building with the same structure, names by number, vertices and triangles.",
 ["inputs"],"All buildings.","Tests convert one fixed building.",
 ["building3d/io/arrayformat.py"],[("to_array_format/from_array_format","building3d/io/arrayformat.py")],(),["to_array_format(), from_array_format()"])
p("C23","Triangulation covers each polygon exactly",
 "The triangles of a polygon do not overlap, cover it completely and keep its orientation, so that area, centroid, mesh and volume are right.",
 ["inputs"],"All simple planar polygons, convex or not.","Tests use a dozen fixed shapes.",
 ["building3d/geom/triangles.py","building3d/geom/triangles.py","building3d/geom/tetrahedrons.py"],[("ear clipping","building3d/geom/triangles.py")],(),["Polygon.tri, area, centroid, Solid.volume"])
p("C24","Slicing a polygon splits it without loss",
 "Slicing a polygon along points inside it yields two polygons that together cover exactly the original, in the same plane and orientation.",
 ["inputs"],"All polygons and valid slicing lines.","Tests slice a few fixed shapes.",
 ["building3d/geom/polygon/slice/"],[("case analysis of start and end points","building3d/geom/polygon/slice/")],(),["slice_polygon()"])
p("C25","Point and polygon predicates are mutually consistent",
 "Inside, boundary, facing, crossing, touching and visibility tests agree with exact geometry away from the tolerance band and are symmetric where the relation is.",
 ["inputs"],"All points and polygons.","Tests use fixed examples.",
 ["building3d/geom/polygon/","building3d/geom/points/","building3d/geom/triangles.py"],[("tolerance-based predicates","building3d/geom/")],(),["predicates of Polygon and Solid"])
p("C26","Movies, pictures and impulse responses show exactly the stored states",
 "Every movie frame shows the rays of one stored state with that state's energies; frames follow the states in order without skipping or repeating one (only the first and the last state may be missing), and each trail joins one ray's own latest positions with its energy at each of them. A picture shows the building, the rays' paths and their latest positions, and an impulse response gives each state's hits, scaled, at that state's time. Making them, alone or concurrently, completed or interrupted, changes neither the history nor the building, and a failed write is reported.",
 ["inputs","fault_sequences","schedules"],"All histories and trail lengths, all points at which writing a frame fails or the maker is interrupted, all interleavings of concurrent makers.",
 "Tests make one picture of a fixed object and check that a file exists; what is in the frames is never looked at, and the renderer never fails.",
 [R+"movie_from_buffer.py",R+"ray_buff_plotter.py",R+"impulse_response.py","building3d/display/plot_objects.py"],
 [("data sets of the renderer updated in place from frame to frame",R+"movie_from_buffer.py make_movie_from_buffer")],
 [("point and line data sets","what the renderer shows in the next frame",R+"movie_from_buffer.py")],["frames handed to the renderer","the movie or picture file","the data frame returned"])
p("C27","The cyclic buffer keeps the latest elements in order",
 "After any sequence of insertions into a buffer for n elements, reading it gives the last n - 1 inserted elements (all of them, if there were fewer), each exactly as inserted and in the order of insertion, and an empty result before the first insertion. Buffers do not affect each other, and an interrupted insertion that is repeated counts once.",
 ["histories","fault_sequences","inputs"],"All sizes and element widths, all sequences of insertions and reads, all numbers of wrap-arounds, interruptions at every point of an insertion.",
 "Tests insert a few elements without interruption; long sequences with many wrap-arounds, several buffers at once and interrupted insertions are never run.",
 ["building3d/types/cyclic_buffer.py"],[("two indices that wrap around","building3d/types/cyclic_buffer.py cyclic_buf, convert_to_contiguous")],[("head, tail","next place to write and oldest element","building3d/types/cyclic_buffer.py")],["array returned by reading the buffer"])
p("C28","Simulations running at the same time give what they give alone",
 "Several simulations running at the same time in one process, on the same or on different buildings and each with its own buffer directory and random numbers, record exactly the histories that each of them records when it runs alone. Queries, saves and conversions of the same buildings beside them, and the interruption of one of them, do not change the others.",
 ["schedules","inputs","fault_sequences"],"All interleavings, statement by statement, of two or three simulations with other operations on their buildings beside them; interruptions at every point of one of them.",
 "Tests run one simulation at a time.",
 [R+"simulation.py",R+"simulation_loop.py",R+"find_transparent.py",R+"dump_buffers.py","building3d/io/arrayformat.py"],
 [("no state is shared between simulations except the buildings, which are only read",R+"simulation.py Simulation")],(),["files in the buffer directories","arrays returned by Simulation.run()"])
p("C29","Reading a running simulation gives its exact beginning or an error",
 "A history read while the simulation that stores it is still running is an exact beginning of the history of that run, or reading fails with an error. It never contains states that were not simulated, states in another order or partly written values, and reading does not disturb the run, which still leaves its complete history.",
 ["schedules","fault_sequences","inputs"],"All interleavings of the file operations of one run with those of up to three readers, all listing orders, all ways in which writes and reads are performed in pieces.",
 "Tests read the history only after the run has ended.",
 [R+"dump_buffers.py",R+"simulation.py","building3d/paths/wildcardpath.py"],
 [("one file per state and quantity, read only if all quantities reach the same state",R+"dump_buffers.py read_buffers")],(),["arrays returned by reading the buffer directory"])
p("C30","A building read back from its file behaves like the original",
 "A building that was saved in the native format and read back, once or again and again, behaves like the original in everything done afterwards: the same additions, replacements, stitching, look-ups, graphs, transparent surfaces and volumes, and the same seeded ray simulation. The same holds for dotbim files up to the format's precision.",
 ["histories","inputs","fault_sequences"],"All histories of edits, stitching and queries with saving and reading back in between at any point, all buildings, any short or interrupted system calls.",
 "Tests compare one read building with the saved one and never go on working with it.",
 ["building3d/io/b3d.py","building3d/io/dotbim.py","building3d/geom/building/__init__.py","building3d/geom/zone/__init__.py","building3d/geom/solid/__init__.py","building3d/geom/wall/__init__.py","building3d/geom/polygon/__init__.py"],
 [("reading rebuilds every object through its constructor","building3d/io/")],(),["answers of the read building","histories simulated in it"])
p("C31","Volumes, boxes, meshes and locations always follow the current geometry",
 "The volume, bounding box and mesh of every part of a building, the solid in which a point is found, and whether two solids are adjacent and matching are those of the geometry at the time of the question. They do not depend on what was asked before, on edits or resizings in between, on other buildings with the same names or identifiers, on interrupted questions or on questions asked at the same time.",
 ["histories","schedules","fault_sequences","inputs"],"All histories of questions at all levels, edits, replaced walls and surfaces, other buildings created and deleted, interruptions and concurrent questions.",
 "Tests ask once about a fresh object, so an answer remembered from before an edit cannot show.",
 ["building3d/geom/solid/__init__.py","building3d/geom/building/__init__.py","building3d/geom/zone/__init__.py","building3d/geom/wall/__init__.py","building3d/geom/mesh/__init__.py","building3d/geom/building/find_location.py"],
 [("every answer is computed from the vertices at the time of the question","building3d/geom/")],(),["volume, bbox(), get_mesh(), is_point_inside(), find_location(), is_adjacent_to_solid() and has_correct_interface()"])
p("C32","A prepared simulation runs with the building and settings it was created with",
 "Whenever a simulation is run after its creation, it records the history it would have recorded if it had been run at once with the same random numbers: later changes of the building or of the settings, other simulations, and the deletion of the building do not matter. Running it again after clearing its buffer directory, also after a run that was interrupted, records the same history again.",
 ["histories","fault_sequences","configurations","inputs"],"All orders of creating, editing, reconfiguring and running up to three simulations on one or two buildings, repeated and interrupted runs.",
 "Tests run each simulation once, immediately after creating it.",
 [R+"simulation.py",R+"simulation_loop.py",R+"simulation_config.py","building3d/io/arrayformat.py"],
 [("building and settings are copied at creation",R+"simulation.py Simulation.__init__"),("the state of a run starts afresh in each run",R+"simulation.py Simulation.run")],
 [("points, faces, absorption, transparent surfaces","copies made at creation",R+"simulation.py Simulation")],["files in the buffer directory"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
