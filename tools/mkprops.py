import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
T="The repository's tests cover range/indexer arithmetic and constructing one variable; no test runs a solver, "
p("C01","Results do not depend on the thread schedule",
 "Every solver step (flux, field, source, advection, time-integration, boundary, fill and swap steps) leaves bitwise the same values in every cell of every variable whether its parallel loops run on one thread or on any number of threads in any interleaving. Its inputs and all variables it is not asked to write are left bitwise unchanged.",
 ["schedules","histories","configurations"],"all team sizes 1..8, all interleavings of shared memory accesses, all 1-3 dimensional grids with at least 2 cells per direction, all solver kinds and step histories that apply boundary conditions before fluxes",
 T+"and the test build has OpenMP switched off, so no schedule is ever exercised.",
 ["src/solver/euler.cpp","src/solver/maxwell.cpp","src/solver/ssprk3.cpp","src/solver/ssprk2_advection.cpp","src/solver/lorentz_force.cpp","src/solver/current_source.cpp","src/lib/parallelization.h"],
 [("per-cell flux evaluation with private scratch arrays, each iteration writing only its own cell","src/solver/euler.cpp solve_HLL_mp, src/solver/maxwell.cpp solve_rusanov_mp"),("element-wise stage updates","src/solver/ssprk3.cpp"),("fluxes first, scatter afterwards","src/solver/ssprk2_advection.cpp advection_iterate")],
 ["cell values of all variables after every solver call"])
p("C02","Conserved totals stay constant on closed domains",
 "On a fully periodic domain every complete time step keeps, up to rounding, the sums over all cells of mass, each momentum component and energy of a fluid, of each electric and magnetic component of a field, and of an advected scalar. With reflecting walls (no-slip or free-slip) instead of periodic sides, mass and energy of a fluid are kept. The work the field does on the fluids per unit time equals the energy the currents take from the field, in every cell.",
 ["histories","schedules","fault_sequences","inputs"],"all step histories (Euler/Maxwell/advection with 1- and 3-stage integrators), thread schedules, mixtures of periodic and wall directions, and histories in which steps fail for lack of memory and the stage is started again",
 T+"so neither a history of steps nor a failed and repeated step is covered; conservation is a statement about all of them.",
 ["src/solver/euler.cpp","src/solver/maxwell.cpp","src/solver/ssprk2_advection.cpp","src/solver/ssprk3.cpp","src/solver/rk1.cpp","src/solver/bc_periodic.cpp","src/solver/bc_no_slip.cpp","src/solver/bc_free_slip.cpp","src/solver/lorentz_force.cpp","src/solver/current_source.cpp","src/data/extended_datachunk.cpp"],
 [("the same flux is added on one side of a face and subtracted on the other","flux loops"),("ghost layers are exact images of interior cells","src/solver/bc_*.cpp"),("integrator weights sum to one","src/solver/ssprk3.cpp, rk1.cpp")],
 ["sums of interior cells after every step"])
p("C03","Every step of a run refines the sequential reference scheme",
 "After every solver call in any run, each interior cell of the variable it writes equals, up to rounding, what a small sequential model of the documented scheme (Euler with HLL fluxes and the van-Albada-limited reconstruction, Maxwell with Rusanov fluxes, upwind-limited two-stage advection, Lorentz force, current source, one- and three-stage Runge-Kutta, fill, swap) computes from the state just before the call; fill and swap act on the ghost cells as well. Nothing else changes: inputs, other variables, the time and the time step stay as they were, and a step that was refused or failed is not partly applied to its inputs.",
 ["histories","schedules","inputs","fault_sequences"],"all step histories of at most some hundred calls over any set of fluid, field and scalar variables, sub- and supersonic states, both signs of velocity, 1-3 dimensions, any schedule and any failed-and-restarted stage",
 T+"so the arithmetic of a step in the context of a history is never observed.",
 ["src/solver","src/spatial_solver","src/data","src/variable","src/grid/rectilinear.cpp"],
 [("solver::solve implementations","src/solver/*.cpp"),("storage exchange on swap","src/lib/indexer_interface.h swap")],
 ["cell values of all variables before and after every solver call"])
p("C04","Boundary conditions fill ghost cells with exact images only",
 "Applying a boundary condition to a direction sets every ghost cell beside the two faces of that direction to its image: the opposite interior layers (periodic), the mirrored interior layers (copy-out), the mirrored layers with all momentum components reversed (no-slip) or only the normal one reversed (free-slip), or the mirrored layers with the electric field and the normal magnetic component reversed and the tangential magnetic components kept (conducting wall). Interior cells, ghost cells of directions not listed and all other variables stay bitwise unchanged, also when the step fails for lack of memory, and applying it again gives the same result.",
 ["histories","inputs","configurations","fault_sequences"],"all grid sizes with at least 2 cells per direction, all lists of directions, all lists of variables, all data, all histories of steps, swaps and boundary applications, and all allocation failures inside the step",
 T+"in particular no boundary condition.",
 ["src/solver/bc_periodic.cpp","src/solver/bc_copy_out.cpp","src/solver/bc_no_slip.cpp","src/solver/bc_free_slip.cpp","src/solver/bc_conducting_wall.cpp","src/data/extended_datachunk.cpp","src/data/functions.h","src/data/datachunk.cpp"],
 [("layer ranges computed when a variable is sized","src/data/extended_datachunk.cpp resize"),("range copy and range scaling","src/data/functions.h copy_to, src/data/datachunk.cpp multiply_by_scalar")],
 ["ghost and interior cells after every boundary step"])
p("C05","A frame export is complete and faithful, or reports failure",
 "When exporting a frame (a non-empty list of variables) returns normally, the file holds one complete legacy-VTK data set: cell counts, spacing and number of cells of the grid, then for every listed variable in the listed order every component under its name with every interior cell value in x-fastest order, exact to 15 digits. If the file cannot be opened, written completely or closed without error, or a listed variable does not exist or cannot be exported, the export ends with an exception; it reports failure only in these cases, never changes simulation data, and the same export succeeds once the cause is gone.",
 ["fault_sequences","histories","inputs","configurations"],"all sequences of exports and steps, and at every disk call: refused open, short write, interrupted call, I/O error, full disk, failing close; all values including zero, negative, tiny and huge ones; any mix of variables; 1-3 dimensions",
 T+"and none writes a file, so no disk error has ever been seen by the code under test.",
 ["src/variable/variable_manager.cpp","src/variable/variable.cpp","src/data/datachunk.cpp","src/grid/rectilinear.cpp"],
 [("open check, stream-state check after closing","src/variable/variable_manager.cpp write_vtk"),("component loop and row order","src/variable/variable.cpp write_vtk, src/data/datachunk.cpp write_VTK")],
 ["bytes on the simulated disk","outcome of the export call"])
p("C06","Reported frames survive a crash at any later point",
 "If the program dies at any instant (between or inside disk calls, or between two memory accesses of a step), every frame whose export had returned normally is still on disk, complete and unchanged. Exporting or failing to export one frame never alters another frame's file, and a program restarted from scratch exports the same frames again.",
 ["crash_points","histories","fault_sequences"],"all crash points inside and between exports and steps, all frame histories, optionally preceded by disk errors; process crashes only (what was handed to the operating system survives)",
 "No test writes a file or dies; a crash point is a position in an execution that a test cannot choose.",
 ["src/variable/variable_manager.cpp","src/variable/variable.cpp","src/data/datachunk.cpp"],
 [("file is written and closed before the export returns","src/variable/variable_manager.cpp write_vtk"),("one file per export","src/variable/variable_manager.cpp write_vtk")],
 ["bytes on the simulated disk after the crash"])
p("C07","Memory exhaustion never corrupts, leaks or crashes",
 "Whatever allocation fails inside any call (creating variables, solver steps, exports, error reports), the call ends with an exception, all storage acquired by it is released or still owned, and no call ever touches memory outside live storage or releases storage twice. After the failure the inputs of the call are unchanged, the objects remain usable, and repeating the interrupted stage gives the result of an undisturbed run.",
 ["fault_sequences","histories","configurations"],"all positions (single and consecutive) of failing allocations outside parallel loops, in all histories of calls, any schedule, all 1-3 dimensional grids",
 "Tests cannot make the n-th allocation of a call fail, and run without any memory checking.",
 ["src/lib/range.cpp","src/lib/indexer.cpp","src/lib/indexer_interface.h","src/data","src/variable/variable_manager.cpp","src/variable/variable.cpp","src/solver"],
 [("containers own all cell storage","src/lib/indexer_interface.h"),("registry owns variables","src/variable/variable_manager.cpp")],
 ["outcome of calls","allocator ledger","cell values"])
p("C08","The variable registry behaves like a map keyed by name and basis",
 "Requesting a variable for output returns one and the same variable for equal identifiers (name and basis) and different ones otherwise, creates it sized for the grid with all cells zero on first request only, and never disturbs the cells of any other variable. Requesting an identifier that was never created as input, or a known name with different component names, is reported by an exception and changes nothing; a creation that fails leaves the registry as it was. Identifiers are equal exactly when name, component names and basis are, their order is a strict total order consistent with that, and unique names never repeat.",
 ["histories","fault_sequences","inputs"],"all sequences of requests over overlapping names, component lists and bases of different sizes, with steps and failing allocations in between",
 T+"and the registry class is not instantiated by any test.",
 ["src/variable/variable_manager.cpp","src/variable/variable_id.h","src/basis/basis.h","src/variable/variable.cpp","src/data/dataset.cpp"],
 [("ordered map with comparison on name, components, basis","src/variable/variable_id.h operator <, src/basis/basis.h operator <")],
 ["identity and cell values of returned variables","exceptions"])
p("C09","Misuse is refused with an accurate message and no effect",
 "A call that violates its interface (a number of input or output variables the step does not accept, odd swap list, unequal sizes in a copy, swap, pull or charge/mass list, filling a range outside the data, a grid or index query for a direction that does not exist, asking for the address of a cell behind the data, unsupported basis in an export, missing variable, unimplemented synchronisation) ends with the library's exception and changes no cell of any variable. The message of that exception is not empty and stays readable and unchanged for as long as the exception or any copy of it lives, through copying, assignment, re-throwing and any later use of memory.",
 ["histories","fault_sequences","inputs"],"all misuse kinds at any position of a history, kept exceptions read after arbitrary further calls, failing allocations while the error is being reported",
 T+"and whether a message survives later memory use depends on the allocator state at that moment.",
 ["src/lib/exception.h","src/variable/variable_manager.cpp","src/variable/variable.cpp","src/solver","src/data/functions.h","src/lib/indexer_interface.h","src/lib/indexer.cpp","src/lib/range.cpp","src/grid"],
 [("argument checks at the start of every solve","src/solver/*.cpp"),("message owned by the exception object","src/lib/exception.h")],
 ["exceptions and their texts","cell values"])
p("C10","Independent simulations do not influence each other",
 "Simulations with separate variable managers that run concurrently in one process, sharing solver objects, identifiers and the disk, produce exactly the cell values, files, errors and messages each of them produces when it runs alone, also while one of them suffers failures. Unique names handed out to concurrent callers never repeat.",
 ["schedules","histories","fault_sequences"],"all interleavings of 2-4 callers at the granularity of single memory accesses, all step/export histories per caller, faults confined to one caller",
 "No test has more than one thread or more than one simulation.",
 ["src/variable/variable_id.h","src/variable/variable_id.cpp","src/variable/variable_manager.cpp","src/solver"],
 [("solvers are const and keep no mutable shared state","src/solver/*.h"),("tag counter for unique names","src/variable/variable_id.cpp")],
 ["cell values, files and outcomes per caller","names of clones"])
p("C11","A whole run exports every frame exactly once, in order, reproducibly",
 "A simulation program (initial condition, stages with boundary conditions, fluxes, sources, integration, swap, periodic frame export) run end to end produces exactly its announced sequence of frame files, each written once, in order and never reopened, with contents that do not depend on clock behaviour, thread schedule, memory placement or on how often it was crashed and started again. If the disk stops accepting data the program stops with the library's exception at that frame instead of running on, and the frames before it are intact.",
 ["histories","schedules","crash_points","fault_sequences"],"all example programs shipped with the library (truncated after a number of frames by a simulated disk failure or crash) and reduced-size programs of the same shape; any clock, schedule, crash and disk fault",
 "Tests never run a program: the examples take hours, write to absolute paths and read the clock.",
 ["src/example","src/variable/variable_manager.cpp","src/solver"],
 [("frame loop","src/example/*/*.cpp"),("export reports disk errors","src/variable/variable_manager.cpp write_vtk")],
 ["simulated disk: order of opens, contents","outcome of the program"])
p("C12","Results depend on inputs only, not on hidden state",
 "The same program on the same inputs, including every initial-condition generator in 1, 2 and 3 dimensions, gives the same cell values and files whatever stale contents memory and stack hold, wherever the allocator places storage, whatever the clock says, whatever ran before in the process, and whichever optimisation level, vector width, threading and range-check options it is built with.",
 ["configurations","histories","inputs"],"all stale-memory patterns, block placements down to 16-byte alignment, clock behaviours, preceding unrelated work, and the build configurations debug/OpenMP and optimised/vectorised/serial",
 "A test sees one build, one memory layout and whatever the fresh process' memory contains (mostly zeros).",
 ["src/solver/gaussian.cpp","src/solver/magnetic_pulse.cpp","src/solver/radial_shock_tube.cpp","src/solver/shock_tube.cpp","src/solver/brio_wu_shock_tube.cpp","src/solver/electromagnetic_wave_1D.cpp","src/solver/gem_challenge.cpp","src/lib/parallelization.h","src/solver/ssprk3.cpp","src/lib/range.cpp","src/lib/indexer.cpp"],
 [("initialised locals and members","src/solver/*.cpp"),("alignment assumption that the storage really has","src/lib/parallelization.h")],
 ["cell values and files"])
p("C13","Ranges, indexers and divisions agree with integer boxes through any history",
 "Through any history of creating, resizing, assigning, extruding, expanding, shifting and re-bounding ranges, every range is the integer box those operations describe: bounds, lengths, row-major strides, volume, equality, inclusion and the printed lower and upper bounds agree with it, and printing leaves the stream and its settings usable. An indexer over a range inside another meets exactly the cells of the inner range, once each, in row-major order, at their linear positions in the outer one; an empty or a not included range is not walked at all. Dividing a range into any numbers of parts per direction gives parts of non-negative size that lie in it, follow each other in order, do not overlap and cover it, and that are equally long in every direction whose length the number of parts divides. A range operation that runs out of memory leaves every range as it was.",
 ["histories","fault_sequences","inputs"],"all histories over a few ranges of 0-8 dimensions with positive and negative bounds, of up to 2*10^9 cells (the largest are not walked), empty ranges included, all numbers of parts from 1 to more than the length, failing allocations at any position",
 "Tests sample a few fixed ranges once each; none divides a range, changes one repeatedly or runs out of memory.",
 ["src/lib/range.cpp","src/lib/indexer.cpp","src/lib/range_set.cpp","src/lib/indexer_interface.h"],[("bounds, strides and volume kept together","src/lib/range.cpp setup"),("row-major advance with carries","src/lib/indexer.cpp next"),("sizes of the parts rounded up and cut at the end","src/lib/range_set.cpp setup")],["bounds, strides, volumes, texts and comparisons of ranges","positions of indexers","parts of divided ranges"])
p("C14","Initial conditions set every listed variable to its profile and nothing else",
 "Each initial-condition generator (shock tube, radial shock tube, Brio-Wu, GEM challenge, gaussian, magnetic pulse, electromagnetic wave), with its default or any given parameters, on 1-, 2- and 3-dimensional grids, sets every interior cell of each variable it is given to the value of its profile at the cell centre, whatever the variable held before, and every component to it; coordinates in directions the grid does not have count as zero. Every other variable stays bitwise unchanged, and a generator that ran out of memory and is called again gives the same.",
 ["histories","inputs","configurations","fault_sequences"],"all parameters, grids and lists of variables, old contents including infinities and NaN, generators applied one after another and over their own results, failing allocations at any position; cells whose centre lies on a jump within rounding are not specified",
 "Tests run no generator; what a generator leaves unset shows only with particular old contents or grids.",
 ["src/solver/gaussian.cpp","src/solver/magnetic_pulse.cpp","src/solver/shock_tube.cpp","src/solver/radial_shock_tube.cpp","src/solver/brio_wu_shock_tube.cpp","src/solver/gem_challenge.cpp","src/solver/electromagnetic_wave_1D.cpp"],[("profile evaluated at the cell centre in one loop over the interior","src/solver/*.cpp solve"),("cell centres","src/grid/rectilinear.h")],["cell values of all variables after every generator"])
p("C15","Grid cells tile the domain, also when biased, copied or misused",
 "Through any history of creating, copying, assigning and biasing grids, the cells of every grid, whatever index its first cell has, have positive widths which add up to the width of the domain, each centre lies in the middle of its cell, and the extents are those the grid was made with. Linear biasing with power p makes the cell borders follow the p-th root, symmetric biasing mirrors that about the middle; the direction biased last decides about that direction only. Copies are equal and independent of each other. A direction or cell that does not exist, or symmetric biasing of an odd number of cells, is refused with the library's exception and no effect; an assignment for which there is not enough memory leaves the grid as it was.",
 ["histories","inputs","configurations","fault_sequences"],"all extents, cell counts, first indices and powers, all histories over a few uniform and biasable grids of 1-3 dimensions, failing allocations at any position",
 "Tests construct no grid.",
 ["src/grid/rectilinear.cpp","src/grid/rectilinear.h","src/grid/structured.cpp","src/grid/grid.cpp"],[("borders accumulated from normalised widths","src/grid/structured.cpp"),("centre from index","src/grid/rectilinear.cpp xc")],["cell widths and centres of all grids","exceptions"])
p("C16","The schemes converge at their design order",
 "For smooth solutions the error of a run decreases with the design order of the scheme under mesh refinement.",
 ["inputs"],"all smooth solutions","Tests run no solver.",
 ["src/solver"],[("scheme coefficients","src/solver")],["cell values"])
p("C17","Bulk data operations act on exactly the requested cells",
 "Through any history of creating, resizing, assigning, filling, scaling, copying, pulling, swapping, writing out and walking through data chunks (plain and with ghost layers), every chunk holds what a plain map from index tuples to values would hold: an operation on a range changes exactly the cells of that range, in row-major order, an empty range changes nothing, and no other chunk is ever affected. A new chunk holds zeros, an assigned chunk equals its source, an indexer meets every cell of its range exactly once in row-major order, writing out a component over a range gives its values with the first direction running fastest, and the ranges a chunk reports (total, interior, faces, strides, volume) agree with each other. An operation whose ranges or sizes do not match is refused with the library's exception and no effect; when memory runs out the chunk stays usable within the range it reports, can be assigned to another, has an interior and faces within that range, and repeating the operation gives the normal result.",
 ["histories","fault_sequences","inputs"],"all histories over a few chunks of 1-3 mesh dimensions and 1-2 data dimensions with any offsets and 0-8 ghost layers, any values including NaN and infinities, ranges built along different ways, failing allocations at any position; chunks are not copied onto overlapping cells of themselves, and what a chunk holds after being resized again is not specified",
 "The tests check single indexers and ranges; no test touches a chunk, a sequence of operations or a failing allocation.",
 ["src/data/datachunk.cpp","src/data/extended_datachunk.cpp","src/data/functions.h","src/lib/indexer_interface.h","src/lib/indexer.cpp","src/lib/range.cpp"],
 [("row-major storage addressed through strides","src/lib/range.cpp setup, src/lib/indexer.cpp"),("range and data change together","src/lib/indexer_interface.h resize")],
 ["cell values","ranges","indexer positions","exceptions"])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
