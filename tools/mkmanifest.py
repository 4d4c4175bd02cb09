import json
N = {
'C01': ('deterministic simulation: seeded thread schedules of the real OpenMP loops against a serial run of the same call', 'Sampled schedules (random, rare-switch, conflict-directed) on teams of 2-16 simulated threads, bitwise comparison after every call. Assumes sequentially consistent memory and switches only at instrumented accesses.'),
'C02': ('deterministic simulation: conservation invariants over seeded histories with failing allocations and schedules', 'Sums checked after every complete step of seeded histories, tolerance far above rounding and far below one lost flux. Samples grids up to a few dozen cells per direction.'),
'C03': ('deterministic simulation: refinement against a sequential reference model under schedules and faults', 'Every call of seeded histories compared cell by cell with an independently written model of the scheme. Ill-conditioned limiter cells are compared with a wider tolerance or skipped and counted.'),
'C04': ('deterministic simulation: boundary calls with failing allocations against an image model', 'Every ghost, interior and foreign cell compared after every boundary call of seeded histories, including calls interrupted by failing allocations and repeated. Edge and corner ghosts are not specified.'),
'C05': ('deterministic simulation: exports on a simulated disk with injected I/O faults, file parsed by an independent reader', 'Open, write, flush and close faults, full disk, short and interrupted writes, failing allocations at seeded points; exact comparison of the file with the cells.'),
'C06': ('deterministic simulation: crash and restart at seeded disk calls and memory accesses', 'Whole programs crashed at sampled points; the surviving disk is compared with what had been acknowledged. The simulated disk is write-through: power-loss reordering below the system call is not modelled, since the code never syncs.'),
'C07': ('deterministic simulation: seeded allocation failures with bounds, lifetime and leak checking and retry', 'Allocations fail at sampled positions of every kind of call; storage checked on every instrumented access; result after retry compared bitwise with an undisturbed run.'),
'C08': ('deterministic simulation: registry histories with failing allocations against a map model', 'Seeded histories over many identifiers (names, bases, clashing components, missing ones), every variable compared after every call.'),
'C09': ('deterministic simulation: misuse and exception-lifetime histories between other uses of memory', '64 kinds of misuse, kept exceptions reread after seeded reuse of memory and failing allocations; all cells compared.'),
'C10': ('deterministic simulation: concurrent simulations in one process under seeded schedules and faults against each alone', 'Values, files, errors and messages of 2-4 interleaved simulations compared with isolated runs; assumes sequentially consistent memory.'),
'C11': ('deterministic simulation: whole programs end to end with clock, schedule, memory, crash and disk faults', 'Sampled programs of the kind the examples contain, every frame file compared bytewise with the undisturbed run and parsed.'),
'C12': ('deterministic simulation: the same program in seeded environments (stale memory, stack, placement, clock, prior work) and in an optimised build', 'Bitwise comparison between environments and tight comparison with the -O3 vector build; samples programs, dimensions and environments.'),
'C13': ('deterministic simulation: histories of range, indexer and division calls with failing allocations against an integer-box model', 'Seeded histories over up to seven ranges of 0-5 dimensions, every range (bounds, strides, volume, printed text) compared after every call; walks and divisions compared cell by cell.'),
'C14': ('deterministic simulation: initial-condition generators over wild old contents with failing allocations and schedules against reference profiles', 'Seeded histories of generators, every interior cell compared with an independently written profile, all other variables bitwise; cells on a jump within rounding are skipped and counted.'),
'C15': ('deterministic simulation: histories of grid creation, copying, biasing and misuse with failing allocations against a geometry model', 'Seeded histories over up to four grids; every width, centre and extent of every grid compared after every call.'),
'C17': ('deterministic simulation: histories of bulk data operations with failing allocations against a map model', 'Seeded histories over up to four chunks, every cell and range of every chunk compared after every call, storage checked on every instrumented access.'),
}
na = {
'C16': 'A statement about a limit of grid refinement without schedule, time, I/O or faults; per-step correctness is C03.',
}
m = {'version': 1, 'setup_cmd': 'python3 check.py setup',
 'hooks': {'guard': 'none', 'enable': 'No hook in /repo: the seams are the compiler instrumentation (-fsanitize=thread call-outs), the libgomp, libc and operator new symbols, replaced at link time in /verif/sim.', 'source_commits': []},
 'checks': [{'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p, 'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'exploration', 'level_note': n} for p, (t, n) in sorted(N.items())],
 'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(na.items())]}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
