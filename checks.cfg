# -*- python -*-  which harness and which repository sources decide which property
EXPLAIN = {}; TECH = {}; NOTE = {}; NA = {}
ASSUME = {'*': ['IEEE arithmetic of this machine; tolerances are stated in DESIGN.md']}

reg('poly.cpp', ['src/convexpolygon.cpp'], 'C01', 'C02')
TECH['C01'] = 'exhaustive enumeration of all point lists on small grids on the real code, against an exact integer hull'
NOTE['C01'] = 'All ordered point lists with repetitions over 2x2..4x4 grids up to a length, at several scales and offsets, both precisions, and polygons of up to 48 sides; oracle: exact integer arithmetic.'
TECH['C02'] = 'exhaustive enumeration of all small polygons and all probe points on the real code'
NOTE['C02'] = 'All polygons spanned by small grids times every probe point of a finer grid, and polygons of up to 48 sides; oracle: exact half-plane tests.'

reg('models.cpp', uniq(CORE, MODELS), 'D01', 'D02', 'D03', 'I01')
TECH['D01'] = 'exhaustive enumeration of configurations and of a basis of states and commands, against step-by-step integration'
NOTE['D01'] = 'The predictions are affine, so a basis of states and commands decides all of them; horizons, periods, subdivisions, heights, gravities and masses are enumerated over finite sets.'
TECH['D02'] = 'exhaustive enumeration of configurations and of all small integer matrices'
NOTE['D02'] = 'Matrices that have no inverse to working precision are not judged (threshold in DESIGN.md).'
TECH['D03'] = 'bounded exhaustive exploration of all setter sequences on the real models, with a fresh model as reference'
NOTE['D03'] = 'All sequences over the full setter alphabet up to a depth, in both precisions.'
TECH['I01'] = 'exhaustive enumeration of boundary states and of all splits of the flight into increments'
NOTE['I01'] = 'Every combination of boundary states over a small set that includes rest and coinciding ends, on the interpolator and on the foot model; all compositions of a duration into increments up to a bound, with targets elsewhere, at the present position, and moving.'

reg(['traj.cpp', 'qp.cpp'], TRAJ, 'T01', 'T02', 'T03')
TECH['T01'] = TECH['T02'] = TECH['T03'] = 'bounded exhaustive exploration of all call histories of the real generator against a recording solver, with a reference model in lock step'
NOTE['T01'] = 'All sequences over 24 calls up to a depth, and all sequences over 54 calls that change one number each, from three starting points, plus a product of configurations; the recorded problem is compared with an independently integrated cost.'
NOTE['T02'] = 'Same histories; the recorded constraints and the reference limits are compared as sets of plans (half-space matching, otherwise an exact search for a witness plan).'
NOTE['T03'] = 'Same histories; published state, jerk and result after every solve, for several solver answers including failures.'

reg(['zeb.cpp', 'qp.cpp'], ZEB, 'Z01', 'Z02', 'Z03', 'Z04', 'Z05')
for z in ('Z01', 'Z02', 'Z03', 'Z04', 'Z05'):
    TECH[z] = 'bounded exhaustive exploration of all call histories of the real generator against a recording solver, with a reference model in lock step'
NOTE['Z01'] = 'All sequences over 49 calls up to a depth, and all pairs of 131 calls that change one number each, with and without a solve between, from three starting points, plus a product of configurations; the recorded cost is compared with an independently integrated one (tilt: step-wise solution of the tilting equation).'
NOTE['Z02'] = 'Same histories; constraint sets compared as sets of plans. The mirrored polygon is a known finding and is told apart from every other difference.'
NOTE['Z03'] = 'Same histories; constraint sets compared as sets of plans.'
NOTE['Z04'] = 'Same histories; after each, the problem is compared with that of a fresh generator given only the final parameters.'
NOTE['Z05'] = 'Same histories; published states and result after every solve, including failed ones.'

reg('sup.cpp', SUP, 'H01', 'H02', 'H03')
for h in ('H01', 'H02', 'H03'):
    TECH[h] = 'bounded exhaustive exploration of all placements of start, stop, timing and solver events in the walk, on the real feet supervisor in lock step with a reference schedule in integer time'
NOTE['H01'] = 'Every placement of up to two (three on small configurations) commands over the walk, every command sequence up to a depth, over a product of horizons, step periods, double supports, periods and control subdivisions.'
NOTE['H02'] = 'Same histories; the plan is followed value by value as the solver moves it, across dropped, kept, cut and appended steps.'
NOTE['H03'] = 'Same histories (the step period is left alone during a flight); both feet are followed at every control cycle.'
reg(['hum.cpp', 'qp.cpp'], HUM, 'H04', 'H05', 'H06', 'H07', 'H08', 'E01')
reg(['loop.cpp', 'traj.cpp', 'zeb.cpp', 'qp.cpp'], uniq(CORE, TRAJ, ZEB), 'E02')
reg(['solver_double.cpp', 'solver_float.cpp'], [], 'S01')
reg(['mem.cpp', 'traj.cpp', 'zeb.cpp', 'hum.cpp', 'models.cpp', 'qp.cpp'], uniq(CORE, MODELS, TRAJ, ZEB, HUM), 'S02', 'R01')
reg('par.cpp', uniq(CORE, MODELS, TRAJ, ZEB, HUM), 'R02')
INSTRUMENT['R02'] = ['-fsanitize-coverage=trace-pc']
reg(['san.cpp', 'traj.cpp', 'zeb.cpp', 'hum.cpp', 'models.cpp', 'qp.cpp'], uniq(CORE, MODELS, TRAJ, ZEB, HUM), 'R03')
SANITIZE['R03'] = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=undefined']
reg(['norm.cpp', 'traj.cpp', 'zeb.cpp', 'hum.cpp', 'qp.cpp'], uniq(CORE, TRAJ, ZEB, HUM), 'S03')
TECH['R02'] = 'exhaustive exploration of all schedules of two threads with one switch, at basic-block granularity, on the real code under a controlled scheduler'
NOTE['R02'] = 'The switch is tried at the first and last passage of each call through each basic block, from construction to destruction, in a warm process and in a process that has not used the library yet. Not covered: two switches inside one schedule that a single one cannot reproduce, and weak memory effects.'
TECH['R03'] = 'bounded exhaustive exploration of all call histories of the real code under address and undefined-behaviour monitors, with an account of the bytes in use'
NOTE['R03'] = 'Histories of the R01 check (all generators and models), polygons and long periodic uses; every history is run three times and must leave nothing behind.'
WALK = 'bounded exhaustive exploration of all placements of commands, timing changes and solver outcomes in a walk, on the real humanoid generator against a recording solver, with a reference gait and pendulum in lock step'
for h in ('H04', 'H05', 'H06', 'H07', 'H08'): TECH[h] = WALK
NOTE['H04'] = 'Every event at every cycle, every pair of events, every sequence up to a depth, every pair of 63 events that change one number each, and a product of configurations; the recorded cost is compared with one integrated independently along the reference schedule.'
NOTE['H05'] = 'Same walks; the recorded constraints and the support polygons are compared as sets of plans (half-space matching, otherwise an exact search for a witness plan).'
NOTE['H06'] = 'Same walks; the recorded constraints and the reach polygons are compared as sets of plans.'
NOTE['H07'] = 'Same walks; centre of mass, support state and plan after every solve, for several solver answers including failures.'
NOTE['H08'] = 'Same walks, plus every sequence of configuration calls up to a depth from three starting points.'
TECH['E01'] = 'exhaustive exploration of all command histories at the decision points of a walk, the real generator in closed loop with an exact solver'
NOTE['E01'] = 'Five commands (none, start or stop, three speeds) at each of four decision points (five in the thorough tier), six configurations, plus a stop and a change of speed at every single cycle, each followed by a stop and five seconds of rest.'
TECH['E02'] = 'exhaustive exploration of all event sequences up to a depth, the real generators in closed loop with an exact solver, with the optimum of an independent reference problem in lock step'
NOTE['E02'] = 'Fourteen and 25 events, every sequence of four (trajectory) and three (wheeled robot), pairs of events at several distances; double precision. Runs stop where the motion diverges or where existence of a plan hangs on rounding. The polygons are symmetric (Z02 known finding).'
TECH['S01'] = 'exhaustive exploration of all sequences of optimiser outcomes, on the real wrapper with a scripted optimiser'
NOTE['S01'] = 'Every sequence of return codes of init, hotstart and getPrimalSolution up to a depth, times warm start and diagnostics. qpOASES itself is not installed: a stand-in class with its interface returns the scripted codes.'
TECH['S02'] = 'bounded exhaustive exploration of all call histories of the real generators against a recording solver'
NOTE['S02'] = 'At every warm start the matrices are compared with those the same solver was initialised with.'
TECH['S03'] = 'exhaustive enumeration of all small problems, and of all problems the generators build along bounded call histories'
NOTE['S03'] = 'Every matrix over a small value set, both precisions; and the problems of all generators, cost, bounds and rows together, against independently computed ones.'
TECH['R01'] = 'exhaustive exploration of bounded call histories, each executed under several memory contents and interleavings with another instance, compared bit by bit'
NOTE['R01'] = 'Objects are placed in memory filled with chosen bytes, with the unused stack filled as well; a second instance with another configuration, in either precision, runs between any two calls.'
