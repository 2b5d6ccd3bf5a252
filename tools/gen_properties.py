#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=observe, hook_needed=hook)))

HW='src/humanoid_walkgen.cpp'; FS='src/humanoid_feet_supervisor.cpp'; ZW='src/zebulon_walkgen.cpp'; TW='src/trajectory_walkgen.cpp'
F='src/function/'; M='src/model/'

prop('C01','The polygon of a point set is exactly its convex hull',
 'For every finite set of planar points, in any order and with repetitions, collinear runs or fewer than three distinct points, building a convex polygon terminates without failure and its vertices are exactly the extreme points of the set, each listed once (points closer than the library tolerance of 1e-4 count as one). The vertices are in counter-clockwise order, starting from the lowest (and, among the lowest, leftmost) point.',
 ['inputs'],'every list of points over small integer grids (all orderings, duplicates, collinear and degenerate cases) up to a list length, at several scales and offsets, in both precisions',
 'The tests build a handful of fixed polygons; degenerate lists, orderings and duplicates are a combinatorial space.',
 ['src/convexpolygon.cpp','mpc-walkgen/convexpolygon.h'],[('gift wrapping','src/convexpolygon.cpp extractVertices'),('next vertex choice','src/convexpolygon.cpp getIndexOfSmallestAngleVertice')],
 ['ConvexPolygon::getVertices','ConvexPolygon::extractVertices','ConvexPolygon::getNbVertices'])

prop('C02','Polygon inequalities hold exactly for the points of the polygon',
 'For every polygon with a non-empty interior, a point satisfies all the axis bounds and linear inequalities that the polygon publishes if and only if the point lies inside or on the border of the polygon.',
 ['inputs'],'every polygon spanned by small grid point sets, every probe point of a finer surrounding grid, both precisions, several scales',
 'Tests compare coefficient values for a few polygons; membership equivalence is over all polygons and all points.',
 ['src/convexpolygon.cpp','mpc-walkgen/convexpolygon.h'],[('edge to bound/inequality conversion','src/convexpolygon.cpp computeBoundsAndGeneralConstraintValues')],
 ['ConvexPolygon bounds and general-constraint getters'])

prop('D01','Preview matrices reproduce step-by-step integration of the motion',
 'For every model (pendulum, base, point without dynamics), sampling period, feedback offset, horizon, state and command sequence, the predicted positions, velocities, accelerations and centre of pressure over the horizon equal those obtained by integrating the piecewise constant command step by step from that state. The first interval lasts until the next sample and all the following ones last one sampling period.',
 ['inputs','configurations'],'all horizons up to a bound, all feedback subdivisions, all periods/heights/masses/gravities of a finite set, and a basis of states and commands (the prediction is linear, so the basis decides every state and command)',
 'Tests check a few entries or a few horizons, always for one state and one command sequence.',
 ['src/tools.cpp',M+'lip_model.cpp',M+'zebulon_base_model.cpp',M+'no_dynamic_model.cpp'],[('constant-jerk matrices','src/tools.cpp ConstantJerkDynamic'),('per-feedback-offset matrix families','src/model/lip_model.cpp')],
 ['linear dynamics getters of every model','updateState* of every model'])

prop('D02','Published inverse and transposed preview matrices are true inverses',
 'Whenever a preview dynamic publishes an inverse or a transpose of its command matrix, the inverse composed with the matrix is the identity and the transpose is its exact transpose, for every horizon, sampling period and feedback offset. This holds to working precision, whenever the matrix has an inverse to working precision, entries of the inverse below the tolerance of 1e-4 being rounded to zero. The general matrix inversion helpers return an inverse for every well-conditioned matrix and a pseudo-inverse for the rest.',
 ['inputs','configurations'],'all horizons up to a bound, all feedback subdivisions and periods of a finite set, all dynamics of all models; for the helpers, all small integer matrices of bounded entries',
 'Tests check the inverse for at most one horizon with equal feedback and sampling periods.',
 ['src/tools.cpp','mpc-walkgen/tools.h','src/lineardynamic.cpp',M+'lip_model.cpp'],[('closed-form inverses','src/tools.cpp'),('inverseLU / inverseSVD','mpc-walkgen/tools.h')],
 ['LinearDynamic fields through the model getters','Tools::inverseLU','Tools::inverseSVD'])

prop('D03','Model predictions depend only on current parameters, not on history',
 'After any sequence of parameter changes on a motion model, in any order, its predictions are identical to those of a freshly created model that was given only the final parameters. The state of the model is changed only by setting or advancing the state. A copy of a model publishes what the original published when it was copied and is independent of it.',
 ['histories','configurations'],'all sequences of setter calls (each parameter, two or three values) up to a depth, starting from default and from configured models',
 'Tests set each parameter once, in one order.',
 [M+'lip_model.cpp',M+'zebulon_base_model.cpp',M+'no_dynamic_model.cpp',M+'humanoid_foot_model.cpp'],[('recomputation on parameter change','computeDynamics/computeConstantPart in each model')],
 ['linear dynamics and parameter getters of every model'])

prop('I01','Foot trajectories meet their boundary conditions smoothly',
 'For every initial position, velocity and acceleration, final position, velocity and acceleration, and duration, the interpolated trajectory starts and ends exactly in those states and is twice continuously differentiable in between. A foot advanced in small increments toward a target reaches the target at rest at the landing time, for every split of the remaining time into increments.',
 ['inputs','histories'],'every combination of boundary states over a small value set times a set of durations; every composition of a duration into increments up to a bound, from every such state, with the target changed mid-way, equal to the present position, or moving',
 'Tests check one interpolation.',
 ['src/interpolator.cpp',M+'humanoid_foot_model.cpp'],[('three-piece cubic interpolation','src/interpolator.cpp'),('state update','src/model/humanoid_foot_model.cpp')],
 ['Interpolator::computePolynomialNormalisedFactors/selectFactors','HumanoidFootModel::updateState*'])

prop('T01','The trajectory generator minimises exactly its stated cost',
 'At every solve, the quadratic cost handed to the solver is, up to a positive factor and a constant, the weighted sum of the squared differences between the previewed and reference velocities and positions and of the squared jerks of the planned trajectory. A weight of zero removes its term, and the references, weights and state in force are those set last.',
 ['histories','configurations','inputs'],'all call histories (set state, references, weights, horizon, period, solve) up to a depth over small value sets, with a solver that answers each of several plans',
 'No existing test runs the generator; objective tests evaluate isolated gradients at one point.',
 [TW,F+'trajectory_jerk_minimization_objective.cpp',F+'trajectory_velocity_tracking_objective.cpp',F+'trajectory_position_tracking_objective.cpp'],[('QP assembly','src/trajectory_walkgen.cpp solve')],
 ['the problem handed to the QP solver','TrajectoryWalkgen getters'])

prop('T02','A trajectory plan is admissible exactly when it respects its limits',
 'With motion limits enabled, a plan satisfies the constraints handed to the solver if and only if at every sample of the horizon the magnitude of the velocity, acceleration and jerk is at most its limit; with motion limits disabled, no plan is excluded.',
 ['histories','configurations','inputs'],'all limit/horizon/period/state settings of a finite set and histories of changes up to a depth; every plan of a grid of plans on both sides of each limit',
 'No existing test runs the generator or its constraint.',
 [TW,F+'trajectory_motion_constraint.cpp'],[('bounds and rows','src/trajectory_walkgen.cpp solve'),('constraint function','src/function/trajectory_motion_constraint.cpp')],
 ['the problem handed to the QP solver'])

prop('T03','The trajectory state advances by the first planned jerk',
 'After a solve, the published state is the previous state integrated over the feedback period under the first jerk of the plan chosen by the solver, the published jerk is that jerk, and the solve reports success exactly when the solver did. Plans accumulate solver corrections from one solve to the next until the horizon is changed; a solve whose solver fails without proposing a correction leaves the plan as it was.',
 ['histories','fault_sequences'],'all histories of solves, state resets and solver outcomes (success/failure, several corrections) up to a depth',
 'No existing test runs the generator.',
 [TW,M+'no_dynamic_model.cpp'],[('state update','src/trajectory_walkgen.cpp solve')],
 ['TrajectoryWalkgen::getState/getJerk','return value of solve'])

prop('Z01','The wheeled-robot generator minimises exactly its stated cost',
 'At every solve, the quadratic cost handed to the solver is, up to a positive factor and a constant, the weighted sum of squared errors of base velocity, base position, centre of pressure and centre of mass with respect to their references, of squared jerks, and of squared tilt angles and tilt velocities previewed by the tilting dynamics. A zero weight removes its term, and world-frame and local-frame references describe the same cost when they describe the same motion.',
 ['histories','configurations','inputs'],'all weight combinations, states, references, masses, heights and gravities of finite sets including inclined gravity, horizons up to a bound, with several solver answers',
 'Objective tests evaluate one or two configurations with vertical gravity; tilt objectives have no test, and the generator itself is never run.',
 [ZW,F+'zebulon_tilt_minimization_objective.cpp',F+'zebulon_tilt_velocity_minimization_objective.cpp',F+'zebulon_cop_centering_objective.cpp',F+'zebulon_com_centering_objective.cpp',F+'zebulon_jerk_minimization_objective.cpp',F+'zebulon_base_velocity_tracking_objective.cpp',F+'zebulon_base_position_tracking_objective.cpp'],[('QP assembly','src/zebulon_walkgen.cpp solve')],
 ['the problem handed to the QP solver'])

prop('Z02','A wheeled-robot plan is admissible exactly when it stays in support',
 'With centre-of-pressure (respectively centre-of-mass) constraints enabled, a plan satisfies those constraints if and only if at every sample the previewed centre of pressure (respectively centre of mass) relative to the base lies in the configured polygon. Disabled constraints exclude no plan.',
 ['histories','configurations','inputs'],'all polygons/heights/masses/gravities/horizons of finite sets, setter orders, and a grid of plans on both sides of each edge at each sample',
 'Constraint tests evaluate one polygon and one plan; the generator itself is never run.',
 [ZW,F+'zebulon_cop_constraint.cpp',F+'zebulon_com_constraint.cpp'],[('constraint assembly','src/zebulon_walkgen.cpp solve')],
 ['the problem handed to the QP solver'])

prop('Z03','A wheeled-robot plan is admissible exactly when base limits hold',
 'With base motion constraints enabled, a plan satisfies them if and only if at every sample the base velocity, acceleration and jerk along each axis stay within plus or minus their limits. With tilt motion constraints enabled, a plan satisfies them if and only if at every sample the velocities of the base and of the centre of mass are directed along the heading of the base. Disabled constraints exclude no plan.',
 ['histories','configurations','inputs'],'all limits/horizons/periods/states of finite sets, histories of limit changes, and a grid of plans on both sides of each limit',
 'The constraint test evaluates one plan.',
 [ZW,F+'zebulon_base_motion_constraint.cpp'],[('constraint assembly','src/zebulon_walkgen.cpp solve')],
 ['the problem handed to the QP solver'])

prop('Z04','Reconfiguring the wheeled-robot generator never depends on history',
 'After any sequence of parameter changes, in any valid order and at any time between solves, the next solve completes without failure and hands to the solver the same problem as a fresh generator that was given only the final parameters and state, with a solver sized for that problem.',
 ['histories','configurations'],'all sequences of setter calls with two or three values each up to a depth, before and between solves',
 'No test runs the generator; parameter interactions are order dependent.',
 [ZW,M+'lip_model.cpp',M+'zebulon_base_model.cpp'],[('recomputation of cached parts','src/zebulon_walkgen.cpp setters and computeConstantPart')],
 ['the problem handed to the QP solver','process termination'])

prop('Z05','The wheeled-robot state advances by the first planned jerks',
 'After a solve, the published base and centre-of-mass states along both axes are the previous ones integrated over the feedback period under the first jerks of the plan chosen by the solver, and the solve reports success exactly when the solver did. A solve whose solver fails without proposing a correction leaves the plan as it was.',
 ['histories','fault_sequences'],'all histories of solves, state resets and solver outcomes up to a depth',
 'No existing test runs the generator.',
 [ZW,M+'lip_model.cpp',M+'zebulon_base_model.cpp'],[('state update','src/zebulon_walkgen.cpp solve')],
 ['getBaseState*/getComState*','return value of solve'])

prop('H01','The gait schedule alternates phases and maps every sample to its foot',
 'For every history of start and stop commands and every timing configuration, support phases follow the order double support, left support, right support, left support and so on until a stop returns to double support, each lasting its configured duration. At every control cycle each previewed sample is assigned to exactly one support foot, either the current one or one previewed footstep, namely the one active just after that sample, and the number of previewed footsteps is the number of single-support ends within the horizon.',
 ['histories','configurations'],'every reachable state of the gait schedule under all start/stop commands at every control cycle, for a set of sampling/feedback/step/double-support periods and horizons, to a fixed point; every transition replayed on the implementation',
 'The only test of the supervisor is a smoke test of one walk.',
 [FS],[('timeline update','src/humanoid_feet_supervisor.cpp updateTimeline/processFSM'),('selection matrices','src/humanoid_feet_supervisor.cpp computeSelectionMatrix')],
 ['HumanoidFeetSupervisor getters: selection matrices, number of previewed steps, double-support flag, sample weights, calls before next sample'],
 state=[('timeline_','current and previewed phases',FS),('timeToNextPhase_','time left in the current phase',FS)])

prop('H02','Planned footsteps are carried over when the gait schedule moves on',
 'When a step is completed its landing position leaves the plan and all the others keep their value and order; when a new step enters the horizon it is appended one nominal stride after the last planned one and the others are unchanged; after a stop only the steps still to be made remain. The plan always holds exactly one x and one y coordinate per previewed footstep, and the centre-of-pressure part of the plan is left unchanged.',
 ['histories','configurations'],'the same exhaustive gait exploration as the schedule, with distinct recognisable values in the plan, plus changes of step duration mid-walk',
 'No test checks the plan.',
 [FS,HW],[('shortenStepVec/enlargeStepVec','src/humanoid_feet_supervisor.cpp')],
 ['the plan vector passed to updateTimeline','the size of the problem handed to the QP solver'])

prop('H03','Support feet never move and swing feet land where planned',
 'During every control cycle a foot that supports the robot keeps its position exactly, and a swinging foot lands at ground level, at rest, at the position last planned for it, exactly when its step ends. A swinging foot goes up to its configured maximum height at mid-flight and never goes below the ground or above that height.',
 ['histories','configurations'],'all start/stop histories over whole walks with plan changes at every cycle from a small alphabet, for a set of timing configurations',
 'No test checks foot motion of a walk.',
 [FS,M+'humanoid_foot_model.cpp','src/interpolator.cpp'],[('feet update','src/humanoid_feet_supervisor.cpp updateFeetStates')],
 ['left/right foot state getters after each control cycle'])

prop('H04','The humanoid generator minimises exactly its stated cost',
 'At every solve of every walk, the quadratic cost handed to the solver is, up to a positive factor and a constant, the weighted sum over the previewed samples (the first one weighted by its remaining share of the sampling period, the last one by 1.05 minus that share) of squared centre-of-mass velocity errors and jerks and of squared distances of the centre of pressure to its support reference. The previewed motion is that of the pendulum whose centre of pressure follows the plan relative to the scheduled support feet.',
 ['histories','configurations','inputs'],'all start/stop histories up to a depth from default and walking states, all weight combinations, several states/references and solver answers, for a set of timing configurations',
 'Objective tests evaluate a fixed double-support state; the generator is never run.',
 [HW,F+'humanoid_lip_com_velocity_tracking_objective.cpp',F+'humanoid_lip_com_jerk_minimization_objective.cpp',F+'humanoid_cop_centering_objective.cpp'],[('QP assembly','src/humanoid_walkgen.cpp solve')],
 ['the problem handed to the QP solver'])

prop('H05','A humanoid plan is admissible exactly when its CoP stays in support',
 'With centre-of-pressure constraints enabled, a plan satisfies them if and only if at every previewed sample the planned centre of pressure, relative to its support reference, lies in the polygon of the foot that supports at that sample, or in the hull of both feet in double support. Disabled constraints exclude no plan.',
 ['histories','configurations','inputs'],'all start/stop histories up to a depth, several polygon pairs (with axis-parallel and oblique edges) and foot placements, and a grid of centres of pressure around every edge at every sample',
 'The constraint test evaluates one plan in one double-support state.',
 [HW,FS,F+'humanoid_cop_constraint.cpp'],[('CoP constraint','src/function/humanoid_cop_constraint.cpp'),('double support polygon','src/humanoid_feet_supervisor.cpp computeDSCopConvexPolygon')],
 ['the problem handed to the QP solver'])

prop('H06','Planned footsteps are constrained to the reachable polygon of each step',
 'With foot-placement constraints enabled, a plan satisfies them if and only if, for every previewed step, the planned footstep minus the previous planned one (or minus the current support foot for the first step) lies in the reachable polygon of the foot that supports during that step. Disabled constraints exclude no plan.',
 ['histories','configurations','inputs'],'all start/stop histories up to a depth, several polygon pairs and foot placements, a grid of footsteps around every edge for every step',
 'The constraint test evaluates one state.',
 [HW,FS,F+'humanoid_foot_constraint.cpp'],[('foot constraint','src/function/humanoid_foot_constraint.cpp')],
 ['the problem handed to the QP solver'])

prop('H07','The centre of mass moves so that the planned centre of pressure is met',
 'After every solve of a walk, the centre-of-mass state is the previous one integrated over the feedback period under the first jerk of the motion whose centre of pressure at every sample equals the planned one, and the solve reports success exactly when the solver did. The published support state and the plan are those of the schedule at that cycle. A solve whose solver fails without proposing a correction goes on with the plan as it was.',
 ['histories','fault_sequences'],'all start/stop histories up to a depth with several solver answers including failures, for a set of timing configurations and heights',
 'The generator is never run by tests.',
 [HW,M+'lip_model.cpp'],[('CoP to jerk conversion','src/humanoid_walkgen.cpp convertCopInLFtoComJerk')],
 ['getComStateX/Y','return value of solve'])

prop('H08','The humanoid generator never fails and always uses a solver of the right size',
 'For every history of configuration, polygon, timing, start, stop and solve calls that respects the documented preconditions, every solve completes without crash or assertion failure and hands its problem to a solver created for exactly that number of variables and constraints.',
 ['histories','configurations'],'all call sequences over a small alphabet up to a depth, from the initial state and from walking states',
 'The generator is never run by tests.',
 [HW,FS],[('solver table','src/humanoid_walkgen.cpp computeConstantPart')],
 ['solver factory calls and solver invocations','process termination'])

prop('S01','The reported solve outcome is the true solver outcome',
 'A solve reports success if and only if the underlying optimiser reported that it found a solution, whether or not diagnostics are requested, for cold and warm starts and in both precisions, and a successful solve delivers the optimiser\'s solution. Diagnostics never change the outcome and are only written when requested.',
 ['fault_sequences','configurations'],'every sequence up to a depth of optimiser return codes at initialisation and hot start, times warm-start and diagnostic options',
 'The optimiser wrapper is not built by the tests, so no test reaches its failure paths.',
 ['qpsolver/src/qpsolver_qpoases.hxx','qpsolver/src/qpsolver_qpoases_double.cpp','qpsolver/src/qpsolver_qpoases_float.cpp'],[('result mapping','qpsolver/src/qpsolver_qpoases.hxx solve')],
 ['QPSolver::solve return value, solution and stream'])

prop('S02','Warm starts are only requested for an unchanged problem structure',
 'Whenever a generator asks for a warm start from a solver that was already initialised, the cost matrix and the constraint matrix are the same as those the solver was last initialised with, so that ignoring them is harmless, and the matrices it was initialised with are still intact in the memory where they were handed over (qpOASES keeps pointers to them); this holds for every history of reconfigurations and solves.',
 ['histories','configurations'],'all histories of setters and solves up to a depth for the three generators',
 'The generators are never run by tests.',
 [TW,ZW,HW,'qpsolver/src/qpsolver_qpoases.hxx'],[('solver recreation on reconfiguration','computeConstantPart of each generator'),('hot start','qpsolver/src/qpsolver_qpoases.hxx')],
 ['QPSolver::solve arguments'])

prop('S03','Normalising a problem never changes its solutions',
 'For every problem, normalisation multiplies the cost by one positive factor and the constraint rows and their bounds by one positive factor, leaves the variable bounds alone and never produces a non-finite value, so that the set of admissible points and the minimisers are unchanged; no matrix entry that is significantly different from zero ends with a magnitude below one.',
 ['inputs'],'all problems with entries from a small value set (zero, tiny, small, unit, large, negative) and small dimensions, including no constraint rows',
 'No test covers normalisation.',
 ['qpsolver/mpc-walkgen/qpsolver.h',ZW,HW],[('normalizeMatrices','qpsolver/mpc-walkgen/qpsolver.h')],
 ['QPMatrices fields before and after'])

prop('R01','Results depend only on the calls made, never on memory or other instances',
 'Two generators given the same sequence of calls produce identical results, whatever the previous content of the memory they were created in, and whatever other instances do in between; every value used was set by a constructor or by a call.',
 ['histories','configurations'],'all call histories of a small alphabet up to a depth for every model and generator, each run under different memory fill patterns and interleaved with a second, differently configured instance',
 'Tests run each object once, with whatever memory content the allocator returns.',
 [TW,ZW,HW,FS,M+'zebulon_base_model.cpp',M+'lip_model.cpp'],[('constructors','constructors of all models and generators')],
 ['all getters and problems handed to the QP solver'])

prop('R02','Instances used by different threads do not disturb each other',
 'Two threads that each use their own instances (generators, models, interpolators, polygons, in either precision) get exactly the results each gets alone, wherever one of them is interrupted in favour of the other, also while the library is used for the first time in a process. The library has no state shared between instances that an interruption could reveal.',
 ['schedules','histories'],'all schedules with one switch between two threads, at the first and the last passage of every call through every basic block of the library',
 'Tests are single-threaded; a shared scratch buffer, cache or table works for them.',
 [TW,ZW,HW,FS,'src/tools.cpp','src/convexpolygon.cpp','src/interpolator.cpp'],[('whole library','every basic block of src/ and of the headers used there')],
 ['all getters and problems handed to the QP solver'])

prop('R03','No history touches foreign memory, and none keeps memory for nothing',
 'Along every history of calls that respects the documented preconditions the library reads and writes only memory that belongs to living objects, and executes no undefined operation (overflowing integers, misaligned or null accesses, conversions out of range). When an instance (generator, model, polygon) is destroyed, everything it held is given back, QP solvers included; the QP solvers a reconfiguration replaces are given back at that point; and an instance that goes through the same calls again and again does not need more and more memory.',
 ['histories','configurations'],'all call histories of bounded depth for every model and generator, all polygons of up to five points of a grid, and long periodic uses of each kind of instance',
 'Tests do not run under a monitor, use each instance once, and never for long.',
 [TW,ZW,HW,FS,'src/convexpolygon.cpp','src/interpolator.cpp','qpsolver/mpc-walkgen/qpsolver.h'],[('solver ownership','qpoasesSolver_, qpoasesSolverVec_'),('timeline of phases','src/humanoid_feet_supervisor.cpp updateTimeline')],
 ['memory accesses','bytes in use before and after the life of an instance'])

prop('E01','With an exact solver, closed-loop walking keeps balance and lands feet in reach',
 'When every problem is solved exactly, then along every history of start, stop and speed commands the realised centre of pressure at each sample lies in the support area of that instant, every footstep lands on the ground within reach of its support foot, and after a stop the schedule returns to double support and the robot comes to rest over its feet. This holds with both kinds of constraints enabled, a horizon of more than one step, walks started at the beginning of a double support, moderate speeds, and a centring weight that dominates the velocity weight.',
 ['histories','configurations'],'all command histories (start, stop, three speed references) at a bounded number of decision points over a complete walk, with an exact solver, for a set of timing configurations',
 'No test closes the loop.',
 [HW,FS],[('whole control loop','src/humanoid_walkgen.cpp solve')],
 ['feet and centre-of-mass getters after every cycle'])

prop('E02','With an exact solver, trajectories and base motions are optimal and keep limits',
 'When every problem is solved exactly, by a solver that like qpOASES works on a warm start with the matrices it was initialised with, and the jerk weight is positive, then along every history of reference, limit, weight, period, configuration and disturbance changes each cycle of the trajectory generator and of the wheeled-robot generator moves the state as the unique best plan does that respects the active limits; solve succeeds exactly when such a plan exists, and otherwise the motion continues with the jerk in force. At each sample so reached the velocity, acceleration and jerk are within their limits and, for polygons symmetric about the base, the centre of pressure and the centre of mass are in their polygons. With constant references, an admissible motion and a horizon and centring weights that are sufficient, the state settles on the references.',
 ['histories','configurations'],'all sequences of 14 (trajectory) and 25 (wheeled robot) events of bounded length with cycles of several feedback periods in between, all pairs of events at several distances, from three starting configurations, each cycle with an exact solver',
 'The tests solve single problems, most of them without a solver, and never follow the realised motion.',
 [TW,ZW],[('whole control loop','src/trajectory_walkgen.cpp solve, src/zebulon_walkgen.cpp solve')],
 ['state and jerk getters after every cycle','return value of solve'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
