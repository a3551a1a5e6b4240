"""Properties, simulators and run plans.  tools/gen.py writes properties.jsonl and MANIFEST.json from this file."""
I = 'include/boost/numeric/odeint/'

ASAN = ['-O1', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS']
PLAIN = ['-O1', '-D_GLIBCXX_ASSERTIONS']

# simulated threads: instrumented by the compiler, linked with the simulated runtimes of conc.cpp
CONC = ['-O1', '-fsanitize=thread', '-fopenmp', '-D_GLIBCXX_ASSERTIONS']
CONC_BASE = {'flags': CONC, 'plain_src': ['core.cpp', 'conc.cpp'], 'plain_flags': PLAIN,
             'link': ['-Wl,' + ','.join('--wrap=' + f for f in ('memcpy', 'memmove', 'memset', '__cxa_allocate_exception', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort'))]}

BINARIES = {
    'iso': dict(CONC_BASE, src=['core.cpp', 'conc.cpp', 'iso.cpp', 'mach_rk.cpp', 'mach_multi.cpp', 'mach_ctl.cpp', 'mach_misc.cpp']),
    'mpi': dict(CONC_BASE, flags=PLAIN, inc_first=['-I@SIM@/stub'], src=['core.cpp', 'conc.cpp', 'mpi.cpp']),
    'omp': dict(CONC_BASE, src=['core.cpp', 'conc.cpp', 'omp.cpp']),
    'drv_sim': {'src': ['core.cpp', 'drv_sim.cpp'], 'flags': ASAN},
    'drv_iter': {'src': ['core.cpp', 'drv_iter.cpp'], 'flags': ASAN},
    'onestep': {'src': ['core.cpp', 'onestep.cpp'], 'flags': ASAN},
    'ctl': {'src': ['core.cpp', 'ctl.cpp'], 'flags': ASAN},
    'adapt': {'src': ['core.cpp', 'adapt.cpp', 'mach_rk.cpp', 'mach_multi.cpp', 'mach_ctl.cpp', 'mach_misc.cpp'], 'flags': ASAN},
    'drv_real': {'src': ['core.cpp', 'drv_real.cpp'], 'flags': ASAN},
    'dense': {'src': ['core.cpp', 'dense.cpp', 'mach_rk.cpp', 'mach_ctl.cpp', 'mach_misc.cpp'], 'flags': ASAN},
    'multi': {'src': ['core.cpp', 'multi.cpp'], 'flags': ASAN},
    'stiff': {'src': ['core.cpp', 'stiff.cpp'], 'flags': ASAN},
    'symp': {'src': ['core.cpp', 'symp.cpp'], 'flags': ASAN},
    'cont': {'src': ['core.cpp', 'cont.cpp', 'cont_ref.cpp'] + ['cont_%s.cpp' % x for x in 'abcdefg'], 'flags': ASAN, 'inc_first': ['-I/usr/include/eigen3'], 'libs': ['-lgsl', '-lgslcblas']},
    'entry': {'src': ['core.cpp', 'entry.cpp', 'entry_a.cpp', 'entry_b.cpp', 'entry_c.cpp'], 'flags': ASAN},
    'hist': {'src': ['core.cpp', 'hist.cpp', 'mach_rk.cpp', 'mach_multi.cpp', 'mach_ctl.cpp', 'mach_misc.cpp'], 'flags': ASAN},
}

# property -> simulators with (runs, time cap in s) per tier
PLAN = {
    'P01': [{'bin': 'drv_sim', 'quick': (400000, 60), 'thorough': (12000000, 1500)}, {'bin': 'drv_real', 'quick': (80000, 40), 'thorough': (3000000, 900)}],
    'P02': [{'bin': 'drv_sim', 'quick': (400000, 60), 'thorough': (12000000, 1500)}, {'bin': 'drv_real', 'quick': (80000, 40), 'thorough': (3000000, 900)}],
    'P03': [{'bin': 'drv_sim', 'quick': (400000, 60), 'thorough': (12000000, 1500)}, {'bin': 'drv_real', 'quick': (80000, 40), 'thorough': (3000000, 900)}],
    'P04': [{'bin': 'drv_sim', 'quick': (200000, 60), 'thorough': (6000000, 1500)}],
    'P05': [{'bin': 'drv_sim', 'quick': (400000, 60), 'thorough': (12000000, 1500)}, {'bin': 'drv_real', 'quick': (80000, 40), 'thorough': (3000000, 900)}],
    'P06': [{'bin': 'hist', 'quick': (300000, 60), 'thorough': (8000000, 1500)}, {'bin': 'drv_sim', 'quick': (200000, 40), 'thorough': (3000000, 600)}],
    'P07': [{'bin': 'ctl', 'quick': (200000, 60), 'thorough': (8000000, 1800)}],
    'P08': [{'bin': 'adapt', 'quick': (120000, 70), 'thorough': (5000000, 2000)}],
    'P09': [{'bin': 'hist', 'quick': (300000, 70), 'thorough': (10000000, 1800)}],
    'P10': [{'bin': 'dense', 'quick': (70000, 70), 'thorough': (3000000, 1800)}],
    'P11': [{'bin': 'multi', 'quick': (200000, 60), 'thorough': (8000000, 1800)}],
    'P12': [{'bin': 'hist', 'quick': (300000, 70), 'thorough': (8000000, 1800)}],
    'P13': [{'bin': 'hist', 'quick': (250000, 70), 'thorough': (8000000, 1800)}],
    'P14': [{'bin': 'iso', 'quick': (200000, 70), 'thorough': (8000000, 1800)}],
    'P17': [{'bin': 'omp', 'quick': (150000, 60), 'thorough': (6000000, 1800)}],
    'P18': [{'bin': 'mpi', 'quick': (150000, 60), 'thorough': (6000000, 1800)}],
    'P15': [{'bin': 'onestep', 'quick': (400000, 60), 'thorough': (12000000, 1500)}],
    'P19': [{'bin': 'stiff', 'quick': (60000, 60), 'thorough': (3000000, 1500)}],
    'P20': [{'bin': 'symp', 'quick': (60000, 60), 'thorough': (2000000, 1500)}],
    'P21': [{'bin': 'cont', 'quick': (400000, 60), 'thorough': (12000000, 1500)}],
    'P22': [{'bin': 'entry', 'quick': (300000, 60), 'thorough': (10000000, 1500)}],
    'P23': [{'bin': 'drv_iter', 'quick': (1000000, 60), 'thorough': (20000000, 1500)}],
    'P16': [{'bin': 'onestep', 'quick': (500000, 60), 'thorough': (15000000, 1500)}],
}

REAL_DRV = ['integrate_const / integrate_n_steps / integrate_adaptive / integrate_times', 'max_step_checker', 'iterators and ranges', 'reference unwrapping']
STUB_DRV = ['stepper: simulated basic, controlled and dense-output stepper whose accept / reject / step-size decisions come from the schedule', 'observer and right-hand side']
COMPONENTS = {}
for p in ('P01', 'P02', 'P03', 'P04', 'P05'):
    COMPONENTS[p] = {'real': REAL_DRV + (['real steppers of every category (second simulator, drv_real)'] if p != 'P04' else []), 'stub': STUB_DRV}

ALL_STEPPERS = ['every stepper of the library: euler, RK4 (2), Cash-Karp (2), Dormand-Prince 5, Fehlberg 78, generic RK, modified midpoint, extrapolation, Adams-Bashforth, Adams-Bashforth-Moulton, adaptive Adams, Bulirsch-Stoer (controlled, dense), controlled RK, dense output, Rosenbrock 4 (plain, controlled, dense), implicit Euler, symplectic (3), velocity Verlet; initially_resizer and always_resizer']
for p in ('P06', 'P09', 'P12', 'P13'):
    COMPONENTS[p] = {'real': ALL_STEPPERS + ['resizers, state wrappers, range algebra, default operations'], 'stub': ['right-hand side (seeded, can throw)', 'global allocator (can fail, poisons fresh memory)']}
COMPONENTS['P06']['real'] = COMPONENTS['P06']['real'] + REAL_DRV

COMPONENTS['P07'] = {'real': ['controlled_runge_kutta (4 methods), rosenbrock4_controller, bulirsch_stoer, controlled_adams_bashforth_moulton, default_error_checker, default_step_adjuster'], 'stub': ['right-hand side (seeded)', 'in part of the runs the error checker and step adjuster (decisions from the schedule)']}
COMPONENTS['P08'] = {'real': ['every controlled and dense-output stepper of the library, with its own error estimation and step size control'], 'stub': ['right-hand side (seeded smooth or stiff problem, with injected disturbances)']}

COMPONENTS['P10'] = {'real': ['dense_output_runge_kutta (Dormand-Prince 5 controlled, Euler), bulirsch_stoer_dense_out (with and without control of the interpolation), rosenbrock4_dense_output; initially_resizer and always_resizer'], 'stub': ['right-hand side (seeded)']}
COMPONENTS['P11'] = {'real': ['adams_bashforth 1-8, adams_bashforth_moulton 1-8, adams_moulton, adaptive and controlled Adams-Bashforth-Moulton, rotating_buffer, initialising steppers'], 'stub': ['right-hand side (seeded)']}

COMPONENTS['P14'] = {'real': ALL_STEPPERS + REAL_DRV, 'stub': ['threads and their scheduler (fibers preempted at any memory access of the code under test)', 'race detector (happens-before, on compiler-inserted hooks)', 'right-hand side (seeded, may throw)']}
COMPONENTS['P17'] = {'real': ['openmp_range_algebra, openmp_nested_algebra, openmp_state with split / unsplit / copy / resize / same_size, under 19 steppers of every category'], 'stub': ['OpenMP runtime (teams, work sharing, barriers, locks) and thread scheduler', 'race detector (happens-before, on compiler-inserted hooks)', 'right-hand side (seeded)']}

COMPONENTS['P18'] = {'real': ['mpi_state, mpi_nested_algebra, split / unsplit / resize / same_size / copy of distributed states, split_adaptor, under 16 stepper and driver combinations'], 'stub': ['Boost.MPI (communicators, collectives and messages on a simulated network with delays)', 'ranks (simulated processes in one address space)', 'right-hand side (seeded, exchanges the pieces at every evaluation)']}

ONE_STEP = ['euler, runge_kutta4, runge_kutta4_classic, Cash-Karp 54 (both), Fehlberg 78, Dormand-Prince 5, generic RK with and without error estimate, extrapolation_stepper 4/6/8, modified_midpoint; initially_resizer and always_resizer', 'range algebra, default operations, state wrappers, reference unwrapping']
COMPONENTS['P15'] = COMPONENTS['P16'] = {'real': ONE_STEP, 'stub': ['right-hand side (seeded, smooth, non-autonomous)']}

DRV_FILES = [I + 'integrate/detail/integrate_const.hpp', I + 'integrate/detail/integrate_n_steps.hpp', I + 'integrate/detail/integrate_adaptive.hpp',
             I + 'integrate/detail/integrate_times.hpp', I + 'util/detail/less_with_sign.hpp']
STEPPERS = 'euler, modified midpoint, Runge-Kutta 4 (both), Cash-Karp 5(4) (both), Dormand-Prince 5, Fehlberg 7(8)'

PROPS = {}


def prop(pid, **k):
    PROPS[pid] = k


prop('P01',
     title='Fixed-grid integration shows every grid point once, with the state of that time',
     statement='integrate_const observes exactly the times t0, t0+dt, t0+2dt, ... that do not lie beyond the end time, and integrate_n_steps exactly t0 .. t0+n*dt, each once and in order, for positive and negative dt and for basic, controlled and dense-output steppers. Each observation carries the solution at exactly that time, and the caller\'s state afterwards is the solution at the last grid point. This holds whatever sequence of accepted, rejected, shrunk and grown internal steps the stepper makes, no internal step passes the end, and the step count integrate_const returns is the number of accepted internal steps.',
     over=['schedules', 'inputs', 'histories'],
     qtext='every start, end and (positive or negative) dt representable without ambiguity at the end point; every sequence of accept / reject / step-size decisions of the stepper; stepper by value or by reference; with and without observer and step checker',
     why='unit tests drive one or two steppers forward over one grid; the interaction of step-size history, rejections after the last re-initialisation, short grids and direction is not sampled',
     files=[I + 'integrate/detail/integrate_const.hpp', I + 'integrate/detail/integrate_n_steps.hpp', I + 'integrate/integrate_const.hpp', I + 'integrate/integrate_n_steps.hpp', I + 'util/detail/less_with_sign.hpp'],
     mech=[('observation time computed from the step index, sign-aware comparisons, re-initialisation of the dense stepper for the last step', I + 'integrate/detail/integrate_const.hpp')],
     rule='A run draws a grid (direction, length, dyadic or general times), a stepper category, how the stepper is passed and a schedule of accept/reject/step-size decisions, and runs the real driver. Non-trivial: more than one internal step.')

prop('P02',
     title='integrate_times visits the given times in order, each with its own state',
     statement='integrate_times calls the observer once for every element of the given monotone time sequence, in order, with exactly the given time, and with the solution at that time, in both directions, with repeated times, and for basic, controlled and dense-output steppers. No internal step passes the last requested time, and steps that were shortened only to hit a requested time do not shrink the step size used afterwards. The number returned is the number of accepted internal steps. For an empty sequence nothing is read, observed or stepped and 0 is returned.',
     over=['schedules', 'inputs', 'histories'],
     qtext='every monotone time sequence of one or more elements (including repeated times, intervals much smaller and much larger than dt, containers and iterator kinds); every schedule of accept / reject / step-size decisions; both directions',
     why='unit tests use evenly spread increasing times; clustered, repeated, decreasing times combined with rejections are never met',
     files=[I + 'integrate/detail/integrate_times.hpp', I + 'integrate/integrate_times.hpp', I + 'util/detail/less_with_sign.hpp'],
     mech=[('step shortened to end on the requested time, original step size restored afterwards', I + 'integrate/detail/integrate_times.hpp')],
     rule='A run draws a monotone time sequence (duplicates, clusters, gaps), a stepper category, passing mode and a decision schedule. Non-trivial: more than two internal steps.')

prop('P03',
     title='Adaptive integration ends exactly at the end time, step by step',
     statement='integrate_adaptive (and integrate) makes only steps in the direction of dt that do not pass the end time, and ends with the caller\'s state equal to the solution at the end time itself. The observer sees the start, the point after every accepted step and the end, each once, strictly monotone in time and with the state of that time. The returned count is the number of accepted steps.',
     over=['schedules', 'inputs', 'histories'],
     qtext='every start, end and initial dt (also larger than the interval, and negative); every schedule of accept / reject / step-size decisions; basic, controlled and dense-output steppers by value or by reference',
     why='tests check the final state for a few smooth problems; the overshoot, rejected-last-step and re-initialisation paths depend on the whole step-size history',
     files=[I + 'integrate/detail/integrate_adaptive.hpp', I + 'integrate/integrate_adaptive.hpp', I + 'integrate/integrate.hpp', I + 'util/detail/less_with_sign.hpp'],
     mech=[('last step shortened to the remaining interval', I + 'integrate/detail/integrate_adaptive.hpp')],
     rule='A run draws an interval, an initial step size, a stepper category, passing mode and a decision schedule. Non-trivial: more than two internal steps.')

prop('P04',
     title='Integration always terminates or reports lack of progress, within its limits',
     statement='Every integrate call returns or throws within a bounded number of stepper calls: consecutive rejected steps end in step_adjustment_error at the documented limit (500, 1000 for iterators) and not clearly before it, and with a step checker no_progress_error is thrown exactly when more than the allowed number of steps would be made between two observations, the counter starting anew after each observation. Rejections separated by an accepted step never add up. As long as the stepper accepts steps of non-vanishing size the integration reaches its end, whatever the rounding of times does.',
     over=['schedules', 'fault_sequences', 'inputs'],
     qtext='every burst pattern of rejected steps (lengths around and far beyond the limits, isolated, repeated), every limit, every driver and stepper category, end points of any magnitude',
     why='tests exercise one checker limit and never a burst of rejections at the boundary, nor rounding of the last step; non-termination cannot be shown by a finite sample of quick tests',
     files=[I + 'integrate/max_step_checker.hpp', I + 'integrate/check_adapter.hpp'] + DRV_FILES,
     mech=[('failed-step and step counters', I + 'integrate/max_step_checker.hpp'), ('observer and stepper adapters', I + 'integrate/check_adapter.hpp')],
     rule='A run draws a driver, a limit and a schedule with rejection bursts or many small steps. Non-trivial: a burst or limit was reached, or (termination scenario) more than one step was made.')

prop('P05',
     title='Iterators and ranges deliver what the matching integrate function observes',
     statement='Walking a const-step, n-step, adaptive or times range (state-only or state-and-time form) yields the same number of elements, the same states and the same times as the observations of the corresponding integrate function for the same arguments, in both directions. The range ends, and steps never pass the end time of adaptive and times ranges. The time delivered with a state is the time of that state. A times range over an empty sequence is empty, and only elements of the given sequence are read.',
     over=['schedules', 'inputs', 'histories'],
     qtext='every grid, interval or time sequence as for the integrate functions, every schedule of accept / reject / step-size decisions, basic / controlled / dense-output steppers by value or by reference',
     why='iterator tests use one fixed-step stepper and few points; the equivalence with integrate over all step-size histories is not tested',
     files=[I + 'iterator/impl/const_step_iterator_impl.hpp', I + 'iterator/impl/n_step_iterator_impl.hpp', I + 'iterator/impl/adaptive_iterator_impl.hpp', I + 'iterator/impl/times_iterator_impl.hpp', I + 'iterator/detail/ode_iterator_base.hpp'],
     mech=[('same stepping rules repeated in the iterator increment', I + 'iterator/impl')],
     rule='A run draws a range kind, stepper category and schedule, runs the integrate function, then walks the range with the same schedule and compares the two histories. Non-trivial: more than two elements.')

ST = I + 'stepper/'
prop('P06',
     title='User exceptions leave the library unchanged and the work can be retried',
     statement='An exception thrown by the user\'s right-hand side or observer reaches the caller unchanged (same type and value), and no user function is called again after it. A controlled or dense-output step that threw has changed neither the caller\'s state, time nor step size, and repeating it gives exactly the steps and interpolated values that an undisturbed stepper gives, however often it threw. Other steppers give the undisturbed results after reset() with the old state. Observations made before the exception are those of the undisturbed integration.',
     over=['fault_sequences', 'histories', 'inputs'],
     qtext='every stepper, driver and iterator; a throw at every evaluation of the right-hand side or observer, once or several times, at any point of the history; std and non-std exception types',
     why='tests never throw from a right-hand side; which cached derivative, order or step size is half updated depends on the exact call that throws',
     files=[ST + 'base/explicit_error_stepper_fsal_base.hpp', ST + 'controlled_runge_kutta.hpp', ST + 'dense_output_runge_kutta.hpp', ST + 'bulirsch_stoer.hpp', ST + 'bulirsch_stoer_dense_out.hpp', ST + 'rosenbrock4_dense_output.hpp', ST + 'adams_bashforth.hpp', I + 'integrate/detail/integrate_adaptive.hpp'],
     mech=[('results are written to internal buffers and only then copied to the caller', ST + 'controlled_runge_kutta.hpp'), ('first-same-as-last derivative cache', ST + 'base/explicit_error_stepper_fsal_base.hpp')],
     rule='A run draws a stepper, a problem and a history; before each step of the history the same step is made to throw at a drawn evaluation, then repeated, in lock step with an undisturbed replica. Non-trivial: at least one exception was caught.')

prop('P07',
     title='A controlled step makes one step within tolerance or changes nothing but dt',
     statement='try_step of every controlled stepper returns success exactly when the error estimate of the method, weighted with eps_abs, eps_rel, a_x and a_dxdt as documented, is acceptable. Then the state is that of one step of the method with the given dt, the time has advanced by exactly that dt and dt is the documented proposal for the next step. Otherwise state and time are unchanged and dt is smaller in magnitude and has kept its sign. The proposal never exceeds max_dt, a larger initial dt is cut to max_dt and reported as a failed step. All call forms (in place, out of place, with derivative, ranges) agree, and user-supplied error checkers and step adjusters are called as documented.',
     over=['schedules', 'histories', 'inputs'],
     qtext='every controlled stepper, tolerance set, sequence of accepted and rejected steps, call forms, jumps, resets, dt changed by the caller, both directions; decisions of simulated error checkers and step adjusters',
     why='tests check one accepted step or the final error of one problem; the decision boundary, growth and shrink formulas, the limits and the rejected path depend on the error and on the history',
     files=[ST + 'controlled_runge_kutta.hpp', ST + 'controlled_step_result.hpp', ST + 'rosenbrock4_controller.hpp', ST + 'bulirsch_stoer.hpp', ST + 'controlled_adams_bashforth_moulton.hpp', ST + 'detail/pid_step_adjuster.hpp'],
     mech=[('default_error_checker and default_step_adjuster', ST + 'controlled_runge_kutta.hpp'), ('order and step size selection', ST + 'bulirsch_stoer.hpp')],
     rule='A run draws a controlled stepper, tolerances and limits, and a history of 2 to 15 try_steps through drawn call forms, each compared with an independent model. Non-trivial: a rejection or a growth of dt occurred.')

prop('P08',
     title='Step size control keeps the tolerance, progresses, recovers from disturbances',
     statement='Over any integration of a smooth or moderately stiff problem a controlled or dense-output stepper makes accepted steps whose true local errors stay within a modest multiple of the requested tolerance, always moves in the direction of dt, respects max_dt, and advances by any finite interval within a bounded number of tries. After a disturbance of the right-hand side (wild values for some evaluations) has ended it returns to normal step sizes within a bounded number of tries, without a reset.',
     over=['fault_sequences', 'schedules', 'inputs'],
     qtext='every controlled and dense-output stepper, tolerance, max_dt, direction, initial dt far too large or too small, disturbance size and position in the step',
     why='tests look at the end of a few well-behaved integrations; an error estimate or order selection that fails for some step-size histories, or a controller that gets stuck after a spike, needs many histories to show',
     files=[ST + 'controlled_runge_kutta.hpp', ST + 'dense_output_runge_kutta.hpp', ST + 'bulirsch_stoer.hpp', ST + 'bulirsch_stoer_dense_out.hpp', ST + 'rosenbrock4_controller.hpp', ST + 'rosenbrock4_dense_output.hpp', ST + 'controlled_adams_bashforth_moulton.hpp', ST + 'adaptive_adams_bashforth_moulton.hpp', ST + 'detail/pid_step_adjuster.hpp', ST + 'detail/adaptive_adams_coefficients.hpp'],
     mech=[('error estimate, step size and order selection', ST + 'bulirsch_stoer.hpp')],
     rule='A run draws a stepper, problem, tolerance and limit, integrates, and compares each accepted step with a high-accuracy solution; recovery runs disturb some evaluations and compare the tries needed afterwards with a fresh stepper. Non-trivial: rejections or a limit occurred, or a disturbance was injected.')

prop('P09',
     title='After reset or re-initialisation a stepper behaves like a new one',
     statement='After reset() (or, for dense-output steppers, initialize()) a stepper produces exactly the results of a freshly constructed one: nothing of earlier integrations, of their direction, step sizes, order, rejected steps, exceptions or (with always_resizer) state sizes survives. This holds for every stepper with such a function, for the states, the accept decisions, the proposed step sizes and the interpolated values.',
     over=['histories', 'inputs', 'fault_sequences'],
     qtext='every earlier history (any number of integrations, forward and backward, with rejections, exceptions, failed allocations, other sizes, copies) and every following integration',
     why='tests use one stepper object for one integration; a leftover changes results only for particular earlier histories',
     files=[ST + 'base/explicit_stepper_base.hpp', ST + 'base/explicit_error_stepper_fsal_base.hpp', ST + 'controlled_runge_kutta.hpp', ST + 'dense_output_runge_kutta.hpp', ST + 'bulirsch_stoer.hpp', ST + 'bulirsch_stoer_dense_out.hpp', ST + 'adams_bashforth.hpp', ST + 'adams_bashforth_moulton.hpp', ST + 'adaptive_adams_bashforth_moulton.hpp', ST + 'controlled_adams_bashforth_moulton.hpp', ST + 'rosenbrock4_dense_output.hpp', ST + 'velocity_verlet.hpp'],
     mech=[('reset / initialize of every stepper with memory', ST + 'bulirsch_stoer_dense_out.hpp')],
     rule='A run gives a stepper one to three drawn earlier histories (with faults), resets it and then drives it in lock step with a fresh one. Non-trivial: at least three compared steps.')

prop('P10',
     title='Dense output is the solution at every time of the last step',
     statement='After a step of a dense-output stepper, calc_state(t) gives for every t of the step just made the solution at t: the stored states at both ends, continuous from step to step, with the accuracy (order, or tolerance) of the documented interpolation in between, forward and backward. Asking for values, in any order and any number of times, changes neither later values nor later steps. The interval reported by do_step, previous_time and current_time is that of the step, and previous_state and current_state belong to it.',
     over=['histories', 'inputs', 'schedules'],
     qtext='every dense-output stepper, tolerance, limit, direction, size and re-initialisation; every sequence of steps (with rejections) and interpolation requests at any time of the step',
     why='tests interpolate one problem forward at a few points; wrong cached derivatives, order-dependent coefficients or times show only after particular histories or backward',
     files=[ST + 'dense_output_runge_kutta.hpp', ST + 'bulirsch_stoer_dense_out.hpp', ST + 'rosenbrock4_dense_output.hpp', ST + 'rosenbrock4.hpp', ST + 'runge_kutta_dopri5.hpp', ST + 'euler.hpp'],
     mech=[('interpolation formulas', ST + 'runge_kutta_dopri5.hpp'), ('finite differences of the midpoint stages', ST + 'bulirsch_stoer_dense_out.hpp')],
     rule='A run draws a dense-output stepper, problem, tolerance and direction, makes up to 12 steps (twice, with re-initialisation) with up to 6 interpolation requests each and compares with the solution, the published formula and a replica without requests; or measures the order of the interpolation. Non-trivial: a value was interpolated.')

prop('P11',
     title='Multistep steppers combine exactly the derivatives of their own history',
     statement='After its start-up steps an Adams-Bashforth, Adams-Bashforth-Moulton, adaptive or controlled Adams stepper makes exactly the Adams step given by the derivatives at the last points of the current integration and their true times: equal steps for the first two, any sequence of step sizes for the others, in both directions. The start-up with the default or a user-supplied stepper (initialize, initialize_controlled, or the first calls of do_step) advances state and time by its documented steps and leaves exactly that history. A rejected step leaves history, state and time untouched.',
     over=['histories', 'inputs', 'schedules'],
     qtext='orders 1 to 8, every sequence of steps, step size changes, rejections, resets, initialisations and (always_resizer) size changes, all call forms',
     why='tests check one order with constant steps from one start; the meaning of a rotated buffer or of variable-step coefficients depends on the whole history',
     files=[ST + 'adams_bashforth.hpp', ST + 'adams_bashforth_moulton.hpp', ST + 'adams_moulton.hpp', ST + 'adaptive_adams_bashforth_moulton.hpp', ST + 'controlled_adams_bashforth_moulton.hpp', ST + 'detail/adaptive_adams_coefficients.hpp', ST + 'detail/adams_bashforth_coefficients.hpp', ST + 'detail/adams_moulton_coefficients.hpp', ST + 'detail/adams_bashforth_call_algebra.hpp', ST + 'detail/adams_moulton_call_algebra.hpp', ST + 'detail/rotating_buffer.hpp'],
     mech=[('rotating buffer of derivatives', ST + 'detail/rotating_buffer.hpp'), ('variable-step coefficients', ST + 'detail/adaptive_adams_coefficients.hpp')],
     rule='A run draws a multistep stepper and a history of up to 28 steps, initialisations, resets, size and step size changes, each compared with the Adams formula integrated from the interpolating polynomial of the true history. Non-trivial: at least two genuine multistep steps.')

prop('P12',
     title='Steppers adapt to the size of the state and survive failing allocations',
     statement='With always_resizer (and with initially_resizer before first use) a stepper can be used with states of any size in any order, and after a change of size it gives the results of a fresh stepper of that size: no stale history, no access outside its buffers, and the right-hand side is always called with correctly sized arguments. The same holds after adjust_size() by hand (initially_resizer after a change of size, never_resizer before the first use and after a change of size), and initialize() of a stepper works for a stepper that has not been used yet. If an allocation inside the library fails, std::bad_alloc reaches the caller, the caller\'s state is unharmed for controlled and dense steppers, and the same call repeated succeeds with the undisturbed result.',
     over=['fault_sequences', 'histories', 'inputs'],
     qtext='every sequence of state sizes (growing, shrinking, equal), every stepper and resizer, every point at which adjust_size() is called, the failure of every allocation of a call, repeated failures',
     why='tests use one size per stepper and never fail an allocation; the resize paths of multi-buffer steppers fail only for some orders of sizes or some failing allocation',
     files=[I + 'util/resizer.hpp', I + 'util/is_resizeable.hpp', I + 'util/resize.hpp', I + 'util/state_wrapper.hpp', ST + 'adams_bashforth.hpp', ST + 'adams_bashforth_moulton.hpp', ST + 'bulirsch_stoer_dense_out.hpp', ST + 'dense_output_runge_kutta.hpp', ST + 'extrapolation_stepper.hpp'],
     mech=[('resizers decide when buffers are adjusted', I + 'util/resizer.hpp')],
     rule='A run draws a stepper, a sequence of sizes and failing allocations, and drives it in lock step with fresh steppers (AddressSanitizer, poisoned fresh memory). Non-trivial: at least one resize or allocation failure.')

prop('P13',
     title='Copies of steppers are equal and independent',
     statement='A copy of a stepper (copy construction or assignment, also over a stepper with another history, and self assignment) continues exactly as its source would have continued: same states, accept decisions, step sizes and interpolated values. Afterwards source and copy are independent: using, resetting or destroying either never changes the other, and no memory or algebra object is shared.',
     over=['histories', 'schedules', 'inputs'],
     qtext='every stepper, every point of its history at which it is copied or assigned, every later interleaving of use and destruction of the copies',
     why='steppers are copied by value through every integrate call, but tests copy fresh steppers only; a pointer or reference into the source works until the source changes or dies',
     files=[ST + 'dense_output_runge_kutta.hpp', ST + 'rosenbrock4_dense_output.hpp', ST + 'bulirsch_stoer_dense_out.hpp', ST + 'adams_bashforth.hpp', ST + 'adams_bashforth_moulton.hpp', ST + 'adams_moulton.hpp', ST + 'adaptive_adams_bashforth_moulton.hpp', ST + 'controlled_runge_kutta.hpp', ST + 'detail/rotating_buffer.hpp', ST + 'symplectic_rkn_sb3a_mclachlan.hpp', ST + 'base/symplectic_rkn_stepper_base.hpp'],
     mech=[('copy constructors and assignment, current/old state pointers', ST + 'dense_output_runge_kutta.hpp')],
     rule='A run drives a stepper in lock step with a never-copied replica while copies are taken, assigned, used for other work and destroyed at drawn points. Non-trivial: at least one copy or assignment.')

prop('P14',
     title='Separate steppers and integrations never influence each other',
     statement='Integrations, ranges and steppers that are separate objects (also copies of one another) give exactly the results they give alone, bit for bit, when they run in concurrent threads, and when one makes progress or runs as a whole inside the right-hand side of another in the same thread. No memory is shared between them without synchronisation: there is no hidden global or static mutable state.',
     over=['schedules', 'histories', 'fault_sequences'],
     qtext='every pair and triple of steppers (also of the same type, and copies of one object), drivers and ranges; every interleaving of their memory accesses; stalled threads; exceptions in one of them',
     why='tests run one stepper at a time in one thread; shared hidden state shows only when two of them overlap at the right place',
     files=[ST + 'base/explicit_stepper_base.hpp', ST + 'base/explicit_error_stepper_fsal_base.hpp', ST + 'controlled_runge_kutta.hpp', ST + 'dense_output_runge_kutta.hpp', ST + 'bulirsch_stoer.hpp', ST + 'bulirsch_stoer_dense_out.hpp', ST + 'adams_bashforth.hpp', ST + 'adams_bashforth_moulton.hpp', ST + 'adaptive_adams_bashforth_moulton.hpp', ST + 'implicit_euler.hpp', ST + 'rosenbrock4.hpp', I + 'algebra/range_algebra.hpp', I + 'algebra/default_operations.hpp'] + DRV_FILES,
     mech=[('all working memory is a member of the stepper object', ST + 'base/algebra_stepper_base.hpp')],
     rule='A run draws two or three integrations, records them alone, then runs them as simulated threads preempted at seeded memory accesses with race detection (or one nested in the right-hand side of the other) and compares the histories. Non-trivial: more switches than threads, or nested progress was made.')

prop('P17',
     title='OpenMP algebras and states give the serial result for every team and schedule',
     statement='A stepper with openmp_range_algebra, or with openmp_state and its algebra, makes the same integration as with the serial range algebra, whatever the number of threads, the work-sharing schedule, the way the state is split into blocks (uneven, empty) and the interleaving of the threads: same states, accept decisions, step sizes and numbers of evaluations. The threads never access the same element without synchronisation. Splitting into any number of blocks and joining returns the data unchanged, resize, same_size and copy of such states do what they say, and every for_eachN and norm_inf handles each element exactly once.',
     over=['schedules', 'inputs', 'histories'],
     qtext='teams of 1 to 8 threads (also fewer than asked for), static / dynamic / guided schedules and chunks in any order, stalled threads, preemption at any memory access; every size and block structure; steppers of all categories',
     why='there are no OpenMP tests at all in the suite, and a race or a wrongly shared element shows only under particular schedules and team sizes',
     files=[I + 'external/openmp/openmp_range_algebra.hpp', I + 'external/openmp/openmp_nested_algebra.hpp', I + 'external/openmp/openmp_state.hpp', I + 'util/n_ary_helper.hpp'],
     mech=[('parallel for over independent elements, reduction for the norm', I + 'external/openmp/openmp_range_algebra.hpp')],
     rule='A run draws a stepper, problem, sizes, block structure, team and schedule, integrates serially and on the simulated OpenMP runtime and compares; or calls for_eachN, norm_inf, split, unsplit, copy, resize directly. Non-trivial: more than two thread switches.')

prop('P18',
     title='MPI states integrate like the whole state on one rank, without deadlock',
     statement='Integrating a state distributed over the ranks of any communicator (the world or a part of it) gives on every rank the same accept decisions, step sizes, times and numbers of evaluations, and pieces that together are the solution obtained on one rank. All ranks of the communicator, and only they, take part in the same collective operations in the same order, so nothing deadlocks whatever the message delays. split distributes all elements evenly in order and unsplit restores them; resize, same_size, copy and norm_inf give the same answer on every rank.',
     over=['schedules', 'inputs', 'histories'],
     qtext='1 to 7 ranks, sub-communicators with independent or no work beside them, sizes smaller and larger than the number of ranks, changes of size, stalled ranks, any message delay, collectives left early or late; steppers of every category',
     why='there are no MPI tests in the suite; agreement of ranks and deadlock freedom depend on the schedule, on uneven pieces and on communicators other than the world',
     files=[I + 'external/mpi/mpi_state.hpp', I + 'external/mpi/mpi_vector_state.hpp', I + 'external/mpi/mpi_nested_algebra.hpp', I + 'util/split_adaptor.hpp', I + 'util/resizer.hpp'],
     mech=[('norm and size decisions by all_reduce over the communicator of the state', I + 'external/mpi/mpi_nested_algebra.hpp')],
     rule='A run draws ranks, communicators, a stepper, problem, sizes and delays, integrates on simulated ranks and compares with one rank; or exercises split, unsplit, resize, same_size, copy and norm directly. Non-trivial: more than four collective operations.')

BASE = ST + 'base/'
prop('P15',
     title='Every way to call a one-step stepper does the same step',
     statement='For every explicit one-step stepper the result does not depend on how do_step is called: in place or out of place, on a container or on a range inside a larger container, with or without a derivative supplied by the caller, with or without an error estimate, with the system passed by value, std::ref or boost::ref, and whatever mixture of these forms the same stepper object was used with before. The form without and with error estimate give the same state. Input states and supplied derivatives of out-of-place calls are not modified, nothing outside the given range is written, and a derivative returned by a first-same-as-last stepper is the derivative at the new point.',
     over=['histories', 'inputs'],
     qtext='every one-step stepper, every sequence of its call forms on one object with continuing trajectories, jumps (announced by reset() where the stepper has one), changes of the system and of the size (always_resizer), positive, negative and zero dt',
     why='tests call each form once on a fresh object; caches, temporary buffers and aliasing between forms matter only for particular mixtures',
     files=[BASE + 'explicit_stepper_base.hpp', BASE + 'explicit_error_stepper_base.hpp', BASE + 'explicit_error_stepper_fsal_base.hpp', ST + 'runge_kutta_cash_karp54_classic.hpp', ST + 'runge_kutta_dopri5.hpp', ST + 'runge_kutta4_classic.hpp', ST + 'modified_midpoint.hpp', ST + 'extrapolation_stepper.hpp', ST + 'detail/generic_rk_algorithm.hpp'],
     mech=[('call forms forwarded to one implementation', BASE + 'explicit_error_stepper_base.hpp'), ('first-same-as-last derivative cache', BASE + 'explicit_error_stepper_fsal_base.hpp')],
     rule='A run draws a stepper, a problem and a history of 2 to 11 steps through drawn call forms, each compared with a fresh stepper called through the plain form. Non-trivial: at least two steps on one object.')

prop('P16',
     title='Every one-step stepper performs its published method',
     statement='Every explicit one-step stepper advances the state by exactly one step of the method it is named after (Euler, classical Runge-Kutta 4, Cash-Karp 5(4), Dormand-Prince 5(4), Fehlberg 8(7), generic Runge-Kutta with the user\'s coefficients, modified midpoint, midpoint extrapolation) to rounding accuracy, for autonomous and non-autonomous systems of any size, any start time and any positive, negative or zero dt, at every point of its history. The error estimate is the difference of the two embedded results, and order() is the order of the method.',
     over=['inputs', 'histories'],
     qtext='every one-step stepper, every smooth non-autonomous problem, size, time and step size, at every point of every history of earlier steps and call forms',
     why='tests compare one or two values of one autonomous problem; wrong stage times, single coefficients or buffers reused too early show only for non-autonomous problems, particular call forms or later steps',
     files=[ST + 'euler.hpp', ST + 'runge_kutta4.hpp', ST + 'runge_kutta4_classic.hpp', ST + 'runge_kutta_cash_karp54.hpp', ST + 'runge_kutta_cash_karp54_classic.hpp', ST + 'runge_kutta_dopri5.hpp', ST + 'runge_kutta_fehlberg78.hpp', ST + 'explicit_generic_rk.hpp', ST + 'explicit_error_generic_rk.hpp', ST + 'detail/generic_rk_algorithm.hpp', ST + 'detail/generic_rk_operations.hpp', ST + 'modified_midpoint.hpp', ST + 'extrapolation_stepper.hpp', I + 'algebra/default_operations.hpp', I + 'algebra/range_algebra.hpp'],
     mech=[('Butcher tableau interpreted at compile time', ST + 'detail/generic_rk_algorithm.hpp')],
     rule='A run draws a stepper, a non-autonomous problem and a history of 2 to 11 steps through drawn call forms, each compared with an independent implementation of the published method. Non-trivial: at least two steps on one object.')

COMPONENTS['P19'] = {'real': ['implicit_euler, rosenbrock4, rosenbrock4_controller, rosenbrock4_dense_output with ublas vectors and LU; integrate drivers on top; initially_resizer and always_resizer'], 'stub': ['right-hand side and Jacobian (seeded, non-autonomous, may throw)']}
COMPONENTS['P20'] = {'real': ['symplectic_euler, symplectic_rkn_sb3a_mclachlan, symplectic_rkn_sb3a_m4_mclachlan, velocity_verlet; initially_resizer and always_resizer'], 'stub': ['coordinate and momentum functions / acceleration (seeded, may throw)']}
prop('P19',
     title='Implicit steppers make exactly the step of their method for any system',
     statement='A Rosenbrock-4 step solves the four stage equations of the published method for the given right-hand side, Jacobian and time derivative, with its error estimate and dense output those of the method; an implicit Euler step ends in a state that solves the implicit equation up to the stated Newton tolerance. Both hold for autonomous and non-autonomous, stiff and non-stiff systems of any size, for positive and negative dt, at every point of a history of steps, size changes and exceptions, in place and out of place. The Jacobian and the right-hand side are always called with the current state and correctly sized arguments, and integrating a stiff problem with the controlled and dense-output forms stays close to its true solution.',
     over=['inputs', 'histories', 'fault_sequences'],
     qtext='every system with Jacobian (also non-symmetric ones, needing pivoting), size, stiffness, time, step size and direction; every history of steps on one object',
     why='tests make one step of one problem of dimension one or two; wrong times, pivoting, time-derivative terms or stale factorisations are visible only for non-autonomous systems, other sizes and later steps',
     files=[ST + 'rosenbrock4.hpp', ST + 'rosenbrock4_controller.hpp', ST + 'rosenbrock4_dense_output.hpp', ST + 'implicit_euler.hpp', I + 'util/ublas_wrapper.hpp'],
     mech=[('linear systems solved by LU with pivoting, stage by stage', ST + 'rosenbrock4.hpp'), ('Newton iteration', ST + 'implicit_euler.hpp')],
     rule='A run draws a stepper, a stiff or non-stiff non-autonomous problem and a history of steps, each compared with an independent implementation of the method (own linear solver), or integrates a stiff problem and compares with its solution. Non-trivial: at least two steps.')
prop('P20',
     title='Symplectic steppers and velocity Verlet perform their splitting method',
     statement='Every symplectic stepper advances coordinates and momenta by exactly the composition of its method (symplectic Euler, McLachlan\'s SB3A and its six-stage form), whether called with a pair of functions or with a single force function, with pairs or separate containers, in place or out of place. velocity_verlet makes exactly one velocity-Verlet step with the acceleration at the current point, reuses the stored acceleration only while it is valid (initialize, reset, size change, exceptions) and never evaluates more than needed. Over long runs the energy error stays bounded without drift, symmetric methods run back to where they started, the step map preserves the symplectic form and the global error has the order of the method.',
     over=['inputs', 'histories', 'fault_sequences'],
     qtext='every separable Hamiltonian and every force, size, time, positive or negative dt; every history of call forms, size changes, jumps with reset, initialisations and exceptions on one object',
     why='tests make a single step with zero or constant forces; coefficient errors, aliasing between input and output and stale accelerations show only over later steps and other call forms',
     files=[BASE + 'symplectic_rkn_stepper_base.hpp', ST + 'symplectic_euler.hpp', ST + 'symplectic_rkn_sb3a_mclachlan.hpp', ST + 'symplectic_rkn_sb3a_m4_mclachlan.hpp', ST + 'velocity_verlet.hpp'],
     mech=[('alternating kicks and drifts with compile-time coefficient arrays', BASE + 'symplectic_rkn_stepper_base.hpp'), ('stored acceleration and first-call flag', ST + 'velocity_verlet.hpp')],
     rule='A run draws a stepper, a Hamiltonian or acceleration and a history of steps through drawn call forms, each compared with an independent implementation; or makes a long run and checks energy, reversal, symplecticity and order. Non-trivial: at least two steps.')

COMPONENTS['P21'] = {'real': ['20 steppers (one-step, multistep, controlled, dense output) and integrate_const / adaptive / times', 'range, array, vector space, fusion and multi_array algebras, algebra_dispatcher, resize / same_size / copy / state_wrapper of every container, Eigen and GSL adaptors'], 'stub': ['right-hand side (seeded, may throw)', 'global allocator (poisons fresh memory)']}
prop('P21',
     title='The same integration results in every container, algebra and number type',
     statement='A stepper makes the same steps, accept decisions, step sizes, interpolated values and evaluations of the right-hand side whatever type holds the state: std::vector, std::deque, std::list, boost::array, std::array, boost::multi_array, ublas vectors and matrices, fusion sequences (also of quantities with units), Eigen and GSL vectors, single real or complex numbers and user-defined points, each through the algebra chosen for it. This holds through histories of steps, jumps with reset, changes of size of resizeable types, copies and assignments of the stepper (after which the copies share nothing) and exceptions. Float, long double and complex states follow the double result to the accuracy of the type.',
     over=['inputs', 'histories', 'fault_sequences'],
     qtext='every container, algebra and number type listed, every stepper that supports it, all sizes, both directions, all histories of call forms, size changes, copies and exceptions',
     why='tests run most steppers with one container and a constant right-hand side; an algebra operation with a wrong argument, type or element range, or a shallow copy in one adaptor, stays invisible there',
     files=[I + 'algebra/range_algebra.hpp', I + 'algebra/array_algebra.hpp', I + 'algebra/vector_space_algebra.hpp', I + 'algebra/fusion_algebra.hpp', I + 'algebra/multi_array_algebra.hpp', I + 'algebra/default_operations.hpp', I + 'algebra/algebra_dispatcher.hpp', I + 'algebra/norm_result_type.hpp', I + 'util/copy.hpp', I + 'util/resize.hpp', I + 'util/same_size.hpp', I + 'util/state_wrapper.hpp', I + 'util/ublas_wrapper.hpp', I + 'util/multi_array_adaption.hpp', I + 'external/eigen/eigen_algebra.hpp', I + 'external/eigen/eigen_resize.hpp', I + 'external/gsl/gsl_wrapper.hpp'],
     mech=[('algebra chosen from the state type', I + 'algebra/algebra_dispatcher.hpp'), ('element-wise operations for_each1 .. for_each15 and norm_inf of each algebra', I + 'algebra')],
     rule='A run draws a container variant, a stepper and a history (steps through different call forms, jumps, size changes, copies, assignments, exceptions) and drives it in lock step with the same stepper on std::vector; or compares whole integrations or number types. Non-trivial: at least two steps.')

COMPONENTS['P22'] = {'real': ['integrate, integrate_const / n_steps / adaptive / times in all their overloads, observer_collection, null_observer, max_step_checker, reference unwrapping', 'make_controlled and make_dense_output for every stepper with a factory', '11 steppers: basic, multistep, controlled and dense output'], 'stub': ['right-hand side and observer (seeded, may throw)', 'in part of the runs the algebra (counts its calls)']}
prop('P22',
     title='Every way to write the same integration gives the same integration',
     statement='However a call is written, the same integration happens: stepper by value or by reference, right-hand side as function object, lambda, function pointer or reference, observer by value, by reference, as function pointer, as member of an observer_collection, null_observer or none, with or without a step checker, times as iterators or as a range, the state as a range. Observations, returned value, final state and what an exception of the right-hand side or the observer leaves behind are the same; what is passed by reference is used, what is passed by value is left as it was, also for a stepper that has already made steps. integrate() is integrate_adaptive with the controlled Dormand-Prince stepper and tolerances 1e-6, and the steppers made by make_controlled and make_dense_output are those put together by hand with the given tolerances, step size limit and stepper.',
     over=['inputs', 'histories', 'fault_sequences'],
     qtext='every driver, call form, stepper kind, step history before the call, direction, value and time type, tolerance, step size limit, and exception point of right-hand side and observer',
     why='each overload and factory is its own piece of code; tests call most of them once, with a fresh stepper and an end time',
     files=[I + 'integrate/integrate.hpp', I + 'integrate/integrate_const.hpp', I + 'integrate/integrate_n_steps.hpp', I + 'integrate/integrate_adaptive.hpp', I + 'integrate/integrate_times.hpp', I + 'integrate/observer_collection.hpp', I + 'integrate/null_observer.hpp', I + 'integrate/check_adapter.hpp', I + 'stepper/generation/make_controlled.hpp', I + 'stepper/generation/make_dense_output.hpp', I + 'stepper/generation/generation_controlled_runge_kutta.hpp', I + 'stepper/generation/generation_dense_output_runge_kutta.hpp', I + 'stepper/generation/generation_rosenbrock4.hpp', I + 'util/unwrap_reference.hpp'],
     mech=[('overloads with and without observer and checker, for ranges and for references', I + 'integrate'), ('detail drivers hand the stepper on by reference', I + 'integrate/detail/integrate_const.hpp'), ('controller_factory / dense_output_factory', I + 'stepper/generation/make_controlled.hpp')],
     rule='A run draws a stepper kind, a driver, steps made before, exception points and a call form and compares it with the plain call; or a factory with tolerances, limit and types, compared step by step with the stepper put together by hand; or integrate() against integrate_adaptive. Non-trivial: more than three evaluations of the right-hand side.')

COMPONENTS['P23'] = {'real': ['integrate_const / integrate_n_steps / integrate_adaptive / integrate_times of iterator/integrate', 'const_step, n_step, adaptive and times iterators and ranges', 'observer_collection, null_observer, reference unwrapping'], 'stub': STUB_DRV}
prop('P23',
     title='The iterator based integrate functions integrate and observe like the others',
     statement='The integrate functions of boost/numeric/odeint/iterator/integrate, which take the place of those of boost/numeric/odeint/integrate when their headers are included first, keep their promises: integrate_const and integrate_n_steps observe every grid point once and in order with the state of that time, integrate_adaptive the start and every accepted step and the end, integrate_times every requested time; all leave the solution at the last of these times in the caller\'s state, return the number of steps (the end time for integrate_n_steps), zero for an empty sequence of times, and do the same without an observer. One stepper makes all steps of an integration, whatever it accepts, rejects, shrinks or grows, for positive and negative dt and for basic, controlled and dense-output steppers passed by value or by reference.',
     over=['schedules', 'inputs', 'histories'],
     qtext='every driver, stepper category, call form, start, end, list of times and dt of either sign; every sequence of accept / reject / step-size decisions',
     why='tests run them over one grid with a few steppers and look at the observations only; the caller\'s state, the returned counts, null observers, empty sequences and rejections are not sampled',
     files=[I + 'iterator/integrate/detail/integrate_const.hpp', I + 'iterator/integrate/detail/integrate_n_steps.hpp', I + 'iterator/integrate/detail/integrate_adaptive.hpp', I + 'iterator/integrate/detail/integrate_times.hpp', I + 'iterator/integrate/detail/functors.hpp', I + 'iterator/integrate/integrate_const.hpp', I + 'iterator/integrate/observer_collection.hpp'],
     mech=[('for_each over iterator ranges with an observer counting functor', I + 'iterator/integrate/detail/functors.hpp'), ('controlled steppers: one adaptive range per grid interval', I + 'iterator/integrate/detail/integrate_const.hpp')],
     rule='A run draws a driver, a stepper category, a call form, start, end or times, a dt and a schedule of stepper decisions, and compares the record of steps and observations with the grid. Non-trivial: more than one step.')

NOT_APPLICABLE = {}
