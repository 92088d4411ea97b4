import json
P=[]
def p(id,title,st,over,qt,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
I="include/mpc/"
p("C01","Nonlinear MPC: box bounds reach the solver, last write wins",
 "After any sequence of accepted state and input bound calls (whole-horizon matrices, whole-horizon vectors, or slices), the nonlinear solver is given, for every predicted state at steps 1..N and every input move of the control horizon, exactly the most recently set lower and upper bound covering it, and -inf/+inf where none was ever set. A bound given for horizon index k limits the predicted state at step k+1, respectively the k-th input move, always in physical units: with a scaling set before or after, the bound on a decision variable is the physical bound divided by the scale. Setting anything else (parameters, models, functions) never changes these bounds.",
 ["histories","inputs","configurations"],"every history of configuration calls and solves, every horizon shape (nx,nu,ph,ch), every bound value including infinities, static and dynamic allocation",
 "the tests set one uniform bound over the whole horizon on a bare optimizer and read it back; they never mix slices, matrices, scalings or parameter changes, nor look at what the solver receives",
 [I+"NLMPC.hpp",I+"NLMPC/NLOptimizer.hpp"],
 [("lb/ub","bounds per decision variable",I+"NLMPC/NLOptimizer.hpp"),],
 [("setStateBounds/setInputBounds/updateBounds",I+"NLMPC/NLOptimizer.hpp"),("front-end setters",I+"NLMPC.hpp")],
 ["nlopt_optimize (bounds of the nlopt object)"])
p("C02","Horizon slices are validated and cover exactly their steps",
 "A per-horizon setter that takes a slice accepts it exactly when it is the whole-horizon slice {-1,-1} or 0 <= start < end <= horizon length (control horizon for input bounds, prediction horizon for everything else). An accepted call returns true and changes exactly the steps start..end-1 (all steps for the whole-horizon slice); a rejected call returns false and changes nothing. This holds for both the nonlinear and the linear controller and for every slice-taking setter (state, input and output bounds, weights, references, exogenous inputs, scalar constraint).",
 ["inputs","configurations","histories"],"every (start,end) pair, every horizon length, every slice-taking setter, after any history",
 "the tests check {0,ph}, {0,ch} and {0,ph+1} on the validity predicate only (in a file that is not even built here), never interior slices, negative starts, or the effect of the call",
 [I+"IMPC.hpp",I+"NLMPC.hpp",I+"LMPC.hpp",I+"Types.hpp"],
 [("HorizonSlice","start/end indices",I+"Types.hpp")],
 [("isPredictionHorizonSliceValid / isControlHorizonSliceValid",I+"IMPC.hpp")],
 ["return value of the setter","solver bounds / QP at the next optimize"])
p("C03","Nonlinear MPC: solver vector, user callbacks and reported plan agree",
 "For every solver vector, the state, output, input and slack trajectories handed to the user's objective and constraint functions, and the command and optimal sequence reported after a solve, are: state row 0 = the measured initial state, state row k = the k-th state block times the state scale, input row k = the input move min(k, control horizon - 1) times the input scale (last row repeating the row before), output row k = the user's output function at that state, input and step index (zeros without an output function), slack = last entry. The command is the first input row of the solution vector, and it is the solution vector of the current call that is reported.",
 ["inputs","configurations","histories"],"every solver vector and initial state, all shapes with ch<=ph, all positive scalings, static and dynamic allocation",
 "the tests check one mapping example with ones and zeros, without scaling and through internal classes; the reported sequence is only looked at in two closed-loop examples",
 [I+"NLMPC/Mapping.hpp",I+"NLMPC/Model.hpp",I+"NLMPC/NLOptimizer.hpp"],
 [("Iz2u, state_scaling","maps between solver vector and trajectories",I+"NLMPC/Mapping.hpp")],
 [("unwrapVector/computeMapping",I+"NLMPC/Mapping.hpp"),("getOutput",I+"NLMPC/Model.hpp"),("run",I+"NLMPC/NLOptimizer.hpp")],
 ["arguments of user callbacks","Result","getOptimalSequence"])
p("C04","Nonlinear MPC: model constraint residual and Jacobian are exact",
 "At every point the solver probes, the model equality constraint vanishes exactly when the predicted states obey the user's model from the measured initial state: x(k+1) = f(x(k),u(k),k) in discrete time, and the trapezoidal rule x(k+1) = x(k) + Ts/2 (f(x(k),u(k),k) + f(x(k+1),u(k),k)) once a sampling time is set, each residual divided by the state's scale. The Jacobian given to the solver is the derivative of that residual with respect to the solver vector (within finite-difference accuracy), including state scale, input scale and the holding of the last input move, and values do not depend on whether a Jacobian is requested. Only the latest bound model and sampling time count.",
 ["inputs","configurations","histories"],"every smooth (here: polynomial, step-dependent, bilinear) model, every probe point, all shapes and scalings, discrete and continuous time",
 "the test evaluates one 2-state model at one point without scaling and with ch=ph; the Jacobian is never compared with the derivative",
 [I+"NLMPC/Constraints.hpp",I+"NLMPC/Model.hpp",I+"NLMPC/NLOptimizer.hpp"],
 [("ceq/Jceq","residual and Jacobian",I+"NLMPC/Constraints.hpp")],
 [("getStateEqConstraints/computeStateEqJacobian/glueJacobian",I+"NLMPC/Constraints.hpp"),("nloptEqConFunWrapper",I+"NLMPC/NLOptimizer.hpp")],
 ["equality mconstraint callback registered with nlopt"])
p("C05","Nonlinear MPC: user constraints and their Jacobians are exact",
 "At every point the solver probes, the user inequality (<= 0) and equality (= 0) constraint values are exactly the user's functions on the predicted trajectories of that point, and the Jacobians given to the solver are their derivatives with respect to the solver vector (within finite-difference accuracy), through the output function, the scalings, the held last input move (including the repeated final input row) and, for inequalities, the slack. Values do not depend on whether a Jacobian is requested nor on which points were probed before.",
 ["inputs","configurations","histories"],"every smooth (here: polynomial) user function, any number of constraints, every probe point and order of probes, all shapes and scalings",
 "the tests evaluate one affine constraint at one point without scaling; the inequality Jacobian shipped wrong in two releases (changelog 0.6.2)",
 [I+"NLMPC/Constraints.hpp",I+"NLMPC/NLOptimizer.hpp"],
 [("cineq_user/Jcineq_user, ceq_user/Jceq_user","values and Jacobians",I+"NLMPC/Constraints.hpp")],
 [("evaluateIneq/evaluateEq/computeIneqJacobian/computeEqJacobian",I+"NLMPC/Constraints.hpp"),("nloptUserIneqConFunWrapper/nloptUserEqConFunWrapper",I+"NLMPC/NLOptimizer.hpp")],
 ["mconstraint callbacks registered with nlopt"])
p("C06","Nonlinear MPC: objective value and gradient are exact",
 "At every point the solver probes, the objective is exactly the user's cost on the predicted trajectories of that point and the gradient given to the solver is its derivative with respect to the solver vector (within finite-difference accuracy), through the output function, the state and input scalings, the held last input move (including the repeated final input row) and the slack. The value does not depend on whether a gradient is requested nor on which points were probed before, and only the latest bound cost and output functions count.",
 ["inputs","configurations","histories"],"every smooth (here: quadratic, step-dependent) cost, every probe point and order of probes, all shapes and scalings",
 "the test evaluates one quadratic cost at one point for one shape without scaling, outputs or slack and with ch=ph",
 [I+"NLMPC/Objective.hpp",I+"NLMPC/NLOptimizer.hpp",I+"NLMPC/Mapping.hpp"],
 [("Jx/Jmv/Je","partial derivatives",I+"NLMPC/Objective.hpp")],
 [("evaluate/computeJacobian",I+"NLMPC/Objective.hpp"),("nloptObjFunWrapper",I+"NLMPC/NLOptimizer.hpp")],
 ["objective callback registered with nlopt"])
p("C07","Nonlinear MPC: results report the solve truthfully, failures keep last cmd",
 "When the solver ends normally the result carries its return code, its optimal cost and the status SUCCESS (converged or stop value) or MAX_ITERATION (evaluation or time limit), and is flagged feasible exactly when every user inequality is <= its tolerance and every user equality is within its tolerance at the solution (a value that is not a number is not feasible). When the solver fails or a user function throws, optimize still returns: status ERROR, solver code -1, infinite cost, not feasible, a non-empty message, the command of the last result unchanged, and an all-zero sequence. The last-result getter always equals what the latest optimize returned.",
 ["histories","fault_sequences","inputs"],"every interleaving of successful, limited and failing solves and throwing user functions, every solver return code",
 "no test makes the solver fail, hit a limit or throw; return codes and the sequence after failure are never checked",
 [I+"NLMPC/NLOptimizer.hpp",I+"NLMPC/Constraints.hpp",I+"IMPC.hpp",I+"Types.hpp"],
 [("result/sequence","last result",I+"IOptimizer.hpp")],
 [("run/convertToResultStatus",I+"NLMPC/NLOptimizer.hpp"),("isFeasible",I+"NLMPC/Constraints.hpp"),("getLastResult/optimize",I+"IMPC.hpp")],
 ["Result","getLastResult","getOptimalSequence"])
p("C08","Nonlinear MPC: the solver starts from the right initial guess",
 "Without warm start, and until a first solve has succeeded, the solver starts from the measured state repeated over the prediction horizon and the given last input repeated over the control horizon. With warm start it starts from the last stored plan shifted one step towards the present with the last step repeated (inputs shifted along the prediction horizon and re-blocked); a failed solve never replaces a stored plan by anything the solver left behind. The guess is expressed in solver (scaled) units, its slack entry is the slack of the last successful solution (zero before), and every entry is moved to the nearest value inside its bounds so that the solver never rejects it.",
 ["histories","fault_sequences","configurations"],"every history of solves, failures and warm-start toggles, all shapes with ch<=ph, scalings and bounds",
 "warm start is never exercised by a test",
 [I+"NLMPC/NLOptimizer.hpp",I+"NLMPC/Mapping.hpp"],
 [("opt_vector, is_first_iteration, currentSlack","stored plan",I+"NLMPC/NLOptimizer.hpp")],
 [("run",I+"NLMPC/NLOptimizer.hpp")],
 ["start vector passed to nlopt_optimize"])
p("C09","Nonlinear MPC: the solver runs the latest parameters and functions once",
 "At each solve the solver holds the most recently set tolerances, evaluation limit and time limit (defaults: all tolerances disabled, 100 evaluations, no time limit), and exactly one model constraint plus one registration for each user constraint kind that has been bound, with the tolerance of its latest binding and calling only its latest function, whatever the order and number of binding calls. The slack variable is fixed to zero when hard constraints are requested (the default) and free when they are not, following the latest setting.",
 ["histories","configurations"],"every sequence of parameter and function binding calls interleaved with solves",
 "tests bind each function once and set parameters once; the solver-side configuration is never read back",
 [I+"NLMPC/NLOptimizer.hpp",I+"NLMPC.hpp",I+"NLMPC/Constraints.hpp",I+"Types.hpp"],
 [("innerOpt","solver object configuration",I+"NLMPC/NLOptimizer.hpp")],
 [("setParameters/bindObjective/bindEq/bindUserIneq/bindUserEq",I+"NLMPC/NLOptimizer.hpp")],
 ["nlopt object at nlopt_optimize","nlopt_add_*_mconstraint"])
p("C10","Linear MPC: the QP's equality part is the system over the horizon",
 "The vectors allowed by the equality part of the QP handed to the solver are exactly the trajectories with x_0 = measured state, u_{-1} = given last input, u_k = u_{k-1} + du_k, x_{k+1} = A x_k + B u_k + Bd d_k for k = 0..N-1, and du_k = 0 from the end of the control horizon on. It uses the latest model, disturbance matrices and per-step exogenous inputs, whatever the order of the setters and the number of earlier solves.",
 ["inputs","histories","configurations"],"every (A,B,Bd), state, last input and exogenous input sequence, all shapes with ch<=ph, static and dynamic allocation",
 "the linear controller's tests need OSQP (not built here) and check the default right-hand sides of one shape; nothing checks ch<ph or time-varying disturbances",
 [I+"LMPC/ProblemBuilder.hpp",I+"LMPC/LOptimizer.hpp",I+"LMPC.hpp"],
 [("ssA/ssB/ssBv, leq","augmented model",I+"LMPC/ProblemBuilder.hpp")],
 [("setStateModel/setExogenousInput/get/buildTimeInvariantTems",I+"LMPC/ProblemBuilder.hpp"),("createOsqpSparseMatrix",I+"LMPC/LOptimizer.hpp")],
 ["OSQPData passed to osqp_setup"])
p("C11","Linear MPC: the QP's inequality part is the configured constraints",
 "The inequality part of the QP handed to the solver is exactly: for every horizon index k the latest bounds set for it on the state and output of step k+1 and on the input u_k (inputs after the control horizon follow the last control move's bounds), and the latest scalar constraint min <= xs'x + us'u <= max set for it, relating the state of step k+1 and the input applied at that step (u_{N-1} at the last step); index 0 also applies to the current step. Outputs are y_k = C x_k + Dd d_k (the last given d at step N), unset bounds are infinite, and whole-horizon, slice and matrix forms of the setters agree.",
 ["inputs","histories","configurations"],"every sequence of bound/scalar/model/disturbance setters, every index and slice, all shapes with ch<=ph",
 "the only test sets one uniform value for all bounds with ch=ph on the internal builder; it needs OSQP and is not built here",
 [I+"LMPC/ProblemBuilder.hpp",I+"LMPC.hpp"],
 [("minX,maxX,minY,maxY,minU,maxU,sMin,sMax,sMultiplier","per-step constraints",I+"LMPC/ProblemBuilder.hpp")],
 [("set*Bounds/setScalarConstraint/buildTimeInvariantTems/get",I+"LMPC/ProblemBuilder.hpp")],
 ["OSQPData passed to osqp_setup"])
p("C12","Linear MPC: the QP's cost is the configured tracking cost",
 "Up to a constant, the QP's objective is half the sum over steps 1..N of the weighted squared output error y_k - yref (weights and references of index k-1), over inputs 0..N-1 of the weighted squared u_k - uref_k, and over moves 0..N-1 of the weighted squared du_k - duref_k, with the same first-index output and input terms also put on the current step. Outputs include the disturbance feed-through, and the latest weights, references, exogenous inputs and model apply per step, whatever the setter form and order.",
 ["inputs","histories","configurations"],"every weight, reference, disturbance and model sequence, all shapes, whole-horizon/slice/matrix forms",
 "no test looks at P or q at all",
 [I+"LMPC/ProblemBuilder.hpp",I+"LMPC/LOptimizer.hpp",I+"LMPC.hpp"],
 [("wOutput,wU,wDeltaU, outSysRef,cmdSysRef,deltaCmdSysRef,extInputMeas","weights and references",I+"LMPC/ProblemBuilder.hpp")],
 [("setObjective/get/buildTimeInvariantTems",I+"LMPC/ProblemBuilder.hpp"),("setReferences/setExogenousInputs",I+"LMPC/LOptimizer.hpp")],
 ["OSQPData passed to osqp_setup"])
p("C13","Linear MPC: the reported plan and status are the solver's, failures are safe",
 "When the solver returns a solution, the reported command, state, input and output sequences, cost, code and status are those of that solution: row k holds x_k, u_k and y_k = C x_k + Dd d_k (u_{N-1} repeated in the last row), the command is u_0, solved (also inaccurately) maps to SUCCESS and iteration limit to MAX_ITERATION, and it is flagged feasible exactly for these. When it returns none (infeasible, unbounded, non-convex, or setup refused) optimize still returns: the command is the last result's, cost is infinite, it is not feasible, sequences are zero, and the status is INFEASIBLE for every (also inaccurate) infeasibility certificate and ERROR otherwise. Other endings with a vector (time limit, interruption) report that vector but are neither SUCCESS nor feasible.",
 ["histories","fault_sequences","inputs"],"every interleaving of solver endings over all status codes, refused set-ups, all shapes",
 "no test reaches a solver ending other than solved, and none of the linear tests is built here",
 [I+"LMPC/LOptimizer.hpp",I+"IMPC.hpp"],
 [("result/sequence","last result",I+"IOptimizer.hpp")],
 [("run/convertToResultStatus",I+"LMPC/LOptimizer.hpp"),("mapToOutput",I+"LMPC/ProblemBuilder.hpp")],
 ["Result","getLastResult","getOptimalSequence"])
p("C14","Linear MPC: solver settings, warm start and workspace use are correct",
 "Every solve sets up the solver once with the most recently set parameters (alpha, rho, tolerances, iteration and time limit, verbosity, polishing, adaptive rho, warm start), and releases exactly the workspace it set up, never one released before; a destroyed controller gives back everything it allocated. It is warm started exactly when warm start is on and a plan is stored, with the primal and dual vectors of the last solution or the ones the user supplied since, which the getters return; a solve without a solution leaves the stored vectors as they were.",
 ["histories","fault_sequences","configurations"],"every history of parameter changes, solves with every ending, and warm-start overrides",
 "no test exercises warm start, parameter changes or the solver object's life cycle",
 [I+"LMPC/LOptimizer.hpp",I+"LMPC.hpp"],
 [("optimal_prev_x/optimal_prev_y, work","stored plan, workspace",I+"LMPC/LOptimizer.hpp")],
 [("run/initData/clearData/setParameters",I+"LMPC/LOptimizer.hpp"),("setSolverWarmStart/getSolverWarmStart*",I+"LMPC.hpp")],
 ["osqp_setup/osqp_warm_start/osqp_solve/osqp_cleanup calls"])
p("C15","Controllers are independent of each other",
 "Whatever is called on one controller (configuration, solves, failures, statistics resets, destruction), the problem another controller hands to its solver, its initial guess, its results, its sequence and its statistics are what they would have been without those calls, whether the calls alternate in one thread or the controllers are used in threads of their own, at whatever points these take turns. Only the logger is shared.",
 ["histories","configurations","schedules"],"every interleaving of calls, and of user functions and solver interactions inside them, on two or three live controllers of the same or different shapes, both kinds",
 "one linear test (not built here) creates several controllers and runs them one after the other",
 [I+"NLMPC.hpp",I+"LMPC.hpp",I+"IMPC.hpp"],
 [("optPtr, objF, conF, model, mapping, builder, profiler","per-instance components",I+"IMPC.hpp")],
 [("per-instance members",I+"NLMPC.hpp"),("per-instance members",I+"LMPC.hpp")],
 ["solver calls of every instance","Result","getExecutionStats"])
p("C16","Static and dynamic allocation behave identically",
 "A controller whose dimensions are template arguments and one given the same dimensions at run time, driven by the same calls, hand the same problem, guess and settings to the solver, return the same values from every call and report the same results, up to the sign of zeros and the rounding of sums taken in another order.",
 ["histories","inputs","configurations"],"every call history and shape, both controllers, with every solver ending",
 "each test is compiled for both variants, but its assertions see only a few numbers of each",
 [I+"Types.hpp",I+"Dim.hpp",I+"NLMPC.hpp",I+"LMPC.hpp"],
 [("runtime_size_*","run-time dimensions",I+"IDimensionable.hpp")],
 [("COND_RESIZE_MAT",I+"Types.hpp"),("Size arithmetic",I+"Dim.hpp"),("setDimension",I+"IDimensionable.hpp")],
 ["solver calls","Result","getOptimalSequence"])
p("C17","Logger prints exactly the enabled messages, with the current prefix",
 "After any sequence of logger calls, a message is written exactly when its severity is at or above the current threshold (nothing at all at NONE), it is written in full, in order, to the current stream and to no other, and it starts with the tag carrying the prefix in force when the message was opened. Reset restores the normal threshold and the empty prefix and keeps the stream; the controllers' logger setters act on this same logger.",
 ["histories","inputs"],"every sequence of level, prefix, stream, reset and (multi-part) log calls",
 "the tests check three fixed sequences",
 [I+"Logger.hpp",I+"IMPC.hpp"],
 [("thresholdLevel, prefix, os, currentType","logger state",I+"Logger.hpp")],
 [("log/operator<<",I+"Logger.hpp")],
 ["text on the configured streams"])
p("C18","Execution statistics describe exactly the solves since the last reset",
 "After any sequence of solves, reset calls and queries, the statistics give the number of solves since creation or the last reset, their total, minimum, maximum and mean duration, the (population) standard deviation of the durations, and per result status how many ended so; printing them shows these numbers and percentages. Every optimize call counts once, also when the solver fails.",
 ["histories","inputs"],"every sequence of durations and statuses, any number of solves, resets anywhere",
 "the test sleeps twice and checks to 10 ms; the deviation of more than two samples, status counts and reset are not checked",
 [I+"Profiler.hpp",I+"IMPC.hpp"],
 [("SolutionStats fields","running statistics",I+"Profiler.hpp")],
 [("addSolutionTime/solutionEnd/clear",I+"Profiler.hpp"),("optimize/resetStats",I+"IMPC.hpp")],
 ["getExecutionStats","printed statistics"])
p("C19","RK4 integrator performs classical Runge-Kutta steps in time",
 "Running the integrator for n steps of length h from (t, x) equals n classical fourth-order Runge-Kutta steps, the i-th starting at time t + i h from the previous result; so it composes (n+m steps = n steps then m steps from time t + n h), is exact for polynomial vector fields in time up to degree three, and leaves its arguments and the integrator unchanged between runs.",
 ["inputs","histories"],"every polynomial/linear time-varying field, start time, step (also negative), number of steps and dimension",
 "no test runs the integrator with a time-varying field or more than one step",
 [I+"Integrator.hpp"],
 [("k1..k4, sol","stages",I+"Integrator.hpp")],
 [("run",I+"Integrator.hpp")],
 ["return value"])
p("C20","Discretisation is exact zero-order hold",
 "For every A, B (and disturbance matrix Be) and Ts, the discretised matrices are Ad = exp(A Ts), Bd = (integral over [0,Ts] of exp(A s)) B and likewise Bed; outputs C, D pass unchanged, and all overloads agree. Hence discretising with 2 Ts equals two steps with Ts, and polynomial (nilpotent) cases are exact up to rounding.",
 ["inputs","configurations"],"every matrix pair, sampling time and number of states/inputs/disturbances/outputs",
 "one 2x1 example is tested for one overload",
 [I+"Utils.hpp"],
 [],
 [("discretization overloads",I+"Utils.hpp")],
 ["output arguments"])
p("C21","Nonlinear MPC: real solves are optimal, within bounds, model-consistent",
 "Run with the bundled NLopt solver, a nonlinear controller delivers what it is for: of the linear-quadratic problems (discrete or continuous time, with bounds, user constraints, scalings, hard or soft, warm start on or off, one controller reused for many different problems) that are regular (strictly convex, a feasible point, independent gradients of the active constraints), nearly all (nine in ten at least: the solver may give up now and then) are solved, with status SUCCESS, reported feasible, and with the optimum as the plan. And every regular problem reported as SUCCESS returns a plan that starts at the measured state, lies within its bounds, holds the input beyond the control horizon, has the outputs of its states and inputs, and whose reported cost is the user's cost (plus the slack's, when soft); reported feasible, it also follows the model and satisfies the user constraints up to the slack.",
 ["histories","inputs","configurations"],"closed-loop runs of linear-quadratic and bilinear problems over shapes, bounds, scalings and warm start settings",
 "two closed-loop examples are tested, without bounds, scaling or warm start, for one tuning each",
 [I+"NLMPC.hpp",I+"NLMPC/NLOptimizer.hpp",I+"NLMPC/Constraints.hpp",I+"NLMPC/Objective.hpp",I+"NLMPC/Mapping.hpp"],
 [],
 [("run",I+"NLMPC/NLOptimizer.hpp")],
 ["Result","getOptimalSequence"])
p("C22","Dimension arithmetic is exact and propagates unknown sizes",
 "Sums, differences and products of problem dimensions, with each other or with plain integers on either side, are the integer results when both operands are known, and unknown (run-time) when either is.",
 ["inputs"],"all operand pairs of a small range including the unknown size, all operators and operand kinds",
 "no test exercises it; a wrong size shows only for the operand order used by some future expression",
 [I+"Dim.hpp",I+"Types.hpp"],
 [],
 [("Size operators",I+"Dim.hpp"),("make_dimension",I+"Types.hpp")],
 ["Size values"])
p("C23","Python bindings forward faithfully to the C++ controllers",
 "The Python module offers the interface of the run-time-sized C++ controllers: every setter (all overloads, with optional tolerances left out too), solver parameters, solve, result (with status, cost, command, feasibility), optimal sequence, statistics, warm start, logger setting and horizon slice can be used from Python, each call reaches the C++ function of that name whose arguments it has (also with integers where numbers are expected and lists where vectors are), user functions written in Python are called with the same arguments and their results used the same way, None means no function, and an exception raised in one ends the solve like a C++ one. So every history of calls through the bindings has the same effects on the solver and the same results as the same history on the C++ controllers.",
 ["histories","inputs"],"every call history through the bindings, every overload and form of argument",
 "there are no tests of the bindings (and the build does not compile them)",
 ["python/pybind_export.cpp"],
 [],
 [("PYBIND11_MODULE, expose_NLMPC, expose_LMPC","python/pybind_export.cpp")],
 ["names, signatures and attributes registered","solver problem, callbacks and results of calls made through them"])
p("C24","Controllers hold bounded memory and give all of it back",
 "Destroying a controller, linear or nonlinear, static or run-time sized, gives back everything it acquired, whatever was configured and however its solves ended (success, failure, refused set-up, exceptions in user functions). And a controller that is configured and solved again and again through the same calls does not hold more after each round than after the first ones.",
 ["histories","configurations"],"every history of construction, configuration, solves (with every ending) and destruction, repeated",
 "no test looks at memory; a leak of one block per solve or per controller passes every functional test",
 [I+"NLMPC.hpp",I+"LMPC.hpp",I+"NLMPC/NLOptimizer.hpp",I+"LMPC/LOptimizer.hpp"],
 [("innerOpt, optPtr, work, data, settings","owned solver objects",I+"NLMPC/NLOptimizer.hpp, "+I+"LMPC/LOptimizer.hpp")],
 [("destructors",I+"NLMPC.hpp, "+I+"LMPC.hpp"),("clearData/initData",I+"LMPC/LOptimizer.hpp")],
 ["blocks of memory in use between calls"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
