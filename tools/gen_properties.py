#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe: d["anchors"]["observe_at"] = [observe]
    P.append(d)

HI = "src/solver/hierarchical-iterative.cc"; BS = "src/solver/by-substitution.cc"
HIH = "include/hpp/constraints/solver/impl/hierarchical-iterative.hh"; BSH = "include/hpp/constraints/solver/impl/by-substitution.hh"
ECS = "src/explicit-constraint-set.cc"; IMP = "src/implicit.cc"; EXP = "src/explicit.cc"; ICS = "include/hpp/constraints/implicit-constraint-set.hh"

p("C01", "A reported success is a real success",
  "Whenever a solver reports success, every constraint it was given (implicit at every non-optional priority level, and explicit) is satisfied at the returned configuration within the solver's error threshold, for the comparison types, active rows and right hand sides in force at that moment. The satisfaction queries (whole solver, single constraint, residual error) answer yes exactly when that is so, up to rounding at the threshold, and a configuration at which a constraint evaluates to a non-number is never reported as solved or satisfied. This holds after any history of additions, merges, right hand side changes, option changes, failed solves and constraint evaluations that throw.",
  ["histories", "fault_sequences", "configurations"],
  "for every sequence of solver operations interleaved with failing (throwing, NaN, infinite) constraint evaluations, every mix of priorities, comparison types, masks, line searches and options",
  "tests solve a handful of hand-written problems on a fresh solver; the verdict depends on offsets, right hand sides, options and cached values accumulated over an arbitrary history, and on evaluations failing at arbitrary points",
  [HI, BS, HIH, BSH, ECS, IMP],
  [("termination verdict of the iterative solver", HIH), ("termination verdict of the solver by substitution", BSH), ("max over constraints of squared error", HI), ("satisfaction of explicit constraints", ECS)],
  [("squaredNorm_", "error on which every verdict is taken"), ("datas_", "per level output, right hand side and error")],
  "return value of solve/isSatisfied/isConstraintSatisfied/residualError versus an independent evaluation of every constraint")
p("C02", "Solving only moves what it may move",
  "A solve call modifies only the free variables and the outputs of the explicit constraints: every other configuration variable comes back unchanged. A configuration that starts inside the bounds given to the solver comes back with every variable that is not an explicit output inside those bounds, and its rotation parts stay normalised. Both hold whatever the outcome of the call, including when a constraint evaluation throws in the middle of it.",
  ["histories", "fault_sequences", "inputs"],
  "for every solver state, start configuration, option set, and every evaluation at which a constraint may fail",
  "a test looks at the final configuration of successful solves; here the frame condition has to hold at every exit of the loop, including exits by exception and by failure, for every subset of free variables",
  [HI, HIH, BSH, BS],
  [("integration and saturation of a step", HI), ("expansion of the reduced step to the free variables", HI), ("saturation rules (bounds, device, user function)", HI), ("best configuration kept while optimising", BSH)],
  [("freeVariables_", "degrees of freedom the solver may move"), ("saturate_", "bounds in force")],
  "the configuration vector handed to solve, before and after")
p("C03", "Solving is bounded work and makes progress once failures stop",
  "A solve call ends after a number of constraint evaluations bounded by a multiple of the iteration limit, whatever values or errors the constraint functions return. Once evaluations stop failing, a solver with consistent, well conditioned constraints started close to a solution reports success and returns a solution, however many calls failed before. A start that already satisfies all constraints is reported as success whatever the iteration limit, and an optimising solve started well inside the error threshold never returns a less feasible or more costly configuration.",
  ["histories", "fault_sequences"],
  "for every iteration limit, line search and option set, every adversarial sequence of values returned by constraint functions, and every history of failed calls before the faults stop",
  "termination against adversarial evaluations and recovery after arbitrary failed calls are statements about all histories; tests only show that some solves converge",
  [HIH, BSH, HI],
  [("iteration loop", HIH), ("iteration loop by substitution, optimisation mode", BSH), ("descent direction by level", HI), ("line searches", HIH)],
  [("maxIterations_", "iteration limit"), ("maxRank/sigma_", "conditioning memory kept between calls")],
  "number of evaluations per solve call and its verdict once faults stop")
p("C04", "The past of a solver does not influence its answers",
  "What a solver answers (solve status and configuration, satisfaction, errors, reduced dimension, free variables) depends only on its present constraints with their priorities, its right hand sides and its options: a freshly built solver given the same ones answers the same. Queries, earlier solves, intermediate right hand sides and evaluations aborted by an exception leave no trace. An addition that is refused leaves the solver as it was.",
  ["histories", "fault_sequences"],
  "for every history of operations and failing evaluations leading to a given set of constraints, right hand sides and options",
  "the solver keeps a dozen mutable buffers between calls; only comparing against a fresh solver after arbitrary histories shows that none of them leaks into an answer",
  [HI, BS, ECS, ICS, "src/differentiable-function-set.cc"],
  [("buffers kept between calls", HI), ("dimension bookkeeping on addition", HI), ("explicit set bookkeeping on addition", ECS)],
  [("datas_", "per level buffers"), ("dq_, dqSmall_, saturation_, qSat_", "mutable scratch state")],
  "answers of the long-lived solver versus those of a freshly built one")
p("C05", "Right hand sides are kept per constraint and read back as set",
  "On a solver whose constraints and free variables stay the same, after any sequence of right hand side changes (one constraint, whole vector, from a configuration, at a time parameter), reading the right hand side of a constraint returns the value last set for it, and changing one constraint's right hand side changes no other's. The stacked vector has the advertised size, reading it and writing it back changes nothing, and writing a stacked vector gives each constraint its own segment, implicit or explicit, at any number of priority levels. A configuration from which right hand sides were taken satisfies every constraint in its rows with equality comparison, and rows of other comparison types keep a zero right hand side.",
  ["histories", "configurations"],
  "for every interleaving of right hand side operations, additions and solves, over any number of levels, comparison types, and vector or Lie group valued constraints",
  "tests set a right hand side on one or two constraints in one level; offsets between levels, between implicit and explicit constraints and between vector and Lie group sizes only show over combined histories",
  [HI, BS, ECS, IMP, ICS],
  [("per constraint offset lookup", HI), ("stacked read and write", BS), ("right hand side of explicit constraints", ECS), ("right hand side from a configuration", IMP)],
  [("iq_, iv_, priority_", "where each constraint's right hand side lives"), ("rhs_implicit", "right hand side of an explicit constraint")],
  "get/set/stacked right hand side calls and solve results")
p("C06", "Copies and extracted solvers are independent of their source",
  "A copy of a solver, and a solver extracted over a time interval, answer as the source did at the moment of the copy. Whatever is done afterwards to one of them (right hand sides, right hand side functions, comparison types, options, additions, merges, further copies, failing solves, destruction) changes no answer of the others. This also holds for copies of single constraints.",
  ["histories", "fault_sequences"],
  "for every history of operations interleaved over a population of solvers derived from one another",
  "aliasing shows only when a specific later operation on one object meets a shared part of another; tests copy once and look at the copy",
  [HI, BS, ECS, IMP, EXP, ICS],
  [("copy constructors and replacement of the constraints in the sets", HI), ("copy and extraction by substitution", BS), ("constraint copies", IMP)],
  [("constraints_", "constraint objects owned by each solver"), ("oldToNew", "replacement map used when copying")],
  "answers of every solver of the population after every operation on one of them")
p("C07", "Concurrent evaluation on one robot equals sequential evaluation",
  "Threads that evaluate values and Jacobians of constraint functions of one robot at the same time (position, orientation, transformation, relative forms, centre of mass, configuration, contact between convex shapes, explicit relative poses and the implicit form of explicit constraints, sets and differences of functions), through shared function objects or through their own copy of a solver, get the results a sequential evaluation gives, for every interleaving. No interleaving contains two unordered conflicting accesses to the same memory inside the library. This holds with any number of robot data and with threads that fail or stall in the middle of an evaluation.",
  ["schedules", "fault_sequences"],
  "for every interleaving of the threads at memory access granularity, every number of threads and of robot data",
  "a test runs one interleaving chosen by the operating system and passes by luck; a data race needs a specific preemption between two accesses",
  ["src/generic-transformation.cc", "src/generic-transformation/helper.hh", "src/relative-com.cc", "src/convex-shape-contact.cc", "src/configuration-constraint.cc", "src/explicit/implicit-function.cc", "src/explicit/relative-transformation.cc", "include/hpp/constraints/differentiable-function-set.hh", HI],
  [("per call robot data", "src/generic-transformation/helper.hh"), ("contact state computed per call", "src/convex-shape-contact.cc"), ("centre of mass Jacobian", "src/relative-com.cc")],
  [("robot data pool", "which thread computes on which robot data")],
  "values returned to each thread, and happens-before order of every access to shared memory")
p("C08", "Robot data are never lost, shared or waited for in a cycle",
  "An evaluation holds at most one robot data at a time, gives it back when it ends, normally or by an exception, and nobody else uses that data meanwhile. Therefore any number of threads makes progress with one or more robot data, and after every evaluation has ended all robot data are available again.",
  ["schedules", "fault_sequences"],
  "for every interleaving of evaluations, nested evaluations and failures over a pool of one or more robot data",
  "a leaked or doubly held data only blocks when the pool is exhausted by a particular schedule or failure; tests never fail inside an evaluation nor run with a single data",
  ["src/generic-transformation/helper.hh", "src/convex-shape-contact.cc", "src/relative-com.cc", "src/generic-transformation.cc"],
  [("scoped acquisition of robot data", "src/generic-transformation/helper.hh"), ("scoped acquisition in contact functions", "src/convex-shape-contact.cc"), ("scoped acquisition in centre of mass", "src/relative-com.cc")],
  [("robot data pool", "data available")],
  "blocked threads and available data at every scheduling point")
p("C09", "A saved solver or constraint restarts as the same one",
  "Constraints, explicit constraints and solvers that were saved and loaded again (in another process, in any supported archive format) behave as the saved ones: same functions, comparison types, active rows, priorities, thresholds, iteration limit, options and bounds, hence the same values, satisfaction verdicts and solve results once the same right hand sides are given. Saving does not change the saved object, and objects shared before saving stay shared after loading.",
  ["crash_points", "histories", "configurations"],
  "for every solver or constraint reachable by a history of operations and a restart at any point of it where only what was saved survives",
  "tests round-trip one solver and compare a few fields; every field not restored only matters for some later operation on the restarted solver",
  [HI, BS, IMP, EXP, "src/serialization.hh", "src/locked-joint.cc", "src/generic-transformation.cc", "src/affine-function.cc", "src/explicit/relative-pose.cc", "src/explicit/relative-transformation.cc"],
  [("load/save of solvers", HI), ("load/save by substitution", BS), ("serialize of constraints", IMP), ("serialize of functions", "src/generic-transformation.cc")],
  [("archive", "the only state that survives the restart")],
  "behaviour of the loaded object versus the saved one")
p("C10", "A torn or damaged archive is never silently accepted as another problem",
  "Loading an archive of a constraint or solver that was cut short by a crash or a full disk (in the text format: after a complete value; in the xml format: before the closing tag of the archive) either raises an error or yields an object equivalent to the saved one; it never yields a different object, never crashes and never hangs. Saving to a stream that fails reports an error or leaves the stream in a failed state. A failed save or load leaves the saved objects, and every other object made before, unchanged and fully usable, and the complete archive can be loaded afterwards.",
  ["crash_points", "fault_sequences"],
  "for every prefix of an archive, every point at which the stream fails while saving or loading, every object reachable by a history of operations",
  "tests only read complete archives written to a string; every cut or failure position is a separate case",
  [HI, BS, IMP, EXP, "src/serialization.hh"],
  [("load of solvers", HI), ("load by substitution", BS), ("load of constraints", IMP)],
  [("archive bytes", "durable state"), ("stream state", "failure indicator")],
  "outcome of load, and behaviour of the objects after the failure")
p("C11", "Explicit constraints hold whatever the order they are added in",
  "After solving the explicit constraints, every output equals its function of the final inputs plus its right hand side, however constraints are chained and in whatever order they were added; solving twice changes nothing, and variables that are not outputs do not move. A constraint that would make a cycle, or recompute an output that is already computed, is refused without effect (the solver then treats it as implicit), and the advertised inputs, outputs, dependencies and Jacobian of the set match the accepted constraints. A function that is undefined at some inputs makes the solve infeasible there and leaves the set usable.",
  ["histories", "fault_sequences", "configurations"],
  "for every dependency graph of explicit constraints, every insertion order, right hand side history and undefined-value failure",
  "tests use fixed chains of two or three constraints in one order; ordering, cycle and dependency bookkeeping depend on the whole insertion history",
  [ECS, EXP, BS, "src/explicit/relative-pose.cc", "src/explicit/relative-transformation.cc", "src/explicit/implicit-function.cc", "src/locked-joint.cc"],
  [("order of computation", ECS), ("cycle and double output refusal", ECS), ("explicit solution with right hand side", EXP), ("undefined values", BSH)],
  [("argFunction_, derFunction_", "which constraint computes a variable"), ("computationOrder_", "evaluation order"), ("inOutDependencies_", "inputs each constraint depends on")],
  "configuration after solve, refusal verdicts, Jacobian and index queries versus a reference evaluation")
p("C12", "A solver is the set of the constraints given to it",
  "After any sequence of additions and merges a solver holds exactly the constraints given to it, each once, at the priority it was given; adding one that is already there is refused and changes nothing, and merging adds exactly the missing ones at the priority they had. Membership, submanifold, dimension, activity and level queries answer accordingly, and the order of additions does not change which configurations satisfy the solver. This also holds after copies and after operations that fail half way.",
  ["histories", "fault_sequences"],
  "for every sequence of additions, duplicate additions, merges and copies over a pool of equal and different constraints at any priorities",
  "bookkeeping errors show only for particular overlaps between two solvers or repeated operations; tests merge one pair",
  [HI, BS, IMP, EXP, ICS, "src/differentiable-function-set.cc", "src/differentiable-function.cc"],
  [("addition and duplicate refusal", HI), ("merge", HI), ("equality of constraints", IMP), ("submanifold query", HI)],
  [("constraints_", "constraints in the solver"), ("priority_", "level of each implicit constraint")],
  "membership, level and dimension queries versus a reference set")
p("C13", "Answers depend on the inputs alone, not on memory contents or layout",
  "The same sequence of calls with the same inputs gives the same answers whatever the addresses at which objects are allocated and whatever bytes uninitialised memory happens to contain. No call reads memory it has not written, outside its objects, or after release.",
  ["schedules", "histories"],
  "for every history of calls, every layout of the heap and every initial content of fresh memory",
  "a test runs with one layout and mostly zeroed memory; maps ordered by address and matrices resized without initialisation only differ under another layout",
  [HI, BS, ECS, IMP, "src/locked-joint.cc", "src/convex-shape-contact.cc", "src/differentiable-function-set.cc"],
  [("maps ordered by address", HI), ("resized buffers", HI), ("resized buffers of explicit constraints", ECS), ("constructors of locked joints", "src/locked-joint.cc")],
  [("iq_, iv_, priority_", "maps keyed by pointer")],
  "transcripts of one history replayed under different memory layouts and contents")
p("C14", "Evaluating a function does not depend on what was evaluated before",
  "For every constraint function, the value and the Jacobian at a configuration are the same whatever was evaluated before: on the same function object, on other functions, on the robot itself (its current configuration, joint positions), and after evaluations that were aborted. Evaluating a Jacobian without evaluating the value first is allowed, and evaluation order does not matter. Whether two functions compare equal does not depend on what was evaluated either.",
  ["histories", "fault_sequences"],
  "for every sequence of value and Jacobian evaluations at arbitrary configurations over a set of functions that share a robot, with robot state changes and failures in between",
  "functions cache and share robot state; a stale cache shows only for a specific sequence of configurations across functions",
  ["src/distance-between-bodies.cc", "src/distance-between-points-in-bodies.cc", "src/relative-com.cc", "src/com-between-feet.cc", "src/generic-transformation.cc", "src/convex-shape-contact.cc", "src/manipulability.cc", "src/static-stability.cc", "src/differentiable-function-set.cc", "src/function/difference.cc", "src/function/of-parameter-subset.cc", "src/explicit/relative-transformation.cc", "include/hpp/constraints/symbolic-calculus.hh", "include/hpp/constraints/active-set-differentiable-function.hh"],
  [("cached argument of distance functions", "src/distance-between-bodies.cc"), ("cached intermediate values of symbolic expressions", "include/hpp/constraints/symbolic-calculus.hh"), ("mutable buffers", "src/function/difference.cc")],
  [("latestArgument_", "configuration a cached result belongs to"), ("robot current configuration", "shared between functions")],
  "value and Jacobian after a history versus those of a fresh process")
p("C15", "Time varying right hand sides follow the parameter, also after extraction",
  "Setting the time parameter gives every constraint that has a right hand side function the value of that function at this time, and changes no other constraint; the result depends on the last parameter set only, whatever jumps, repetitions and reversals came before. A solver extracted over an interval starting at a time answers at parameter s as its source does at the start plus s, or at the start minus s when the interval is reversed, and extractions compose.",
  ["histories", "schedules"],
  "for every sequence of time parameters including backward jumps and repeats, every interval forward or reversed, and nested extractions",
  "tests evaluate a single increasing time sequence; clock jumps, reversal and nested extraction are separate histories",
  [HI, BS, IMP, "src/differentiable-function.cc", "src/extracted-function.hh"],
  [("right hand side at a parameter", HI), ("extraction of solvers", BS), ("extracted functions", "src/extracted-function.hh")],
  [("rhsFunction_", "right hand side as a function of time"), ("output_", "last evaluated right hand side")],
  "right hand sides and solve results after each parameter change")
p("C16", "Projection on the tangent space is tangent, minimal and repeatable",
  "In a solver with at least one active implicit constraint, projecting a velocity on the kernel of the constraints gives a velocity of the free variables that, with the outputs of explicit constraints following, moves no active implicit constraint to first order, and is the closest such velocity (so it is unchanged when already in the kernel); projecting a configuration gives the start moved by that velocity and kept inside the bounds. The result depends only on the constraints and the arguments, never on earlier solves, projections or failed evaluations.",
  ["histories", "fault_sequences"],
  "for every solver state reached by a history of operations and failing evaluations, every configuration and velocity",
  "tests do not check the projection against the constraint Jacobian, and leftovers of earlier computations in shared buffers need a history to show",
  [BS, "include/hpp/constraints/svd.hh", HI],
  [("projection of a velocity", BS), ("projection of a configuration", BS), ("kernel bases", "include/hpp/constraints/svd.hh")],
  [("reducedJ_, svd_, dqSmall_", "buffers shared with solve")],
  "projection results versus constraint Jacobians computed independently")
# ---- not decided by this technique (pure functions of their input)
p("N01", "Jacobians are the derivatives of the values",
  "For every constraint function and every configuration where it is differentiable, the Jacobian it returns is the derivative of its value on the configuration manifold, and columns of inactive parameters are zero.",
  ["inputs"], "for every function family, its parameters and every configuration",
  "holds at every configuration including singular ones, tests sample a few",
  ["src/generic-transformation.cc", "src/relative-com.cc", "src/com-between-feet.cc", "include/hpp/constraints/symbolic-calculus.hh"],
  [("Jacobian implementations", "src/generic-transformation.cc")])
p("N02", "Matrix block views address exactly the listed rows and columns",
  "A view on blocks of a matrix reads and writes exactly the elements of the listed rows and columns, and union, difference, overlap and normalisation of index segments behave as operations on sets.",
  ["inputs"], "for every list of segments and every matrix",
  "set algebra over all segment lists",
  ["src/matrix-view.cc", "include/hpp/constraints/matrix-view.hh", "include/hpp/constraints/impl/matrix-view.hh"],
  [("segment algebra", "src/matrix-view.cc")])
p("N03", "Convex shape geometry is exact",
  "Point in shape tests, distances to the boundary, projections and the choice of the closest contact pair agree with plane geometry for every convex polygon and point.",
  ["inputs"], "for every convex polygon, transformation and point", "continuous input space",
  ["include/hpp/constraints/convex-shape.hh", "src/convex-shape-contact.cc"],
  [("polygon distance and side tests", "include/hpp/constraints/convex-shape.hh")])
p("N04", "Static stability verdicts agree with the contact forces",
  "The static stability functions report stable exactly when non negative contact forces balance gravity at the configuration.",
  ["inputs"], "for every contact set and configuration", "continuous input space, needs a reference optimiser",
  ["src/static-stability.cc", "src/qp-static-stability.cc"],
  [("force balance", "src/static-stability.cc"), ("quadratic program", "src/qp-static-stability.cc")])
p("N05", "A constraint names the joints whose relative pose it fixes",
  "A constraint that reports a pair of joints fully determines the relative pose of these two joints and of no other pair.",
  ["inputs"], "for every function family and pair of joints", "needs a case per family and joint tree",
  ["src/generic-transformation.cc", "src/implicit.cc", "src/locked-joint.cc", "src/explicit/relative-pose.cc"],
  [("dependency on relative pose", "src/generic-transformation.cc")])
p("N06", "Rotation logarithms and their Jacobians are accurate everywhere",
  "The logarithm of a rotation and the Jacobian of the logarithm are accurate for every rotation, also near zero and near a half turn.",
  ["inputs"], "for every rotation", "accuracy near the singularities needs a numerical argument",
  ["include/hpp/constraints/tools.hh", "src/generic-transformation/helper.hh"],
  [("logarithm", "include/hpp/constraints/tools.hh")])
p("N07", "Lists of comparison types are built as written",
  "Repeating and concatenating comparison types yields lists of exactly the written length and order.",
  ["inputs"], "for every expression", "small pure algebra",
  ["include/hpp/constraints/comparison-types.hh"],
  [("comparison type operators", "include/hpp/constraints/comparison-types.hh")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
