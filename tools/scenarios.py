"""Which simulated scenarios decide which property, and what evidence says about them."""
BUDGET = dict(quick=30, thorough=600)
RULE = ("One evaluation is one simulated execution: a seed generates a world (robot or synthetic configuration space, constraint "
        "functions, comparison types, rows, bounds), a history of operations on several solver instances and a fault plan; the run is "
        "executed in its own process with its own memory layout, and the oracles of the property are checked after every operation. "
        "Distinct: the signature of the run (a hash of the kinds of operations, their outcomes, statuses and evaluation counts) was not "
        "seen before.")
REAL = ["every source file of /repo/src and header of /repo/include (compiled unchanged from the working tree)",
        "hpp-pinocchio, pinocchio, hpp-util, Eigen, boost as installed"]
STUB = ["constraint functions of synthetic worlds are simulator code behind the library's DifferentiableFunction interface (the seam "
        "through which faults are injected); robot worlds use the library's functions, wrapped in a forwarding hook",
        "memory allocator (deterministic addresses and fill patterns)"]
ASSUME = ["constraint functions are deterministic unless the fault plan says otherwise; explicit functions return finite values or "
          "throw FunctionNotDefinedForThisValue",
          "the robot model is small (5 joint arm and two free flying boxes) so that a run costs about a millisecond",
          "sampling: an absence of violations covers the executed seeds only"]
HIST = dict(exe="h")
def hist(p, **kw): return [dict(exe="h", scenario=p, **kw)]
PARTS = {p: hist(p) for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"]}
for _p in ["C07", "C08"]: PARTS[_p] = [dict(exe="t", scenario=_p)]
T_REAL = ["every source file of /repo/src and header of /repo/include (compiled from the working tree with the compiler's memory "
          "access callbacks, which the simulator implements)", "hpp-pinocchio, pinocchio, hpp-util, Eigen, boost as installed, including the pool of robot data"]
T_STUB = ["thread scheduler, mutexes, condition variables, once and static initialisation guards, sleeps (simulator; exactly one thread runs at a time)",
          "memory allocator (deterministic addresses and fill patterns, failures)", "accesses of hpp-pinocchio, which is not instrumented, to robot data are announced by interposed functions"]
T_ASSUME = ["memory is sequentially consistent in the simulation; weaker orders are covered by the check of the happens-before order only",
            "one function of pthread_once or of the dynamic loader runs without preemption",
            "the robot model is small (5 joint arm and two free flying boxes)", "sampling: an absence of violations covers the executed seeds only"]
T_RULE = ("One evaluation is one simulated execution: a seed generates 2 to 5 threads with 1 to 4 robot data, constraint functions and solvers they share or own, "
          "operations per thread, and faults (allocation failure in one thread, stalls, spurious wake-ups); a seeded scheduler (random gaps, shared words, or priorities with change "
          "points) decides every switch at memory access granularity. Distinct: the signature of the run (a hash of the switches and outcomes) was not seen before.")
T_MEASURE = "sequences of thread switches x outcomes of a run"
def info(nontrivial, measure="operation kinds x outcomes x solve statuses x evaluation counts of a run", **kw):
    d = dict(nontrivial="Non-trivial: " + nontrivial, measure=measure, real=REAL, stub=STUB, assumptions=ASSUME)
    d.update(kw)
    return d
INFO = {
    "C01": info("at least one satisfaction verdict or reported success was compared with the reference model."),
    "C02": info("at least one solve or step was compared with the configuration it started from."),
    "C03": info("a work bound, a satisfied start, an optimising start or required progress was checked."),
    "C04": info("a solver with a past was compared with a freshly built one."),
    "C05": info("right hand sides were read back and compared with the reference model."),
    "C06": info("the answers of an untouched instance were compared before and after operations on another one."),
    "C07": info("a value, Jacobian, verdict or solve computed by a thread among others was compared bit by bit with the same computation alone, and "
                "every access to memory with the accesses of the other threads that nothing orders before it.", measure=T_MEASURE, time_unit="scheduling points passed (the threads have no other clock)", real=T_REAL, stub=T_STUB, assumptions=T_ASSUME, rule=T_RULE),
    "C08": info("robot data were taken by at least one evaluation and the accesses, the number held by a thread and the data available at the end were checked.",
                measure=T_MEASURE, time_unit="scheduling points passed (the threads have no other clock)", real=T_REAL, stub=T_STUB, assumptions=T_ASSUME, rule=T_RULE),
    "C09": info("objects loaded in a restarted process (or in the same one) were compared with the saved ones: values, Jacobians, "
                "constraints, solvers, what they share and what they do afterwards.",
                measure="kinds and numbers of saved objects x format x outcomes of the histories before saving"),
    "C10": info("an archive that was cut was loaded in a restarted process, or a save met a full disk, and the outcome, the objects "
                "made before and a complete reload were compared with the saved objects.",
                measure="kinds and numbers of saved objects x format x accepted or refused"),
    "C11": info("the outputs, advertised variables, order or Jacobian of a set with at least one accepted explicit constraint were "
                "compared with the reference model."),
    "C12": info("members, levels and queries were compared with the reference model."),
    "C13": info("the transcript of one history (every answer, bit by bit) was compared in three memories that differ by the layout "
                "and previous contents of heap and stack.", measure="base scenario x signature of the compared histories"),
    "C14": info("the value or the Jacobian of a function with a past was compared with those of a function never used before.",
                measure="kinds of functions x value or Jacobian x outcomes of a run"),
    "C15": info("right hand sides at a time parameter, or an extracted solver, were compared with the reference model."),
    "C16": info("a projected velocity was compared with the numerical kernel of the reference model."),
}
TECH_DEFAULT = "deterministic simulation of operation histories with fault injection, against an executable reference model"
_T = "deterministic simulation of threads: seeded scheduling at memory access granularity with stalls and failures, %s"
TECH = {"C07": _T % "against sequential evaluation and a happens-before check of every access", "C08": _T % "against the ownership protocol of robot data"}
_PURE = ("A pure function of its arguments: no schedule, clock, I/O, randomness, fault or history takes part, so simulation has nothing to "
         "control; deciding it is numerical testing, another technique. ")
NA = {
    "N01": _PURE + "History and schedule dependence of Jacobians is claimed by C07 and C14.",
    "N02": _PURE + "",
    "N03": _PURE + "",
    "N04": _PURE + "",
    "N05": _PURE + "",
    "N06": _PURE + "",
    "N07": _PURE + "",
}
