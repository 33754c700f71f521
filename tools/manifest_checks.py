NA = {}
NOTES = "Every check builds what it needs from /repo's working tree; see DESIGN.md."
for id in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C13", "C14", "C15"]:
    chk(id, "exploration", ENUM, "exhaustive over the bounded cross products listed in the evidence file; data values are one fixed hashed assignment per case")
SCHED = "stateless model checking of the real library, thread pool and standard library under a controlled scheduler (preemption- and deviation-bounded DFS over fork-per-execution, happens-before state caching, vector-clock race detection on every instrumented access)"
for id in ["C08", "C09"]:
    chk(id, "model_checking", SCHED, "all schedules within the preemption / deviation bound given per scenario in the evidence file; sequentially consistent atomics plus happens-before race detection")
chk("C10", "exploration", "explicit enumeration of environment values x machine descriptions x later values, each in a fresh process under the controlled scheduler, observing which threads touch the operands", "finite list of values and machines; one schedule each")
chk("C12", "model_checking", "explicit enumeration of machines (CPUID and XCR0 answers) x builds x first-call orders, single-stepping the real code and classifying every instruction before it executes", "machines are subsets of the features of the host; instructions outside the program (C library) are not judged")
chk("C16", "exploration", "explicit enumeration of compile-time configurations: one build of the real crate per configuration, requested memory and results compared with the reference build, natively and interpreted for AArch64 and i686", "finite list of settings; sizes within one panel cannot be told apart for MC and NC")
chk("C17", "exploration", "explicit enumeration of a bounded space of calls, each executed on the real code by the Rust abstract-machine interpreter for seven (thorough: nineteen) targets and instruction sets, with exact results as oracle", "the interpreter's definition of undefined behaviour; scenarios with threads are single schedules here (C08 and C09 explore schedules)")
