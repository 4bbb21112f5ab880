# Which scenarios decide which property, in which builds.
# one lock or queue configuration each: the scenarios of the other properties once more
ASCEN = ["mutexes", "condvars", "barriers", "bchan", "uchan", "futures", "fibers", "timers", "migrate", "fss", "life", "remote", "custom", "gpu", "stacks", "idle", "mix", "exc"]
VSCEN = ["locks", "mutexes", "condvars", "bchan", "uchan", "migrate", "hb", "mix"]
BUILDS = {
    "mutexes": dict(scen=["mutexes"]),
    "condvars": dict(scen=["condvars"]),
    "barriers": dict(scen=["barriers"]),
    "bchan": dict(scen=["bchan"]),
    "uchan": dict(scen=["uchan"]),
    "futures": dict(scen=["futures"]),
    "fibers": dict(scen=["fibers"]),
    "timers": dict(scen=["timers"]),
    "migrate": dict(scen=["migrate"], numa=True),
    "fss": dict(scen=["fss"]),
    "life": dict(scen=["life"]),
    "hb": dict(scen=["hb"]),
    "locks": dict(scen=["locks"]),
    "remote": dict(scen=["remote"], numa=True),
    "custom": dict(scen=["custom"]),
    "gpu": dict(scen=["gpu"]),
    "idle": dict(scen=["idle"], numa=True, defs="-DWITH_NUMA"),
    "exc": dict(scen=["exc"], numa=True, defs="-DWITH_NUMA"),
    "timers_clang": dict(scen=["timers"], clang=1),
    "mix": dict(scen=["mix"], numa=True, defs="-DWITH_NUMA"),
    "mix_futex": dict(scen=["mix"], numa=True, defs="-DWITH_NUMA -DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=3 -DBOOST_FIBERS_USE_SPMC_QUEUE"),
    "mix_assert": dict(scen=["mix"], numa=True, defs="-DWITH_NUMA -UNDEBUG"),
    "stacks": dict(scen=["stacks"], numa=True, defs="-DWITH_NUMA"),
    "topo": dict(scen=["topo"], numa=True, topo=True, defs="-DWITH_NUMA"),
    "topo_assert": dict(scen=["topo"], numa=True, topo=True, defs="-DWITH_NUMA -UNDEBUG"),
    "all": dict(scen=["mutexes", "condvars", "barriers", "bchan", "uchan", "futures", "fibers", "timers", "migrate", "fss", "life", "hb", "locks", "remote", "custom", "gpu", "topo", "stacks", "idle", "mix", "exc"], numa=True, topo=True, defs="-DWITH_NUMA"),
    "v_std_mutex": dict(scen=VSCEN, numa=True, defs="-DWITH_NUMA -DBOOST_FIBERS_SPINLOCK_STD_MUTEX"),
    "v_adaptive": dict(scen=VSCEN, numa=True, defs="-DWITH_NUMA -DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE"),
    "v_futex": dict(scen=VSCEN, numa=True, defs="-DWITH_NUMA -DBOOST_FIBERS_SPINLOCK_TTAS_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=3"),
    "v_adaptive_futex": dict(scen=VSCEN, numa=True, defs="-DWITH_NUMA -DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=3"),
    "v_assert": dict(scen=ASCEN, numa=True, defs="-DWITH_NUMA -UNDEBUG"),
    # every fiber on one thread (common.h merges the fleets): the library without cross-thread synchronisation
    "v_no_atomics": dict(scen=["mutexes", "condvars", "barriers", "bchan", "uchan", "futures", "fibers", "timers", "migrate", "fss", "life", "mix", "exc"], numa=True, config=True, defs="-DWITH_NUMA -UNDEBUG -DBOOST_FIBERS_NO_ATOMICS"),
    # another compiler (order of evaluation, thread-local addresses), more optimisation, and the remaining options at once
    "v_clang": dict(scen=ASCEN + ["locks"], numa=True, clang=1, opt="-O3", std="gnu++20", defs="-DWITH_NUMA -UNDEBUG -DBOOST_FIBERS_USE_SPMC_QUEUE -DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE -DBOOST_FIBERS_SPIN_SINGLE_CORE -DBOOST_NO_CXX17_STD_APPLY -DBOOST_NO_CXX14_STD_EXCHANGE"),
    # hardware lock elision (sim.cpp interprets the four RTM instructions)
    "v_tsx": dict(scen=["mutexes", "condvars", "bchan", "uchan", "futures", "fibers", "migrate", "remote"], numa=True, tsx=1, config=True, defs="-DWITH_NUMA -UNDEBUG -DBOOST_USE_TSX"),
    "v_tsx_futex": dict(scen=["bchan", "uchan", "mutexes", "migrate"], numa=True, tsx=1, config=True, defs="-DWITH_NUMA -DBOOST_USE_TSX -DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX -DBOOST_FIBERS_RETRY_THRESHOLD=3"),
    "v_spmc": dict(scen=VSCEN, numa=True, defs="-DWITH_NUMA -DBOOST_FIBERS_USE_SPMC_QUEUE"),
}
# failures any scenario can show that mean memory of the library or of its users was mishandled
MEM = ["use-after-free", "double-free", "leak", "dead-object", "altered-value", "crash"]
RACE = ["internal-race", "data-race"]
HANG = ["deadlock", "livelock"]
LOCKS = ["lk_ttas", "lk_adaptive", "lk_futex", "lk_adaptive_futex", "lk_configured", "q_spinlock", "q_spmc"]
PROPS = {
    "C01": dict(parts=[dict(build="mutexes", ignore=HANG + ["free-refused", "early-timeout", "stranded", "recursive-refused", "misuse-accepted", "error-code"])]),
    "C02": dict(parts=[dict(build="mutexes", ignore=["free-refused", "early-timeout", "recursive-refused", "misuse-accepted", "error-code"])]),
    "C03": dict(parts=[dict(build="mutexes")]),
    "C04": dict(parts=[dict(build="condvars", ignore=["spurious-wakeup", "early-timeout", "lock-not-held", "predicate-value"])]),
    "C05": dict(parts=[dict(build="condvars", ignore=HANG + ["lost-notification"])]),
    "C06": dict(parts=[dict(build="barriers")]),
    "C07": dict(parts=[dict(build="bchan", ignore=HANG + ["stranded"])]),
    "C08": dict(parts=[dict(build="bchan", ignore=["linearizability", "capacity"])]),
    "C09": dict(parts=[dict(build="uchan", ignore=HANG + ["stranded"])]),
    "C10": dict(parts=[dict(build="uchan", ignore=["order"])]),
    "C11": dict(parts=[dict(build="futures", ignore=HANG + ["stranded", "early-timeout", "false-timeout", "false-ready", "satisfied-never", "wrong-status"], weight=3), dict(build="exc")]),
    "C12": dict(parts=[dict(build="futures", ignore=["satisfied-twice", "valid", "error-code", "run-twice", "not-run", "wrong-argument", "data-race"])]),
    "C13": dict(parts=[dict(build="fibers", scen=["fib_tree", "fib_errors", "fib_terminate"], ignore=["launch-policy"], weight=3),
                       dict(build="migrate", scen=["mig_tree"], ignore=["launch-policy", "two-threads", "migrated"])]),
    "C14": dict(parts=[dict(build="timers", weight=4), dict(build="timers_clang")]),
    "C15": dict(parts=[dict(build="fibers", scen=["fib_tree", "fib_fifo", "fib_remote_order", "fib_fair"], ignore=["early-join", "wrong-argument", "joinable", "wrong-id", "wrong-error", "data-race"])]),
    "C16": dict(parts=[dict(build="migrate", ignore=["data-race", "joinable", "wrong-id", "wrong-argument"])]),
    "C17": dict(parts=[dict(build="fss")]),
    "C18": dict(wall=80, runs=400000, parts=[dict(build="life", weight=4)] + [dict(build=b, classes=MEM, opts=["--leak"]) for b in ("fibers", "futures", "uchan", "bchan", "mutexes")] + [dict(build="exc", classes=MEM + ["double-destruction"])]
                + [dict(build=b, classes=MEM) for b in ("migrate", "fss")]),
    "C19": dict(wall=60, runs=300000, parts=[dict(build="hb", weight=4)] + [dict(build=b, classes=["data-race"], opts=["--races"]) for b in ("futures", "fibers", "migrate")]),
    "C20": dict(wall=200, runs=800000, parts=[dict(build="locks", weight=2)] + [dict(build=b, weight=2) for b in ("v_std_mutex", "v_adaptive", "v_futex", "v_adaptive_futex", "v_spmc", "v_assert", "v_clang", "v_no_atomics", "v_tsx", "v_tsx_futex")]
                + [dict(build=b, scen=LOCKS, weight=1) for b in ("v_adaptive", "v_futex", "v_adaptive_futex", "v_spmc")]),
    "C21": dict(parts=[dict(build="remote")]),
    "C22": dict(parts=[dict(build="custom")]),
    "C23": dict(parts=[dict(build="topo", weight=2), dict(build="topo_assert")]),
    "C24": dict(parts=[dict(build="gpu")]),
    "C26": dict(parts=[dict(build="stacks")]),
    "C27": dict(parts=[dict(build="idle")]),
    "C28": dict(wall=60, runs=200000, parts=[dict(build="mix", weight=4), dict(build="mix_futex"), dict(build="mix_assert")]),
    "C25": dict(wall=110, runs=600000, parts=[dict(build="all", classes=RACE, opts=["--hb"], weight=6)] + [dict(build=b, classes=RACE, opts=["--hb"]) for b in ("v_std_mutex", "v_adaptive", "v_futex", "v_adaptive_futex", "v_spmc")]),
}
REAL = ["all of /repo/src and /repo/include/boost/fiber (compiled from the working tree)", "boost.context fiber switching (libboost_context)", "libstdc++ containers, atomics, std::thread/mutex/condition_variable code paths"]
STUBS = ["OS thread scheduling (seeded scheduler)", "pthread mutex/condvar/once/rwlock, futex syscall", "clocks, sleeps and timers (simulated time)", "heap and mmap (fixed arena with poisoning)", "random_device / getrandom", "pthread_setaffinity_np; for C23 open/read/stat/directory calls below /sys", "for C24 the CUDA and HIP runtimes (streams, work, driver threads)"]
NOT_APPLICABLE = {}
NOTES = {
    "*": "Seeded search, not exhaustive: the property held in every simulated execution of this run. Real library code at the granularity of single instrumented memory accesses; OS primitives, clocks, memory and randomness are simulated. Trusts the compiler's instrumentation, the simulator and the scenario's oracle.",
}
