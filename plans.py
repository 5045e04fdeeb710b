"""What each check runs. A stage is a mode of the harness, run by several processes."""

CONC = ("A case is a random configuration (resize mode, chunk, capacity, hasher, batch, guards), prefill and one script per "
        "thread, and a schedule chosen at every access to shared memory. It counts as distinct by the hash of its schedule "
        "and as non-trivial when threads preempted each other and two operations on one key overlapped or a resize ran.")
SEQ = ("A case is a random configuration and a script for one thread; it is non-trivial when at least ten results were "
       "compared and the table was resized.")


def conc(secs, **kw):
    return dict(mode="conc", secs=secs, **kw)


def free(secs, **kw):
    return dict(mode="free", secs=secs, procs=2, timeout_ok=True, **kw)


def one(mode, secs, **kw):
    return dict(mode=mode, secs=secs, **kw)


def plan(*stages, rule=CONC, assumptions=()):
    base = ["the executions produced, by seeded random generation, are the ones decided about",
            "the oracle compares unique value identities, recorded at the client boundary"]
    return {"rule": rule, "assumptions": base + list(assumptions), "stages": list(stages)}


SCHED = ["between two accesses to shared memory threads cannot affect each other, so that serialising the accesses loses "
         "only weak memory effects, which delayed stores and the free-running stage add in part"]

PLANS = {
    "C01": plan(conc(30), free(12), assumptions=SCHED),
    "C02": plan(one("keys", 1, procs=1, args=["--count", "4"]), one("seq", 25), rule=SEQ),
    "C03": plan(conc(30), free(12), assumptions=SCHED),
    "C04": plan(conc(30), free(10), one("free", 10, procs=2, build="asan", timeout_ok=True), assumptions=SCHED),
    "C05": plan(conc(22), one("seq", 7), one("shapes", 7), free(8), assumptions=SCHED),
    "C06": plan(conc(30), dict(mode="miri", secs=60), assumptions=SCHED),
    "C07": plan(conc(32), free(8), assumptions=SCHED),
    "C08": plan(conc(32), free(8), assumptions=SCHED),
    "C09": plan(conc(25), free(8), one("seq", 6), assumptions=SCHED),
    "C10": plan(conc(30), free(12), assumptions=SCHED),
    "C11": plan(one("collide", 1, procs=10, args=["--count", "1"]), conc(32), free(8), one("churn", 6), one("seq", 5),
                assumptions=SCHED),
    "C12": plan(one("guards", 20), rule="A case applies every operation that takes a guard to one map or set, empty, filled or in "
                "the middle of a resize, with a guard of another collector; it is non-trivial when the map had entries."),
    "C13": plan(conc(25), one("seq", 10), assumptions=SCHED),
    "C14": plan(one("conv", 15), conc(18), assumptions=SCHED),
    "C15": plan(one("capacity", 20), conc(10), rule="A case is a requested capacity or reserve amount with a workload; it is "
                "non-trivial when more than one insertion, a shrink or a resize was observed. " + CONC),
    "C16": plan(one("hotkey", 1, procs=1, args=["--count", "1"]), one("churn", 30), conc(14), rule="A case is a workload of some kinds of operation, repeated tens of thousands of times, "
                "with the memory in use measured at quiescent points; it is non-trivial when leaking a small fraction of the "
                "objects would have exceeded the bound.",
                assumptions=["the bound is computed from the number of keys, threads, the batch size and the capacity"]),
    "C17": plan(one("work", 12), conc(20), rule="A case fills tables, starts resizes and measures every operation by the keys it "
                "hashes; it is non-trivial when a resize was followed to its end. " + CONC),
    "C18": plan(one("keys", 1, procs=1, args=["--count", "2"]), conc(24), one("seq", 10), free(8), assumptions=SCHED),
    "C19": plan(conc(28), free(10), assumptions=SCHED),
    "C20": plan(conc(35), assumptions=SCHED),
    "C22": plan(one("shapes", 30), rule="A case picks a pair of key and value types and a configuration, and runs a script by one "
                "thread against an exact model, or by several threads under the controlled scheduler with the successes they "
                "report added up per key; it is non-trivial with more than twenty operations and, if concurrent, several "
                "switches between threads."),
    "C23": plan(conc(25), one("seq", 10), assumptions=SCHED + ["executions that do not end are abandoned without a verdict: "
                "keys that lie may legitimately cause them"]),
}
