from mc import core

RULE = ("Operation sequences on two expression objects: assign (13 texts, valid, rejected, failing only at some times), evaluate at 6 "
        "times, copy both ways, self-assign, copy-construct; all sequences of length 4 (thorough 5) over 28 operations and of length 6 (7) "
        "over the 8 that stress the value cache. Thread programs of 2-3 threads: every schedule at critical sections and Lua calls up to "
        "the preemption bound named in outcomes. Non-trivial: sequence contains an evaluation or copy compared with the reference / a complete schedule.")


def run(ctx):
    exe = core.build_harness("c03", "plain", extra=["-rdynamic"])
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    # the same bodies free-running, under the thread sanitizer
    tsan = core.build_harness("c03", "tsan", extra=["-rdynamic", "-DFREE_RUNNING"])
    ctx.run_harness(tsan, shards=1, timeout=300, env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=1"})
    ctx.rule = RULE
