from mc import core

RULE = ("Every decimal n/10^k, k=0..7, |n| up to the tier's limit, plus the numerators next to the largest that fit; every pair of "
        "timescales (1..70, thorough 1..260, and 22 larger ones) with 9x9 numerators, and every pair of 30 timescales up to the largest (primes, powers, next to the limits) with 23x23 numerators, for sum, divisibility, conversion; histories of "
        "3000 (20000) additions from 6 start times with 16 steps and 16 periods, compared at every step. Oracle: 128-bit rational "
        "arithmetic. Every evaluation is a distinct operand tuple; a sum in lowest terms that no fraction of the type can hold must be an error.")


def run(ctx):
    exe = core.build_harness("c02", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 3000)
    ctx.rule = RULE
