import os
def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "m32_17", "asan"]
    ctx.compile([("h_" + c, "h_numth.cpp", c) for c in cfgs])
    ctx.mc("NumTheoryMC", "NumTheoryMC_deep.cfg" if ctx.thorough else "NumTheoryMC.cfg", timeout=1500)
    data = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "strong_pseudoprimes.txt")
    jobs = []
    for c in cfgs:
        jobs.append(("h_" + c, dict(args=["prime", data], out=ctx.path("t_prime_%s.ndjson" % c), asan=c == "asan", timeout=600)))
        jobs.append(("h_" + c, dict(args=["big" if c == "gcc20" else "lists"], out=ctx.path("t_lists_%s.ndjson" % c), asan=c == "asan", timeout=600)))
    tr = ctx.harnesses(jobs)
    ctx.judge("NumTheoryTrace", ctx.distinct(tr), reset=None, need=["prime", "block", "list", "slist", "rand", "hist", "sample", "ends"], min_events=2500, timeout=3000)
