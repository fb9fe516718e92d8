def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang17", "m32", "asan"]
    ctx.compile([("h_" + c, "h_dist.cpp", c) for c in cfgs])
    ctx.mc("DistributionMC", "DistributionMC_deep.cfg" if ctx.thorough else "DistributionMC.cfg")
    tr = ctx.harnesses([("h_" + c, dict(asan=c == "asan", timeout=600)) for c in cfgs])
    ctx.judge("DistributionTrace", ctx.distinct(tr), reset=None, need=["real", "int", "discrete", "extreme", "hist"], min_events=5000, timeout=3000)
