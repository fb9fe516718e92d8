def run(ctx):
    cfgs = ["gcc20", "asan"] if not ctx.thorough else ["gcc20", "asan", "m32", "clang20"]
    ctx.compile([("h_" + c, "h_ggrand.cpp", c) for c in cfgs])
    ctx.mc("GraphRandomMC")
    tr = ctx.harnesses([("h_" + c, dict(asan=c == "asan", timeout=600)) for c in cfgs])
    ctx.judge("GraphRandomTrace", ctx.distinct(tr), reset=None, need=["one", "tally", "mean"], min_events=2000)
    ctx.extra["exhaustive_uniformity_spaces"] = ctx.kinds.get("tally", 0)
