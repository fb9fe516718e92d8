def run(ctx):
    cfgs = ["gcc20", "asan"] if not ctx.thorough else ["gcc20", "asan", "gcc17", "m32", "clang20"]
    ctx.compile([("h_" + c, "h_graphval.cpp", c) for c in cfgs])
    ctx.mc("GraphValMC", "GraphValMC.cfg")
    if ctx.thorough: ctx.mc("GraphValMC", "GraphValMC_deep.cfg")
    tr = ctx.harnesses([("h_" + c, dict(asan=c == "asan")) for c in cfgs])
    ctx.judge("GraphValTrace", ctx.distinct(tr), need=["add", "obs"], min_events=3000)
