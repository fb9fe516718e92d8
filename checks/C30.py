def run(ctx):
    cfgs = ["gcc20", "asan"] if not ctx.thorough else ["gcc20", "asan", "gcc17", "m32", "clang20"]
    ctx.compile([("h_" + c, "h_unionfind.cpp", c) for c in cfgs])
    ctx.mc("UnionFindMC", "UnionFindMC_deep.cfg" if ctx.thorough else "UnionFindMC.cfg")
    tr = ctx.harnesses([("h_" + c, dict(asan=c == "asan")) for c in cfgs])
    ctx.judge("UnionFindTrace", ctx.distinct(tr), need=["join", "conn", "find", "all"], min_events=3000)
