def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "m32_17", "asan"]
    ctx.compile([("h_" + c, "h_numth.cpp", c) for c in cfgs])
    ctx.mc("NumTheoryMC", "NumTheoryMC_deep.cfg" if ctx.thorough else "NumTheoryMC.cfg", timeout=1500)
    tr = ctx.harnesses([("h_" + c, dict(args=["arith"], out=ctx.path("t_%s.ndjson" % c), asan=c == "asan", timeout=400)) for c in cfgs])
    ctx.judge("NumTheoryTrace", ctx.distinct(tr), reset=None, need=["app", "mul", "pow", "inv"], min_events=2500, timeout=3000)
