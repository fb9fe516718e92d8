def run(ctx):
    cfgs = ["gcc20", "clang17"] if not ctx.thorough else ["gcc20", "gcc17", "clang17", "m32", "asan"]
    ctx.compile([("h_" + c, "h_format.cpp", c) for c in cfgs])
    ctx.mc("FormatMC", "FormatMC_deep.cfg" if ctx.thorough else "FormatMC.cfg")
    tr = ctx.harnesses([("h_" + c, dict(asan=c == "asan", timeout=400)) for c in cfgs])
    ctx.judge("FormatTrace", ctx.distinct(tr), need=["new", "w", "str", "prec"], min_events=3000, timeout=3000)
