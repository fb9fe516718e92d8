def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang17", "m32", "m32_17", "asan"]
    ctx.compile([("h_" + c, "h_draw.cpp", c) for c in cfgs])
    ctx.mc("DrawMC", "DrawMC_deep.cfg" if ctx.thorough else "DrawMC.cfg")
    tr = []
    for mode in ("int", "real", "stat"):
        tr += ctx.harnesses([("h_" + c, dict(args=[mode], out=ctx.path("t_%s_%s.ndjson" % (mode, c)), asan=c == "asan", timeout=400)) for c in cfgs])
    ctx.judge("DrawTrace", ctx.distinct(tr), need=["new", "int", "full", "real", "grid", "hist"], min_events=4000, timeout=3000)
