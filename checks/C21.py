def run(ctx, modes=("poly", "points"), need=("poly", "grid", "bounds", "prod"), n=4000):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "m32_17", "asan"]
    ctx.compile([("h_" + c, "h_geo.cpp", c) for c in cfgs])
    ctx.mc("GeometryMC", "GeometryMC_deep.cfg" if ctx.thorough else "GeometryMC.cfg", timeout=1500)
    tr = []
    for m in modes:
        tr += ctx.harnesses([("h_" + c, dict(args=[m], out=ctx.path("t_%s_%s.ndjson" % (m, c)), asan=c == "asan", timeout=400)) for c in cfgs])
    ctx.judge("GeometryTrace", ctx.distinct(tr), reset=None, need=list(need), min_events=n, timeout=3000)
