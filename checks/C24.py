def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "asan"]
    ctx.compile([("h_" + c, "h_util.cpp", c) for c in cfgs])
    ctx.mc("UtilMC", "UtilMC_deep.cfg" if ctx.thorough else "UtilMC.cfg", timeout=1500)
    tr = ctx.harnesses([("h_" + c, dict(out=ctx.path("t_%s.ndjson" % c), asan=c == "asan", timeout=400)) for c in cfgs])
    ctx.judge("UtilTrace", ctx.distinct(tr), reset=None, need=["chars", "str", "range", "morse", "append", "flat", "contains", "sign", "dist", "func", "short", "queue", "const", "xyz", "conv", "prod"], min_events=2500, timeout=3000)
