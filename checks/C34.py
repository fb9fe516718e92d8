def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "asan"]
    ctx.compile([("h_" + c, "h_png.cpp", c) for c in cfgs])
    ctx.mc("CanvasMC", "CanvasMC_deep.cfg" if ctx.thorough else "CanvasMC.cfg", timeout=1500)
    tr = ctx.harnesses([("h_" + c, dict(args=["draw"], out=ctx.path("t_%s.ndjson" % c), asan=c == "asan", timeout=200)) for c in cfgs])
    ctx.judge("CanvasTrace", ctx.distinct(tr), reset="start", need=["start", "clear", "set", "load", "copy", "get", "rect", "flood", "line", "color", "make", "clamp", "names", "point"], min_events=2500, timeout=3000)
