def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "asan"]
    ctx.compile([("h_" + c, "h_png.cpp", c) for c in cfgs])
    ctx.mc("PngFileMC", "PngFileMC_deep.cfg" if ctx.thorough else "PngFileMC.cfg", timeout=1500)
    tr = ctx.harnesses([("h_" + c, dict(args=["file", ctx.path("")], out=ctx.path("t_%s.ndjson" % c), asan=c == "asan", timeout=200)) for c in cfgs])
    ctx.judge("PngTrace", ctx.distinct(tr), reset="start", need=["start", "make", "clear", "load", "set", "copy", "move", "write", "destroy", "absent", "look", "piece", "eof", "visual"], min_events=1500, timeout=3000)
