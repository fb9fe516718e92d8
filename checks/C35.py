def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "asan"]
    ctx.compile([("h_" + c, "h_svg.cpp", c) for c in cfgs])
    ctx.mc("SvgMC", "SvgMC_deep.cfg" if ctx.thorough else "SvgMC.cfg", timeout=1500)
    tr = ctx.harnesses([("h_" + c, dict(args=[ctx.path("")], out=ctx.path("t_%s.ndjson" % c), asan=c == "asan", timeout=200)) for c in cfgs])
    ctx.judge("SvgTrace", ctx.distinct(tr), reset="start", need=["start", "make", "shift", "newline", "include", "setbox", "box", "move", "write", "destroy", "absent", "look", "piece", "eof", "frag", "visual", "color", "text", "cons", "clamp", "names", "geo", "same"], min_events=2000, timeout=3000)
