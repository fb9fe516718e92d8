def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "asan"]
    ctx.compile([("h_" + c, "h_aes.cpp", c) for c in cfgs])
    ctx.mc("AesMC", "AesMC_deep.cfg" if ctx.thorough else "AesMC.cfg", timeout=1500)
    tr = ctx.harnesses([("h_" + c, dict(out=ctx.path("t_%s.ndjson" % c), asan=c == "asan", timeout=200)) for c in cfgs])
    ctx.judge("AesTrace", ctx.distinct(tr), reset="start", need=["start", "cipher", "enc", "new", "seed", "copy", "call", "range"], min_events=1100, timeout=3000)
