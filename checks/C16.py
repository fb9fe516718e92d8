def run(ctx):
    cfgs = ["gcc20", "clang17"] if not ctx.thorough else ["gcc20", "gcc17", "clang17", "m32", "asan"]
    ctx.compile([("h_" + c, "h_seq.cpp", c) for c in cfgs])
    ctx.mc("RandSeqMC", "RandSeqMC_deep.cfg" if ctx.thorough else "RandSeqMC.cfg")
    tr = ctx.harnesses([("h_" + c, dict(args=["valid"], asan=c == "asan", timeout=400)) for c in cfgs])
    ctx.judge("RandSeqTrace", ctx.distinct(tr), reset=None, need=["one", "big"], min_events=9000, timeout=3000)
