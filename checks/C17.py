def run(ctx):
    cfgs = ["gcc20"] if not ctx.thorough else ["gcc20", "clang17"]
    ctx.compile([("h_" + c, "h_seq.cpp", c) for c in cfgs])
    ctx.mc("RandSeqMC", "RandSeqMC_deep.cfg" if ctx.thorough else "RandSeqMC.cfg")
    tr = ctx.harnesses([("h_" + c, dict(args=["uniform"], timeout=800)) for c in cfgs])
    ctx.judge("RandSeqTrace", ctx.distinct(tr), reset=None, need=["tally", "hist"], min_events=200, timeout=3000)
