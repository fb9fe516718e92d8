def run(ctx):
    cfgs = ["gcc20", "clang17", "m32"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "asan"]
    ctx.compile([("h_" + c, "h_seqpred.cpp", c) for c in cfgs])
    ctx.mc("SeqPredMC", "SeqPredMC_deep.cfg" if ctx.thorough else "SeqPredMC.cfg", timeout=1500)
    tr = ctx.harnesses([("h_" + c, dict(out=ctx.path("t_%s.ndjson" % c), asan=c == "asan", timeout=400)) for c in cfgs])
    ctx.judge("SeqPredTrace", ctx.distinct(tr), reset=None, need=["seq", "pair", "big"], min_events=2500, timeout=3000)
