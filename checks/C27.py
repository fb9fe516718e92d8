def run(ctx):
    cfgs = ["gcc20", "asan"] if not ctx.thorough else ["gcc20", "asan", "m32", "clang20"]
    ctx.compile([("h_" + c, "h_ggfam.cpp", c) for c in cfgs])
    ctx.mc("GraphFamiliesMC")
    tr = ctx.harnesses([("h_" + c, dict(asan=c == "asan", timeout=600)) for c in cfgs])
    ctx.judge("GraphFamiliesTrace", ctx.distinct(tr), reset=None, need=["fam", "pruefer", "ff", "mcmf", "ffbad", "mcmfbad"], min_events=500)
