def run(ctx):
    cfgs = ["gcc20", "asan"] if not ctx.thorough else ["gcc20", "asan", "m32", "clang20"]
    ctx.compile([("h_" + c, "h_ggalg.cpp", c) for c in cfgs])
    ctx.mc("GraphAlgebraMC")
    tr = ctx.harnesses([("h_" + c, dict(asan=c == "asan", timeout=600)) for c in cfgs])
    ctx.judge("GraphAlgebraTrace", ctx.distinct(tr), reset=None, need=["compl", "power", "trans", "range", "rev", "undir", "direct", "tensor", "cart", "strong", "line", "append", "comb", "perm", "rperm", "sub"], min_events=3000)
