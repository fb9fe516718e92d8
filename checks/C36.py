def run(ctx):
    cfgs = ["gcc20", "clang17"] if not ctx.thorough else ["gcc20", "gcc17", "clang20", "m32", "asan"]
    names = [(c, k) for c in cfgs for k in ([0, 1, 2, 3, 4, 5] if c == "gcc20" or ctx.thorough else [1, 2])]
    ctx.compile([("h_%s_%d" % n, "h_settings.cpp", n[0], ["-DSET=%d" % n[1]]) for n in names])
    ctx.mc("SettingsMC", "SettingsMC_deep.cfg" if ctx.thorough else "SettingsMC.cfg", timeout=1500)
    tr = ctx.harnesses([("h_%s_%d" % n, dict(args=[ctx.path("")], out=ctx.path("t_%s_%d.ndjson" % n), asan=n[0] == "asan", timeout=300)) for n in names])
    ctx.judge("SettingsTrace", ctx.distinct(tr), reset="start", need=["start", "seed", "int", "word", "write", "case", "near", "bound", "large", "exit"], min_events=1500, timeout=3000)
