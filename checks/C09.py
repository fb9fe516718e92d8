import random, proclib
def run(ctx):
    cfgs = ["gcc20"] if not ctx.thorough else ["gcc20", "gcc17", "clang17", "m32"]
    ctx.compile([("p_" + c, "p_role.cpp", c) for c in cfgs])
    conf = proclib.configs(ctx)
    r = random.Random(ctx.seed * 7919 + 9)
    cases = [proclib.make(r, c, ctx.tier) for c in conf for _ in range(6 if ctx.thorough else 1)]
    tr = proclib.record(ctx, cases, [ctx.path("p_" + c) for c in cfgs], "roles")
    ctx.judge("ProcessTrace", [tr], need=["new", "init", "set", "settings", "r", "w", "v", "con", "f", "seq", "rx", "ret", "exit"], min_events=10000, timeout=3000)
