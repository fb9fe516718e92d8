import readcheck
import random, proclib
def run(ctx):
    readcheck.run(ctx, "con", ["read", "bulk", "log", "file", "name"], False)
    # the file is written however the run ends: real processes which accept, reject or just return
    ctx.compile([("p_role", "p_role.cpp", "gcc20")])
    r = random.Random(ctx.seed * 7919 + 7)
    conf = [dict(role=r.choice(["input", "answer", "output"]), tol=False, abs=False, rel=False, sp=r.random() < .3, cs=False,
                 pabs=False, prel=False, psp=False, pcs=False) for _ in range(3000 if ctx.thorough else 500)]
    tr = proclib.record(ctx, [proclib.make(r, c, ctx.tier, con=1, deadly=.6, logs=True) for c in conf], [ctx.path("p_role")], "roles")
    ctx.judge("ProcessTrace", [tr], need=["con", "exit", "v"], min_events=3000)
