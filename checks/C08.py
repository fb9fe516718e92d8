import os, random, proclib, vf
KNOWN = os.path.join(vf.VERIF, "known_findings.txt")
def long_tokens(ctx, binary):
    """numeric tokens of a million characters: the process has to end with a verdict like for any other token"""
    listed = {l.split(None, 3)[2] for l in open(KNOWN) if l.startswith("KNOWN property=C08 ")}
    for key, op, text in (("long-integer-token", "int", "1" * 1000000), ("long-real-token", "xr 1", "1" * 1000000),
                          ("integer-token-5000", "int", "1" * 5000), ("real-token-5000", "xr 1", "9" * 5000)):
        d = ctx.path("long_" + key); os.makedirs(d)
        rc, out, err, ops = proclib.execute(binary, d, "input", [], ["init", "r testIn " + op, "v AC"], text.encode())
        ctx.extra[key] = "exit code %d" % rc
        if rc == 43 and len(ops) == 2: continue
        if rc < 0 and key in listed: ctx.known.append("%s: the process is killed by signal %d instead of rejecting" % (key, -rc)); continue
        raise vf.Violation("a token of %d digits ends the process with %d" % (len(text), rc), dict(op=op))
def run(ctx):
    cfgs = ["gcc20", "clang17"] if not ctx.thorough else ["gcc20", "gcc17", "clang17", "m32"]
    ctx.compile([("p_" + c, "p_role.cpp", c) for c in cfgs])
    conf = [c for c in proclib.configs(ctx) if c["role"] != "generator"]
    r = random.Random(ctx.seed * 7919 + 8); cases = []
    for c in conf:
        if r.random() < .5: c = dict(c, tol=False, abs=False, rel=False, pabs=False, prel=False)
        for _ in range(5 if ctx.thorough else 1): cases.append(proclib.make(r, c, ctx.tier, con=.3, deadly=.85, uninit=.06))
    tr = proclib.record(ctx, cases, [ctx.path("p_" + c) for c in cfgs], "roles")
    ctx.judge("ProcessTrace", [tr], need=["new", "init", "r", "w", "v", "con", "ret", "mpinit", "exit"], min_events=10000, timeout=3000)
    long_tokens(ctx, ctx.path("p_gcc20"))
