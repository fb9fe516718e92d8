import json
def stim(ctx, strict):
    r = ctx.mc("InputProtocolMC", "InputProtocolMC.cfg")
    n = 0
    with open(ctx.path("stim.txt"), "w") as f:
        for line in r["out"].splitlines():
            if line.startswith('"@@') or line.startswith("@@"):
                if line.startswith('"'): line = json.loads(line)
                o = json.loads(line[2:])
                if o["s"] != strict: continue
                f.write(",".join(map(str, o["i"])) + "|" + ",".join(o["h"]) + "\n"); n += 1
    if n < 1000: raise Exception("stimuli missing")
    ctx.extra["spec_generated_scripts_replayed"] = n
def run(ctx, strict):
    cfgs = ["gcc20", "clang17"] if not ctx.thorough else ["gcc20", "clang17", "m32", "gcc17"]
    ctx.compile([("h_" + c, "h_input.cpp", c) for c in cfgs])
    stim(ctx, strict)
    if ctx.thorough: ctx.mc("InputProtocolMC", "InputProtocolMC_deep.cfg")
    import os
    jobs = []
    for c in cfgs:
        d = ctx.path("wd_" + c); os.makedirs(d)
        jobs.append(("h_" + c, dict(args=["strict" if strict else "lenient", ctx.path("stim.txt")], cwd=d)))
    tr = ctx.harnesses(jobs)
    ctx.judge("InputProtocolTrace", tr, need=["tok", "sp", "nl", "eof", "neof"], min_events=20000)
