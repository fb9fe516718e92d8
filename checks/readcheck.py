import json, os
def stim(ctx):
    r = ctx.mc("ReaderMC"); n = 0
    with open(ctx.path("stim.txt"), "w") as f:
        for line in r["out"].splitlines():
            if "@@" not in line: continue
            if line.startswith('"'): line = json.loads(line)
            o = json.loads(line[2:])
            f.write("%d%d|%s|%s\n" % (o["s"], o["c"], ",".join(map(str, o["i"])), " ".join("%s %d %d" % tuple(h) for h in o["h"]))); n += 1
    if n < 5000: raise Exception("stimuli missing")
    ctx.extra["spec_generated_histories_replayed"] = n
    if ctx.thorough: ctx.mc("ReaderMC", "ReaderMC_deep.cfg")
def run(ctx, mode, need, replay, cfgs=("gcc20", "clang17")):
    if ctx.thorough: cfgs = ("gcc20", "gcc17", "clang17", "m32", "asan")
    ctx.compile([("h_" + c, "h_reader.cpp", c) for c in cfgs])
    if replay: stim(ctx)
    else: ctx.mc("ReaderMC", "ReaderMC_small.cfg")
    jobs = []
    for c in cfgs:
        d = ctx.path("wd_" + c); os.makedirs(d)
        jobs.append(("h_" + c, dict(args=[mode] + ([ctx.path("stim.txt")] if replay else []), asan=c == "asan", timeout=400, cwd=d)))
    ctx.judge("ReaderTrace", ctx.distinct(ctx.harnesses(jobs)), need=need, min_events=9000, timeout=3000)
