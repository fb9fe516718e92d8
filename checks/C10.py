import json
def run(ctx):
    cfgs = ["gcc20", "clang17"] if not ctx.thorough else ["gcc20", "gcc17", "clang17", "m32", "asan"]
    ctx.compile([("h_" + c, "h_args.cpp", c) for c in cfgs])
    r = ctx.mc("ArgParserMC"); n = 0
    if ctx.thorough: ctx.mc("ArgParserMC", "ArgParserMC_deep.cfg")
    with open(ctx.path("stim.txt"), "w") as f:
        for line in r["out"].splitlines():
            if "@@" not in line: continue
            if line.startswith('"'): line = json.loads(line)
            f.write(" ".join("".join(map(chr, w)) for w in json.loads(line[2:])) + "\n"); n += 1
    if n < 3000: raise Exception("stimuli missing")
    ctx.extra["spec_generated_argument_vectors_replayed"] = n
    tr = ctx.harnesses([("h_" + c, dict(args=[ctx.path("stim.txt")], asan=c == "asan", timeout=400)) for c in cfgs])
    ctx.judge("ArgParserTrace", ctx.distinct(tr), need=["new", "query", "list", "one", "idx"], min_events=20000, timeout=3000)
