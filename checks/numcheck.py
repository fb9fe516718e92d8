import json
def words(ctx):
    r = ctx.mc("NumberScan")
    n = 0
    with open(ctx.path("words.txt"), "w") as f:
        for line in r["out"].splitlines():
            if "@@" not in line: continue
            if line.startswith('"'): line = json.loads(line)
            f.write(",".join(map(str, json.loads(line[2:]))) + "\n"); n += 1
    if n < 10000: raise Exception("words missing")
    ctx.extra["spec_generated_words_replayed"] = n
    if ctx.thorough: ctx.mc("NumberScan", "NumberScan_deep.cfg")
def run(ctx, mode, need, cfgs=("gcc20", "clang17")):
    if ctx.thorough: cfgs = ("gcc20", "gcc17", "clang17", "m32", "asan")
    ctx.compile([("h_" + c, "h_numbers.cpp", c) for c in cfgs])
    words(ctx)
    tr = ctx.harnesses([("h_" + c, dict(args=[mode, ctx.path("words.txt")], asan=c == "asan", timeout=400)) for c in cfgs])
    ctx.judge("NumberTrace", ctx.distinct(tr), reset=None, need=need, min_events=9000, timeout=3000)
