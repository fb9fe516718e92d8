import json
def run(ctx):
    cfgs = ["gcc20", "asan"] if not ctx.thorough else ["gcc20", "asan", "m32", "clang20"]
    ctx.compile([("h_" + c, "h_gghist.cpp", c) for c in cfgs])
    r = ctx.mc("GraphGenMC", "GraphGenMC.cfg")
    n = 0
    with open(ctx.path("stim.txt"), "w") as f:
        for line in r["out"].splitlines():
            if "@@" not in line: continue
            if line.startswith('"'): line = json.loads(line)
            o = json.loads(line[2:]); n += 1
            if not ctx.thorough and n % 40: continue
            f.write(str(int(o["d"])) + " " + " ".join(" ".join(map(str, x)) for x in o["h"]) + "\n")
    if n < 1000: raise Exception("stimuli missing")
    ctx.extra["spec_generated_histories"] = n
    tr = ctx.harnesses([("h_" + c, dict(args=[ctx.path("stim.txt")], asan=c == "asan", timeout=600)) for c in cfgs])
    ctx.judge("GraphGenTrace", ctx.distinct(tr), need=["add", "erase", "comb", "app", "rev", "perm", "rperm", "set", "setall", "setadj", "minid", "copy", "pedges", "probe", "byid", "obs"], min_events=5000)
