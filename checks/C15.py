import json, os, re
from lib.vf import CheckError
FLAGS = [("after", ["--seed", "0"]), ("after", ["--seed", "1"]), ("after", ["--seed", "9223372036854775807"]), ("after", ["--seed", "-1"]), ("after", ["--seed", "-9223372036854775808"]),
         ("after", []), ("before", []), ("before", ["--seed", "42"]), ("after", ["x", "--n", "5", "--seed", "12345678901234", "7"]), ("after", ["--seeds", "3"])]
def run(ctx):
    cfgs = ["gcc20", "gcc17", "clang20", "m32"] + (["m32_17", "clang17", "asan"] if ctx.thorough else [])
    ctx.compile([("h_" + c, "h_repro.cpp", c) for c in cfgs])
    ctx.mc("MT19937MC")
    jobs = [("h_" + c, dict(asan=c == "asan", timeout=400, out=ctx.path("t_%s.ndjson" % c))) for c in cfgs]
    for j, (m, a) in enumerate(FLAGS):
        for c in (["gcc20", "m32"] if not ctx.thorough else cfgs):
            jobs.append(("h_" + c, dict(args=["flag", m] + a, asan=c == "asan", out=ctx.path("f_%d_%s.ndjson" % (j, c)))))
    out = ctx.harnesses(jobs)
    main, flags = out[:len(cfgs)], out[len(cfgs):]
    # all executions of one script form one case
    cases, order = {}, []
    for t in main:
        cur = None
        for line in open(t):
            if line.startswith('{"e":"new"'):
                i = json.loads(line)["id"]
                if i not in cases: cases[i] = [line]; order.append(i)
                cur = cases[i]
            else: cur.append(line)
    merged = ctx.path("merged.ndjson")
    with open(merged, "w") as f:
        for i in order: f.writelines(cases[i])
    runs = sum(1 for i in order if i >= 0)
    if runs < 30: raise CheckError("only %d scripts" % runs)
    ctx.judge("ReproTrace", [merged] + ctx.distinct(flags), need=["seeded", "full", "run", "call"], min_events=8000, timeout=3000)
