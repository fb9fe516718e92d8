import os
def run(ctx):
    cfgs = ("gcc20", "clang17") if not ctx.thorough else ("gcc20", "gcc17", "clang17", "m32", "asan")
    ctx.compile([("h_" + c, "h_report.cpp", c) for c in cfgs])
    ctx.mc("ReportMC")
    if ctx.thorough: ctx.mc("ReportMC", "ReportMC_deep.cfg", timeout=2000)
    jobs = []
    for c in cfgs:
        for m in ("short", "long"):
            d = ctx.path("wd_%s_%s" % (c, m)); os.makedirs(d)
            jobs.append(("h_" + c, dict(args=[m], asan=c == "asan", timeout=600, cwd=d, out=ctx.path("%s_%s.ndjson" % (c, m)))))
    ctx.judge("ReportTrace", ctx.distinct(ctx.harnesses(jobs)), need=["read", "bulk", "sep", "expect", "eof", "noteof"], min_events=20000, timeout=3000)
