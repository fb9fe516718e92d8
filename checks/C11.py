import concurrent.futures as cf, json, os, random, shutil, proclib, vf
from proclib import b, readf
STATE = ["", "a", "a b", "7\n", "A  a\n7 7", " \n", "x" * 300, "1 2 3\n4\n"]
def run_ops(r, h):
    """operations of one run; h: history words of the specification for this run (or None)"""
    ops = []
    if r.random() < .1: ops.append(("mpinit",))
    ops += [("init",), ("mpinit",)]
    words = h if h is not None else [w for w in ["tok", r.choice(["s1", "s2"]), "np"] if r.random() < .6] + [r.choice(["NEXT", "NEXT", "AC", "WA", "FAIL"])]
    chained = any(w[0] == "=" for w in words)
    for w in words[:-1]:
        if w == "tok":
            for _ in range(1 if h is not None else r.randint(1, 3)): ops.append(("r", "prevstate", r.choice(["tok", "tok", "int", "sp", "nl", "eof", "neof"]) if not chained and (h is None or r.random() < .6) else "tok", []))
            if r.random() < .2 and not chained: ops.append(("r", "prevstate", "xs", [r.choice(["a", "A", "7"])]))
        elif w.startswith("="): ops.append((r.choice(["w", "wf"]), "nextstate", w[1:]))
        elif w in ("s1", "s2"):
            for t in ([r.choice(STATE)] if w == "s1" else [r.choice(STATE), " ", r.choice(STATE)]): ops.append((r.choice(["w", "wf"]), "nextstate", t))
        elif w == "np":
            for t in r.sample(STATE, r.randint(1, 2)): ops.append((r.choice(["w", "wf"]), "nextpass", t))
        if r.random() < .15: ops.append(("w", r.choice(["juryOut", "teamOut"]), r.choice(["m", "42 "])))
        if r.random() < .1 and not chained: ops.append(("r", "T", r.choice(["tok", "neof"]), []))
    q = words[-1]
    if r.random() < .1 and not chained: ops.append(("r", "prevstate", "eof", []))
    ops.append((r.choice(["NEXT", "NEXTs"]),) if q == "NEXT" else ("v", q))
    return ops
def directory(binary, d, seq, seed):
    r = random.Random(seed); os.makedirs(os.path.join(d, "fb")); fb = os.path.join(d, "fb")
    for f in ("in.txt", "ans.txt"): open(os.path.join(d, f), "w").write("q")
    evs = [dict(e="new")]; np = os.path.join(fb, "nextpass.in")
    for h in seq:
        role = r.choice(["output", "interactor"]); ops = run_ops(r, h)
        T = "teamAns" if role == "output" else "fromTeam"
        ops = [("r", T) + o[2:] if o[0] == "r" and o[1] == "T" else o for o in ops]
        if os.path.exists(np) and r.random() < .6: os.unlink(np); evs.append(dict(e="clean"))
        for f in ("judgemessage.txt", "teammessage.txt"):
            try: os.unlink(os.path.join(fb, f))
            except OSError: pass
        stdin = r.choice(["", "q", "q q q\n"]); argv = ["in.txt", "ans.txt", "fb"] + (["case_sensitive"] if r.random() < .2 else [])
        rc, out, err, log = proclib.execute(binary, d, role, argv, [proclib.line_of(o) for o in ops], stdin.encode())
        evs.append(dict(e="run", role=role, argv=[b("p")] + [b(a) for a in argv],
                        files={"stdin": b(stdin), "in": b("q"), "ans": b("q"), "hasIn": True, "hasAns": True, "hasDir": True}))
        for i, done, ref, res in log:
            o = ops[i]
            evs.append(dict(e="next", o=o[0], done=done) if o[0].startswith("NEXT") else
                       dict(e="mpinit", done=done, ref=ref, res=res if isinstance(res, int) else -1) if o[0] == "mpinit" else
                       proclib.event_of(o, done, ref, res, role))
        nb = readf(np)
        evs.append(dict(e="exit", code=rc if rc >= 0 else 128 - rc, has=nb is not None, next=b(nb or b""),
                        outs=dict(stdout=b(out), err=b(err), judge=b(readf(os.path.join(fb, "judgemessage.txt")) or b""),
                                  team=b(readf(os.path.join(fb, "teammessage.txt")) or b""))))
    shutil.rmtree(d, ignore_errors=True)
    return "".join(json.dumps(e, separators=(",", ":")) + "\n" for e in evs)
def run(ctx):
    cfgs = ["gcc20", "clang17"] if not ctx.thorough else ["gcc20", "gcc17", "clang17", "m32"]
    ctx.compile([("p_" + c, "p_role.cpp", c) for c in cfgs])
    r0 = ctx.mc("MultipassMC"); hist = []
    if ctx.thorough: ctx.mc("MultipassMC", "MultipassMC_deep.cfg", timeout=1500)
    for line in r0["out"].splitlines():
        if "@@" not in line: continue
        if line.startswith('"'): line = json.loads(line)
        seq = []
        for w in json.loads(line[2:]):
            if w == "begin": seq.append([])
            else: seq[-1].append(w)
        hist.append(seq)
    if len(hist) < 5000: raise vf.CheckError("histories missing: %d" % len(hist))
    hist.sort(key=json.dumps)
    r = random.Random(ctx.seed * 131 + 11)
    sel = hist if ctx.thorough else r.sample(hist, 1200)
    seqs = [s + [None] * r.choice([0, 0, 1, 2]) for s in sel] + [[None] * r.randint(1, 7) for _ in range(300)]
    # long chains: the pass number gets a second and a third digit
    chain = lambda n: [["tok"] * (i > 0) + ["=pass%d" % i, "NEXT"] for i in range(n)]   # a state of its own per pass, read back by the next
    seqs += [[["tok", r.choice(["s1", "s2"]), "NEXT"] for _ in range(r.randint(11, 24))] for _ in range(6)] + [chain(r.randint(12, 40)) for _ in range(3)] + [chain(1030 if ctx.thorough else 270)]
    ctx.extra["spec_generated_histories"] = len(hist); ctx.extra["histories_run"] = len(seqs)
    root = ctx.path("runs"); os.makedirs(root); out = ctx.path("mp.ndjson")
    with cf.ThreadPoolExecutor(vf.JOBS) as ex, open(out, "w") as f:
        for t in ex.map(lambda i: directory(ctx.path("p_" + cfgs[i % len(cfgs)]), os.path.join(root, str(i)), seqs[i], ctx.seed * 1000003 + i), range(len(seqs))): f.write(t)
    shutil.rmtree(root, ignore_errors=True)
    ctx.judge("MultipassTrace", [out], need=["new", "run", "clean", "init", "mpinit", "r", "w", "next", "v", "exit"], min_events=15000, timeout=3000)
