import concurrent.futures as cf, json, os, random, shutil, subprocess, threading, vf
KINDS = ["ints", "big", "reals", "words", "pairs", "perm", "tree", "conn", "simple", "dag"]
def b(x): return list(x)
def jl(p):
    try:
        with open(p) as f: return json.loads(f.read())["v"]
    except (OSError, ValueError): return []
def damage(r, t):
    t = bytearray(t); k = r.randrange(16); i = r.randrange(len(t) + 1)
    if k == 0 and t: del t[min(i, len(t) - 1)]
    elif k == 1: t.insert(i, r.choice(b" \n\t\r0123456789-+.ax\x80\x00"))
    elif k == 2 and t: t[min(i, len(t) - 1)] = r.choice(b" \n\t\r0123456789-+.axE,")
    elif k == 3: t = t[:i]
    elif k == 4: t += r.choice([b" ", b"\n", b"0\n", b"x"])
    elif k == 5: t = t.rstrip(b"\n")
    elif k == 6: t = t.replace(b"\n", b"\r\n")
    elif k == 7: t = t.replace(b" ", b"  ", 1)
    elif k == 8: t = t.replace(b"\n", b" ", 1)
    elif k == 9: t = t.replace(b" ", b"\n", 1)
    else:
        ls = [l.split(b" ") for l in bytes(t).split(b"\n")]; a = r.randrange(len(ls)); c = r.randrange(len(ls[a])); w = ls[a][c]
        if k == 10: a2 = r.randrange(len(ls)); ls[a], ls[a2] = ls[a2], ls[a]
        elif k == 11: ls.insert(a, list(ls[a]))
        elif k == 12:
            try: ls[a][c] = b"%d" % (int(w) + r.choice([-1, 1, -1, 1, 100, -100]))
            except ValueError: ls[a][c] = w + w
        elif k == 13: ls[a].reverse()
        elif k == 14: ls[a][c] = r.choice([b"0", b"1", b"-0", b"01", b"100", b"-100", b"-101", b"99", b"4611686018427387903", b"-4611686018427387904", b"9.000000", b"-9.000000", b"-9.000001", b"8.999999", b"50", b"-20", b"-21", b"1e1", b"abcdefghijkl", b"abcdefghijklm", b"aB"])
        else: a2 = r.randrange(len(ls)); c2 = r.randrange(len(ls[a2])); ls[a][c], ls[a2][c2] = ls[a2][c2], w
        t = b"\n".join(b" ".join(l) for l in ls)
    return bytes(t)
def chain(args):
    d, gen, chk, kind, n, m, seed, rs, nd = args
    os.makedirs(d); r = random.Random(rs); ev = []
    env = dict(PATH=os.environ.get("PATH", ""), VF_LOG=os.path.join(d, "log"))
    a = [gen, "--kind", kind, "--n", str(n), "--m", str(m), "--seed", str(seed)] + (["--shuffle"] if r.random() < .6 else [])
    p = subprocess.run(a, cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
    text = p.stdout; ev.append(dict(e="gen", kind=kind, n=n, code=p.returncode & 255, v=jl(env["VF_LOG"]), text=b(text)))
    def val(t):
        try: os.unlink(env["VF_LOG"])
        except OSError: pass
        f = os.path.join(d, "t")
        with open(f, "wb") as o: o.write(t)
        with open(f, "rb") as s: q = subprocess.run([chk, "--kind", kind], cwd=d, env=env, stdin=s, capture_output=True, timeout=60)
        ev.append(dict(e="val", code=q.returncode & 255, v=jl(env["VF_LOG"])))
    val(text)
    for _ in range(nd):
        t = damage(r, text)
        if r.random() < .2: t = damage(r, t)
        ev.append(dict(e="damage", text=b(t))); val(t)
    shutil.rmtree(d); return ev
def talk(args):
    d, prog, secret, plan, r, lazy = args
    os.makedirs(d)
    with open(os.path.join(d, "in"), "w") as f: f.write("%d\n" % secret)
    open(os.path.join(d, "ans"), "w").close(); os.makedirs(os.path.join(d, "fb"))
    p = subprocess.Popen([prog, "in", "ans", "fb"] + (["--lazy"] if lazy else []), cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    timer = threading.Timer(20, p.kill); timer.start()
    ev = [dict(e="start", secret=secret)]; lo, hi, n, quiet = 1, 1000, 0, False
    def send(raw, toks):
        for t in toks: ev.append(dict(e="send", t=b(t)))
        try: p.stdin.write(raw); p.stdin.flush()
        except OSError: pass
    def hear():
        a = p.stdout.readline()
        if a: ev.append(dict(e="hear", a=b(a.rstrip(b"\n"))))
        return a.strip()
    while True:
        n += 1; g = b"%d" % ((lo + hi) // 2) if plan["how"] == "bisect" else b"%d" % r.randint(1, 1000) if plan["how"] == "guess" else b"%d" % n
        if plan.get("at") == n:
            if plan["do"] == "leave": break
            if plan["do"] == "bad": g = plan["tok"]
            elif plan["do"] == "two":
                h = b"%d" % r.randint(1, 1000); send(g + r.choice([b" ", b"\n"]) + h + b"\n", [g, h])
                if hear() and hear(): continue
                break
        send(plan["fmt"] % g + b"\n", [g]); a = hear()
        if not a: break
        if a == b"correct":
            if plan.get("tail"): send(b"1\n", [b"1"])
            break
        if a == b"higher": lo = max(lo, int(g) + 1)
        elif a == b"lower": hi = min(hi, int(g) - 1)
        if lo > hi: lo, hi = 1, 1000
        if n > 30: break
    try: p.stdin.close()
    except OSError: pass
    ev.append(dict(e="close"))
    while hear(): pass
    p.wait(); timer.cancel()
    def size(f):
        try: return os.path.getsize(os.path.join(d, "fb", f)) > 0
        except OSError: return False
    ev.append(dict(e="exit", code=p.returncode & 255, team=size("teammessage.txt"), jury=size("judgemessage.txt")))
    shutil.rmtree(d); return ev
def run(ctx):
    cfgs = ["gcc20", "clang17"] if not ctx.thorough else ["gcc20", "gcc17", "clang17", "m32"]
    ctx.compile([(n + "_" + c, n + ".cpp", c.replace("17", "20") if n == "p_gen" else c) for c in cfgs for n in ("p_gen", "p_check", "p_inter")])
    ctx.mc("ChainMC", "ChainMC_deep.cfg" if ctx.thorough else "ChainMC.cfg", timeout=2400)
    ctx.mc("DialogueMC")
    r = random.Random(ctx.seed * 65537 + 38); f = 6 if ctx.thorough else 1; jobs = []
    for i in range(22 * f):
        for kind in KINDS:
            c = cfgs[(i + KINDS.index(kind)) % len(cfgs)]; n = r.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])
            if kind == "dag" and n > 8: n = 7
            jobs.append((ctx.path("c_%s_%d" % (kind, i)), ctx.path("p_gen_" + c), ctx.path("p_check_" + c), kind, n, r.choice([0, 1, 2, 3, 6, 9]), r.randrange(1 << 31), r.randrange(1 << 30), 5))
    with cf.ThreadPoolExecutor(vf.JOBS) as ex:
        with open(ctx.path("chain.ndjson"), "w") as o:
            for ev in ex.map(chain, jobs):
                for e in ev: o.write(json.dumps(e, separators=(",", ":")) + "\n")
        talks = []
        for i in range(150 * f):
            plan = dict(how=r.choice(["bisect", "bisect", "bisect", "guess", "count"]), fmt=r.choice([b"%s", b"%s", b" %s", b"\n\n%s ", b"\t%s"]), tail=r.random() < .2)
            if r.random() < .5: plan.update(at=r.randint(1, 11), do=r.choice(["leave", "bad", "bad", "two"]), tok=r.choice([b"abc", b"5.0", b"+7", b"007", b"0", b"1001", b"-3", b"99999999999999999999", b"1e2", b"0x10", b"1000", b"1"]))
            talks.append((ctx.path("d_%d" % i), ctx.path("p_inter_" + cfgs[i % len(cfgs)]), r.choice([1, 2, 3, 5, 10, 11, 500, 999, 1000, r.randint(1, 1000)]), plan, random.Random(r.random()), i % 2 == 1))
        with open(ctx.path("talk.ndjson"), "w") as o:
            for ev in ex.map(talk, talks):
                for e in ev: o.write(json.dumps(e, separators=(",", ":")) + "\n")
    ctx.judge("ChainTrace", [ctx.path("chain.ndjson")], reset="gen", need=["gen", "damage", "val"], min_events=2000, timeout=2400)
    ctx.judge("DialogueTrace", [ctx.path("talk.ndjson")], reset="start", need=["start", "send", "hear", "close", "exit"], min_events=1000, timeout=2400)
