"""Runs p_role.cpp as real processes and records what they did as traces."""
import concurrent.futures as cf, json, os, random, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
def b(x): return [c for c in (x if isinstance(x, bytes) else x.encode("latin1"))]
def hx(x): return x.encode("latin1").hex() or "-"
def readf(p):
    try:
        with open(p, "rb") as f: return f.read()
    except OSError: return None

def execute(binary, d, role, argv, script, stdin=b"", pipe=False, timeout=20):
    """one process in directory d; returns (exit code, stdout, stderr, [(index, done, refused, result)])"""
    with open(os.path.join(d, "script"), "w") as f: f.write("\n".join(script) + "\n")
    si = os.path.join(d, "stdin.txt")
    with open(si, "wb") as f: f.write(stdin)
    lg = os.path.join(d, "log")
    env = dict(PATH=os.environ.get("PATH", ""), VF_SCRIPT="script", VF_LOG="log", VF_ROLE=role)
    try:
        if pipe: p = subprocess.run([binary] + argv, cwd=d, env=env, input=stdin, capture_output=True, timeout=timeout)
        else:
            with open(si, "rb") as f: p = subprocess.run([binary] + argv, cwd=d, env=env, stdin=f, capture_output=True, timeout=timeout)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = 255, e.stdout or b"", e.stderr or b""
    ops = []
    for line in (readf(lg) or b"").decode("latin1").splitlines():
        w = line.split(" ", 3)
        if w[0] == "S": ops.append([int(w[1]), False, False, []])
        else: ops[-1] = [int(w[1]), True, w[2] == "1", json.loads(w[3])]
    return rc, out, err, ops

def con_lines(raw):
    res = []
    for ln in raw.decode("latin1").split("\n")[:-1]:
        t = ln.split()
        name = t[1][11:] if len(t) > 1 and t[1].startswith("constraint:") else (t[1] if len(t) > 1 else "")
        res.append(dict(name=name, t=[b(x) for x in t]))
    return res
def con_event(raw):
    lines = []
    for ln in raw.decode("latin1").split("\n"):
        if ln: lines.append(ln)
    return lines

PRESET_VAL = "2"
POOL = ["ab", "AB", "Ab", "zZ", "7", "07", "-7", "0", "12", "1.5", "x", "X", "abc", "1e3"]
NUMS = ["0", "1", "1000", "-1", "0.5"]
# never exactly on a tolerance used below (the comparison itself is in floating point)
DIFF = ["0", "0.0000001", "0.00047", "0.0047", "0.097", "0.61", "1.53", "4.7", "97", "710", "2900"]
def dec(x):
    from decimal import Decimal
    return x if isinstance(x, Decimal) else Decimal(x)
def plain(x):
    s = format(x, "f")
    if "." in s: s = s.rstrip("0").rstrip(".")
    return "0" if s in ("-0", "") else s
def near_pair(r):
    base = dec(r.choice(NUMS)); d = dec(r.choice(DIFF)) * r.choice([1, -1])
    if base != 0 and r.random() < .3: d = base * dec(r.choice(["0.0000004", "0.0047", "0.021", "0.097", "0.31"]))
    return plain(base + d), plain(base)

def content(r, strict):
    toks = [r.choice(POOL) for _ in range(r.randint(0, 4))]
    s = ""
    for i, t in enumerate(toks):
        if i: s += r.choice([" ", "\n"]) if r.random() < .8 else r.choice(["  ", "\t", " \n", "\r\n"])
        if r.random() < .15: g, x = near_pair(r); t = g
        s += t
    if r.random() < .6: s += "\n"
    if r.random() < .1: s = r.choice([" ", "\n", "\x01", "\xe4"]) + s
    return s

class Case:
    """builds the operations of one run, following the tokens so that most reads are satisfied"""
    def __init__(self, r, role, ins):
        self.r, self.role = r, role
        self.pos = {n: 0 for n in ins}; self.ins = ins
    def read(self):
        r = self.r; n = r.choice(list(self.ins)); s = self.ins[n]; p = self.pos[n]
        kind = r.random()
        rest = s[p:]
        if rest[:1] in (" ", "\n") and r.random() < .8:
            self.pos[n] += 1
            return ("r", n, "sp" if (rest[0] == " ") == (r.random() < .9) else "nl", [])
        if not rest.strip():
            self.pos[n] = p
            return ("r", n, "eof" if r.random() < .8 else "tok", [])
        q = p + len(rest) - len(rest.lstrip()); e = q
        while e < len(s) and not s[e].isspace(): e += 1
        t = s[q:e]; self.pos[n] = e
        if kind < .2: return ("r", n, "tok", [])
        if kind < .25: return ("r", n, "pat", [])
        if kind < .3: return ("r", n, "sl", [str(r.randint(0, len(t))), str(r.randint(len(t), len(t) + 2))])
        if kind < .4: self.pos[n] = p; return ("r", n, "neof", [])
        if kind < .65:
            u = t if r.random() < .5 else t.swapcase() if r.random() < .7 else r.choice(POOL)
            return ("r", n, "xs", [u])
        try: v = float(t); num = t.isascii()
        except ValueError: num = False
        if num and kind < .85 and "e" not in t:
            d = dec(r.choice(DIFF)) * r.choice([1, -1]); base = dec(t) - d
            return ("r", n, "xr", [plain(base)])
        if num and kind < .9 and "e" not in t: return ("r", n, "rs", [r.choice(["-10", "-0.5", "0.25", t]), r.choice(["1.5", "12", "1000", "20"])])
        if num and kind < .93:
            k = r.randint(1, 3); self.pos[n] = len(s) if k > 1 else e
            return ("r", n, "ints", [str(k)])
        if num and kind < .95: return ("r", n, "ib", [str(r.choice([-8, -7, 0, 7])), str(r.choice([7, 8, 13]))])
        if num: return ("r", n, "int", [])
        return ("r", n, "tok", [])

def line_of(op):
    k = op[0]
    if k == "r":
        a = [hx(x) for x in op[3]] if op[2] == "xs" else op[3]
        return " ".join(["r", op[1], op[2]] + a)
    if k in ("w", "wf"): return "%s %s %s" % (k, op[1], hx(op[2]))
    if k == "seq": return "seq %s %s" % (hx(op[1]), hx(op[2]))
    if k == "rx": return "rx %s %s %s" % (op[1], hx(op[2]), op[3])
    return " ".join(map(str, op))

def event_of(op, done, ref, res, role):
    k = op[0]; e = dict(e=k, done=done, ref=ref)
    if k == "set": e.update(k="cs" if op[1] == "case" else op[1], v=b(op[2]))
    elif k == "settings": e.update(res=res)
    elif k == "r": e.update(s=op[1], op=op[2], a=[b(x) for x in op[3]], res=res)
    elif k in ("w", "wf"): e.update(e="w", s=op[1], b=b(op[2]))
    elif k == "v": e.update(v=op[1], ch="juryOut")
    elif k == "vt": e.update(e="v", v=op[1], ch="teamOut")
    elif k == "ve": e.update(e="v", v=op[1], ch="none")
    elif k == "con": e.update(n=op[1], lo=b(op[2]), hi=b(op[3]), v=b(op[4]))
    elif k in ("feq", "fle", "fge"): e.update(e="f", op=k, g=b(op[1]), x=b(op[2]), res=res)
    elif k == "seq": e.update(g=b(op[1]), x=b(op[2]), res=res)
    elif k == "rx": e.update(g=b(op[1]), x=b(op[2]), res=res, gram=op[3])
    elif k == "ret": e.update(code=op[1])
    return e

FLAGS = [("tol", "float_tolerance", "0.25"), ("abs", "float_absolute_tolerance", "0.01"), ("rel", "float_relative_tolerance", "0.001")]
def make(r, cfg, tier, con=.4, deadly=.5, logs=False, uninit=0):
    """one run for one configuration of the specification"""
    role = cfg["role"]
    flags = []
    for k, name, v in FLAGS:
        if cfg[k]:
            if r.random() < .3: v = r.choice(["0.5", "0", "1", "0.002", "3"])
            if r.random() < .04: v = r.choice(["x", "0.5x", "", "float_tolerance", "--"])
            flags.append([name, v])
    if cfg["sp"]: flags.append(["space_change_sensitive"])
    if cfg["cs"]: flags.append(["case_sensitive"])
    con = r.random() < con
    if con: flags.append(["--constraints_file", "con.txt"])
    if r.random() < .15: flags.append(["--other", "5"])
    r.shuffle(flags)
    argv = []
    if role == "answer": argv = ["in.txt"]
    if role in ("output", "interactor"): argv = ["in.txt", "ans.txt", "fb"]
    cut = r.random() < .04
    if cut and argv: argv = argv[:r.randint(0, len(argv) - 1)]; flags = []
    for f in flags: argv += f
    if flags and len(flags[-1]) == 2 and flags[-1][0].startswith("float") and r.random() < .1: argv.pop()
    files = dict(hasIn=r.random() > .03, hasAns=r.random() > .03, hasDir=r.random() > .03)
    texts = {k: content(r, k == "stdin") for k in ("stdin", "in", "ans")}
    ops = []
    for k, p in (("abs", "pabs"), ("rel", "prel"), ("space", "psp"), ("case", "pcs")):
        if cfg[p]: ops.append(("set", k, (r.choice(["2", "0.25", "0"]) if k in ("abs", "rel") else "1")))
    r.shuffle(ops)
    if r.random() < .1: ops.append(("set", r.choice(["space", "case"]), "0"))
    lost = r.random() < uninit
    if not lost: ops.append(("init",))
    ins = dict(input=dict(testIn="stdin"), answer=dict(testIn="in", ans="stdin"), output=dict(testIn="in", juryAns="ans", teamAns="stdin"),
               interactor=dict(testIn="in", fromTeam="stdin"), generator={})[role]
    case = Case(r, role, {n: texts[f] for n, f in ins.items()})
    chans = dict(input=["juryOut", "juryErr"], answer=["juryOut", "juryErr"], output=["juryOut", "juryErr", "teamOut"],
                 interactor=["juryOut", "juryErr", "teamOut", "toTeam"], generator=["juryOut", "testOut"])[role]
    if lost:
        for _ in range(r.randint(0, 3)): ops.append(case.read() if ins and r.random() < .7 else ("mpinit",))
        x = r.random()
        ops.append(("ret", r.choice([0, 42, 43, 3])) if x < .5 else ("v", r.choice(["AC", "WA", "FAIL"])) if x < .7 else ("ve", r.choice(["AC", "WA"])) if x < .9 or "teamOut" not in chans else ("vt", "AC"))
        return role, argv, files, texts, ops
    if r.random() < .7: ops.append(("settings",))
    for _ in range(r.randint(0, 12 if tier == "quick" else 20)):
        x = r.random() if not logs or r.random() < .5 else .8
        if x < .5 and ins: ops.append(case.read())
        elif x < .65: ops.append((r.choice(["w", "wf"]), r.choice(chans), r.choice(["", "msg", "a\n", "42 ", "\x00z"])))
        elif x < .72: ops.append(("set", r.choice(["abs", "rel"]), "0.5") if r.random() < .5 else ("set", r.choice(["space", "case"]), r.choice("01")))
        elif x < .75: ops.append(("init",))
        elif x < .78: ops.append(("settings",))
        elif x < .88 and role in ("input", "answer", "output"): ops.append(("con", r.choice("xyz"), "-3", "9", str(r.randint(-3, 8))))
        elif x < .94: ops.append((r.choice(["feq", "fle", "fge"]),) + near_pair(r))
        elif x < .97: ops.append(("seq", r.choice(POOL), r.choice(POOL)))
        else:
            g = r.choice(["ab", "Ab", "X", "aB+", "x+"]); w = g.rstrip("+") + g[-1 - g.endswith("+")] * r.choice([0, 0, 1, 3])
            ops.append(("rx", g, r.choice([g, g.swapcase(), "q", w, w.swapcase(), w]), r.choice(["default", "ecma", "extended", "basic"])))
    if ins and r.random() < deadly:                       # read on until a stream gives up
        for _ in range(14): ops.append(case.read())
    x = r.random()
    if role == "generator": ops.append(("ret", r.choice([0, 1, 5])))
    elif x < .6: ops.append(("v", r.choice(["AC", "WA", "PE", "FAIL"])))
    elif x < .75: ops.append(("ve", r.choice(["AC", "WA", "FAIL"])))
    elif x < .85 and "teamOut" in chans: ops.append(("vt", r.choice(["AC", "WA"])))
    else: ops.append(("ret", r.choice([0, 0, 42, 3])))
    return role, argv, files, texts, ops

def run_case(binary, d, spec, pipe):
    role, argv, files, texts, ops = spec
    os.makedirs(d)
    for k, f, has in (("in", "in.txt", "hasIn"), ("ans", "ans.txt", "hasAns")):
        if files[has]:
            with open(os.path.join(d, f), "wb") as fh: fh.write(texts[k].encode("latin1"))
    fb = os.path.join(d, "fb")
    if files["hasDir"]: os.makedirs(fb)
    rc, out, err, log = execute(binary, d, role, argv, [line_of(o) for o in ops], texts["stdin"].encode("latin1"), pipe)
    evs = [dict(e="new", role=role, argv=[b("p")] + [b(a) for a in argv],
                files={"stdin": b(texts["stdin"]), "in": b(texts["in"]), "ans": b(texts["ans"]), **files})]
    for i, done, ref, res in log: evs.append(event_of(ops[i], done, ref, res, role))
    con = readf(os.path.join(d, "con.txt"))
    evs.append(dict(e="exit", code=rc if rc >= 0 else 128 - rc, hasCon=con is not None, con=con_lines(con) if con is not None else [],
                    outs=dict(stdout=b(out), err=b(err), judge=b(readf(os.path.join(fb, "judgemessage.txt")) or b""),
                              team=b(readf(os.path.join(fb, "teammessage.txt")) or b""))))
    shutil.rmtree(d, ignore_errors=True)
    return "".join(json.dumps(e, separators=(",", ":")) + "\n" for e in evs)

def configs(ctx, deep=True):
    r = ctx.mc("ProcessMC"); res = []
    for line in r["out"].splitlines():
        if "@@" not in line: continue
        if line.startswith('"'): line = json.loads(line)
        res.append(json.loads(line[2:]))
    if len(res) < 2560: raise vf.CheckError("configurations missing: %d" % len(res))
    if ctx.thorough and deep: ctx.mc("ProcessMC", "ProcessMC_deep.cfg", timeout=1500)
    ctx.extra["spec_generated_configurations_run"] = len(res)
    return sorted(res, key=lambda c: json.dumps(c, sort_keys=True))

def record(ctx, cases, binaries, name):
    """cases: list of specs; every case runs with one of the binaries; returns the trace file"""
    root = ctx.path("run_" + name); os.makedirs(root)
    def one(i): return run_case(binaries[i % len(binaries)], os.path.join(root, str(i)), cases[i], i % 3 == 0)
    out = ctx.path(name + ".ndjson")
    with cf.ThreadPoolExecutor(vf.JOBS) as ex, open(out, "w") as f:
        for t in ex.map(one, range(len(cases))): f.write(t)
    shutil.rmtree(root, ignore_errors=True)
    return out
