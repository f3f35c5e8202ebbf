from checks import check
import vf, json, itertools
OPT, REQ, COMP = 1, 2, 4
# (short, long, id, flags)
T = [
 ([("a", None, 1, 0), ("b", None, 2, 0), ("c", None, 3, REQ)], ["-a", "-ab", "-ac", "-c", "-cx", "-x", "-ba", "-axb", "--", "-", "x", "-ca"]),
 ([("v", "verbose", 1, 0), ("o", "output", 2, REQ), ("p", "param", 3, OPT), (0, "out", 4, OPT)], ["--verbose", "--verbose=1", "--output", "--output=f", "--output=", "--param", "--param=z", "--out=1", "--out", "--outp", "-vo", "-p", "-o", "-ofile", "--", "f", "--unk=5"]),
 ([(0, "-D", 1, COMP), ("x", None, 2, 0), (0, "-isystem", 3, COMP), ("i", None, 4, 0)], ["-D", "-DX", "-D=", "-x", "-xi", "-isystem", "-isystemX", "-isys", "-i", "--", "-", "f"]),
 ([("D", "-I", 1, COMP), ("x", "long", 2, 0), ("q", "quit", 3, REQ)], ["-x", "-xD", "-D", "-I", "-Ix", "-xq", "-q", "--long", "--", "-", "a", "-qD"]),
 ([(0, "if=", 1, COMP), (0, "of=", 2, COMP), ("v", "v", 3, 0)], ["if=", "if=x", "of=y", "i", "if", "-v", "--v", "--v=1", "--", "-", "", "-vv"]),
 ([("f", "foo", 1, 0), (0, "foobar", 2, REQ), (0, "foo", 3, OPT), ("f", "f", 4, REQ)], ["--foo", "--foobar", "--foobar=1", "--foo=1", "--fooba", "-f", "-ff", "--f", "--f=", "--", "--f=a=b"]),
 ([(0, "--param", 1, COMP), (0, "par", 2, OPT), ("p", None, 3, 0)], ["--param", "--param=x", "--paramx", "--par", "--par=1", "-p", "--p", "--", "x", "-"]),
 ([], ["-a", "--x", "--x=1", "x", "--", "-", ""]),
 ([("a", "", 1, OPT | REQ), ("b", "beta", -5, OPT | REQ)], ["--", "-a", "-ax", "--beta", "--beta=", "--beta=q", "-b", "--=x", "x"]),
]
def oh(s): return s.encode("latin-1").hex() or "."
def table(opts): return "t;" + ";".join("o %d %s %d %d" % (ord(s) if s else 0, oh(l) if l is not None else "-", i, f) for s, l, i, f in opts) if opts else "t"
def ent(o): s, l, i, f = o; return {"s": ord(s) if s else 0, "haslong": int(l is not None), "long": [ord(c) for c in l or ""], "id": i, "flags": f}
def lines(ctx, n): return [(k, a) for k, (o, w) in enumerate(T) for m in range(n + 1) for a in itertools.product(w, repeat=m)]
def rtable(r):
    names = ["a", "b", "foo", "foobar", "fo", "out", "output", "x-y", "very-long-option-name", "-D", "-Dx", "-", "--long", "if=", "+", "n" * 27, "n" * 29, "n" * 30, "n" * 40, "\xe9t"]
    t = []
    for i in range(r.randrange(0, 7)):
        f = r.choice([0, 0, 0, OPT, REQ, REQ, OPT | REQ, COMP, COMP | OPT, COMP | REQ])
        l = r.choice(names); s = r.choice(["a", "b", "c", "D", "x", "\xe9", None])
        if not f & COMP:
            if l.startswith("-") or r.random() < .3: l = None
            if l is None and s is None: s = "a"
        elif l in ("-",): l = "-W"
        t.append((s, l, r.choice([i + 1, -i - 1, 1000 + i, 2**31 - 1 - i, 7]), f))
    return t
def rword(r, t):
    p = ["-", "--", "", "x", "file", "-a", "-b", "-z", "--foo", "--unknown", "=", "-=", "--=", "---", "-a-b", "--a=b=c", "--unknown=" + "y" * 50, "--" + "u" * r.randrange(26, 36) + "=1", "--" + "u" * r.randrange(26, 40), "\xff", "-\xff", "-\xe9"]
    for s, l, i, f in t:
        if s: p += ["-" + s, "-" + s + "v", "-" + s * 3, s]
        if l is not None: p += [l, "--" + l, "--" + l + "=", "--" + l + "=v", "--" + l + "=a=b", l + "v", l + "=", "-" + l, "--" + l[:-1], "--" + l + "x", "--" + l + "x=1", l[:-1]]
    sh = [s for s, l, i, f in t if s] or ["a"]
    p += ["-" + "".join(r.choice(sh + ["z", "-", "="]) for _ in range(r.randrange(1, 5))) for _ in range(4)]
    return r.choice(p)
def pl(words, stops="-", a0="prog"): return "p %s %s" % (stops, " ".join(map(oh, [a0] + list(words))))
def build(ctx): return ctx.build("cmd", "cmd_drv.c", ["misc/cmdline.c"], ["-I" + vf.REPO])
def model(ctx, n):
    f = ctx.path("tables.json")
    with open(f, "w") as fo: json.dump([{"opts": [ent(x) for x in o], "words": [[ord(c) for c in x] for x in w]} for o, w in T], fo)
    ctx.model("MCCmdLine", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANT MaxW = %d\n" % n, "every short command line over nine option tables", env={"TABLES": f})
def runs(ctx, r, n, stops):
    cm = []; per = {}
    for k, a in lines(ctx, n): per.setdefault(k, []).append(pl(a, stops(), r.choice(["prog", "--", "-a", "--foo=1", ""])))
    for k, l in per.items():
        for i in range(0, len(l), 40): cm.append(table(T[k][0]) + ";" + ";".join(l[i:i + 40]))
    return cm
def rnd(r, n, stops):
    cm = []
    for _ in range(n):
        t = rtable(r); cm.append(table(t) + ";" + ";".join(pl([rword(r, t) for _ in range(r.choice([1, 1, 2, 3, 6, 12]))], stops()) for _ in range(25)))
    return cm
def odd(r, n, stops):
    """option characters, names and words of any bytes"""
    cm = []; by = lambda k: "".join(chr(r.choice([r.randrange(1, 256), r.randrange(1, 33), r.randrange(127, 256), 1, 127, 128, 254, 255])) for _ in range(k)); one = lambda: by(1).replace("-", "+")
    for _ in range(n):
        t = []
        for i in range(r.randrange(1, 8)):
            f = r.choice([0, 0, 0, OPT, REQ, OPT | REQ, COMP]); l = by(r.randrange(1, 5)).replace("=", ":")
            t.append((one() if r.random() < .8 else None, ("-" + l if r.random() < .6 else l) if f & COMP else (l.lstrip("-") or None) if r.random() < .5 else None, i + 1, f))
        t = [x if x[0] or x[1] else ("\x01",) + x[1:] for x in t]
        sh = [x[0] for x in t if x[0]] or ["\x02"]; ln = [x[1] for x in t if x[1]] or ["\x03"]
        w = lambda: r.choice(["-" + "".join(r.choice(sh + [one()]) for _ in range(r.randrange(1, 6))), "--" + r.choice(ln) + r.choice(["", "=", "=" + by(3), by(1)]), r.choice(ln) + by(r.randrange(0, 3)), by(r.randrange(1, 6)), "-" + by(2), "--" + by(3), "-", "--" if r.random() < .2 else "x"])
        cm.append(table(t) + ";" + ";".join(pl([w() for _ in range(r.choice([1, 2, 3, 6]))], stops()) for _ in range(25)))
    return cm
def wide(ctx, r, stops, kinds=range(3)):
    """very long words and names, very many options, very many words"""
    cm = []
    if 0 in kinds:
        for n in (127, 128, 255, 256, 257, 300, 1000, 4095, 4096, 5000) + ctx.pick((), (32767, 32768, 65535, 65536)):
            L = "n" * n; M = "n" * (n - 1) + "m"
            t = [("a", L, 1, 0), ("b", M, 2, REQ), ("c", L + "x", 3, OPT), (None, "-W" + L, 4, COMP), (None, L + "=", 5, COMP)]
            ws = ["--" + L, "--" + M, "--" + M + "=" + "v" * n, "--" + L + "x=" + L, "--" + L + "x", "--" + L + "y", "--" + L[:-1], "-W" + L + "1", "-W" + L, "-W" + L[:-1], L + "=" + L, L, "-" + "a" * n, "-" + "a" * (n - 1) + "b", "-b" + L, "-" + "ac" * (n // 2), "--" + "u" * n, "x" * n, "-" + "z" * 5 + "a" * n]
            if n == 5000: cm += [table(t) + ";" + pl([w], stops()) for w in ("--" + "u" * 65538 + "=1", "--" + "u" * 65564 + "=1", "--" + "u" * 65540)]
            cm += [table(t) + ";" + pl([w], stops()) + ";" + pl([w, r.choice(ws), "f"], stops()) for w in (ws if n < 5000 else r.sample(ws, 6))]
    if 1 in kinds:
        for n in (100, 127, 128, 255, 256, 257, 300) + ctx.pick((), (1000, 4000)):
            t = [(chr(33 + i % 12) if i % 3 == 0 else None, "opt%d" % i, i + 1, (0, OPT, REQ)[i % 3]) for i in range(n)]
            q = [0, 1, 2, n - 1, n - 2, n // 2, 126, 127, 128, 254, 255, 256]; ws = ["--opt%d%s" % (i, e) for i in q for e in ("", "=v")] + ["-" + chr(33 + i) for i in range(13)]
            cm.append(table(t) + ";" + ";".join(pl([r.choice(ws) for _ in range(5)], stops()) for _ in range(12)))
    if 2 in kinds:
        t = T[0][0] + [(None, "out", 9, OPT)]
        for n in (126, 127, 128, 129, 254, 255, 256, 257, 299, 300, 301, 1000, 4000) + ctx.pick((), (33000,)):
            for w in ("-a", "x", "-ab", "-c", "--out=1", "-z"):
                if n < 1000 or w in ("-a", "-c"): cm.append(table(t) + ";p %s %s %s*%d %s" % (stops(), oh("prog"), oh(w), n, " ".join(map(oh, ["--out", "-ca", "y", "-c", "--", "-a"]))))
    return cm
def two(ctx, b, r, stops, pid):
    """lines parsed from inside the callback of another line"""
    cm = rnd(r, ctx.pick(120, 2000), stops)
    ctx.conform(b, [vf.weave(r, cm[i], cm[i + 1]) for i in range(0, len(cm), 2)], "TraceCmdLine", {"Prop": '"%s"' % pid}, "a line parsed inside the callback of another")
@check("C28", "TLC checks the parsing specification over every short command line of nine option tables; the same lines and random lines over random tables are parsed by the code, and TLC validates the exact sequence of callbacks, their ids and arguments against the specification.",
       ["where several table entries match a word the first one is meant", "option names longer than 31 characters may be reported cut where they have to be taken out of name=argument", "the short name '-' and compiler-like options with no name are out of scope"])
def c28(ctx):
    b = build(ctx); r = ctx.rng
    model(ctx, ctx.pick(2, 3))
    ctx.conform(b, runs(ctx, r, ctx.pick(3, 4), lambda: "-"), "TraceCmdLine", {"Prop": '"C28"'}, "every line of up to %d words" % ctx.pick(3, 4))
    ctx.conform(b, rnd(r, ctx.pick(600, 10000), lambda: "-") + ["t;p -", "t;o 97 - 1 0;p -;p - 2d61"], "TraceCmdLine", {"Prop": '"C28"'}, "random tables and lines")
    ctx.conform(b, odd(r, ctx.pick(150, 3000), lambda: "-"), "TraceCmdLine", {"Prop": '"C28"'}, "options and words of any bytes")
    ctx.conform(b, wide(ctx, r, lambda: "-"), "TraceCmdLine", {"Prop": '"C28"'}, "very long words, many options, many words")
    two(ctx, b, r, lambda: "-", "C28")

@check("C29", "The same command lines are parsed repeatedly with the callback aborting at each of its calls with varying values; TLC validates that exactly the calls before the abort happen and that the value is returned unchanged.")
def c29(ctx):
    b = build(ctx); r = ctx.rng
    vs = [1, -1, 2, 2**31 - 1, -2**31, -2147483647, -2147483646, 7, 256, 65536]
    st = lambda: ",".join("%d=%d" % (k, r.choice(vs)) for k in range(1, r.choice([3, 5, 9, 14])))
    ctx.conform(b, runs(ctx, r, ctx.pick(2, 3), st), "TraceCmdLine", {"Prop": '"C29"'}, "abort at every call of every line of up to %d words" % ctx.pick(2, 3))
    ctx.conform(b, rnd(r, ctx.pick(400, 6000), st), "TraceCmdLine", {"Prop": '"C29"'}, "aborts in random tables and lines")
    ctx.conform(b, odd(r, ctx.pick(80, 1500), st), "TraceCmdLine", {"Prop": '"C29"'}, "aborts among options and words of any bytes")
    big = lambda: ",".join("%d=%d" % (k, r.choice(vs)) for k in r.sample([1, 2, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 1001, 4001], 4))
    ctx.conform(b, wide(ctx, r, big, (1, 2)), "TraceCmdLine", {"Prop": '"C29"'}, "aborts in long lines")
    two(ctx, b, r, st, "C29")
