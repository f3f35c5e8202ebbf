from checks import check
import vf, re
def build(ctx, **k): return ctx.build("mem", "mem_drv.c", ["mem/memchunk.c"], ["-I" + vf.REPO, "--param=asan-instrument-allocas=1"], **k)
def topath(W):
    def f(m):
        n = int(m.group(2))
        if n >= W - 8: s = "m%d" % (W - 1 - n)
        elif n >= W // 4 - 1: q = (n + 2) // (W // 4); d = n - q * (W // 4); s = "q%d%+d" % (q, d)
        else: s = str(n)
        return m.group(1) + s
    return lambda p: re.sub(r"((?:^|;)(?:a|ci) )(\d+)", f, p)
@check("C27", "TLC explores the allocator's algorithm in wrap-around arithmetic over every sequence of request sizes (including ones near every overflow boundary) and malloc failures and checks disjointness and containment; every transition is replayed into the code with real sizes, and random long histories are added; TLC validates each recorded piece (owning block, offset, length, contents) against the specification.",
       ["requests above 64 MiB are made to fail like an exhausted heap", "zero-byte pieces need only be non-NULL"])
def c27(ctx):
    b = build(ctx); r = ctx.rng; W = 128
    sizes = "{0, 1, 2, 3, 5, 8, 9, 31, 32, 33, 64, 96, 97, 119, 120, 124, 126, 127}"
    cfg = "INIT Init\nNEXT Next\nINVARIANT Inv\nVIEW View\nCONSTANTS W = 128 H = 3 Sizes = %s MaxOps = %d HeapMax = 60 BSizes = %s\n"
    ctx.model("MemChunk", cfg % (sizes, ctx.pick(4, 5), "{1, 3, 4, 8, 9, 16, 126}"), "pieces stay disjoint and inside their block, in wrap-around arithmetic")
    ps = ctx.paths("MemChunk", cfg % (sizes, ctx.pick(3, 4), "{4, 8, 9}") + "ACTION_CONSTRAINT PrintPath\n", "every sequence of requests and failures")
    f = topath(W); ps = [f(p) for p in ps]
    if len(ps) > ctx.pick(25000, 400000): ps = r.sample(ps, ctx.pick(25000, 400000))
    ctx.conform(b, ps, "TraceMem", {}, "every sequence of requests and failures")
    cm = []
    for i in range(ctx.pick(250, 4000)):
        bs = r.choice([0, 0, 1, 2, 7, 8, 16, 40, 64, 100, 1024, 1000, 4096]); B = bs or 1024; c = ["%s %d" % (r.choice(["ci", "cs"]), bs)]
        for _ in range(r.choice([5, 20, 60])):
            x = r.random()
            if x < .08: c.append("%s %d" % (r.choice("kK"), r.randrange(1, 3)))
            if x > .97: c += ["k 0", "cf"] + ([ "%s %d" % (r.choice(["ci", "cs"]), bs)] if r.random() < .5 else [])
            n = r.choice([r.randrange(0, 20), r.randrange(0, B + 3), B // 4 + r.randrange(-1, 3), B + r.randrange(-2, 3), B // 2, 3 * B, 12])
            if x > .93: c.append("a " + r.choice(["m0", "m1", "m7", "m8", "m9", "m15", "m16", "m24", "m%d" % B, "m%d" % (B - 1), "m%d" % r.randrange(2 * B + 20), "q1+0", "q2+0", "q2-1", "q3+0", "q3+1", "q1+%d" % r.randrange(B), "q2+%d" % r.randrange(B), "q3+%d" % r.randrange(B), "100000000"]))
            else: c.append("a %d" % max(0, n))
        cm.append(";".join(c))
    cm += ["ci %s;a %s;a %s;a 1" % (bs, x, y) for bs in ("m0", "m1", "m7", "m8", "m20", "q2+0", "q1+0", "100000000") for x in ("0", "1", "16", "m0", "m8", "q2+0", "100000000") for y in ("8", "m3")]
    cm += ["%s %d;%s" % (k, bs, ";".join("ar %d %d" % (n, c) for n, c in ((1, 300), (12, 200), (bs or 1024, 3), (3, 100), ((bs or 1024) // 4, 20), (2, 100)))) for k in ("ci", "cs") for bs in (0, 1, 8, 13, 64, 1024)]
    ctx.conform(b, cm, "TraceMem", {}, "long histories and huge sizes")
    ctx.conform(b, [vf.weave(r, r.choice(cm), r.choice(cm)) for _ in range(ctx.pick(80, 1000))], "TraceMem", {}, "two chunks in turn")

@check("C26", "TLC checks the stack-or-heap decision over all sizes and thresholds in wrap-around arithmetic; the macros, used with many forms of argument expressions, are run over sizes and thresholds around every boundary, with live blocks, releases and heap failures, and TLC validates place, extent, contents and release of each block.",
       ["size expressions without side effects", "a size within one machine word below the threshold may go either way", "requests above 64 MiB are made to fail like an exhausted heap"])
def c26(ctx):
    b = build(ctx); r = ctx.rng
    ctx.model("Malloca", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANTS W = %d H = 4\n" % ctx.pick(64, 256), "stack-or-heap decision in wrap-around arithmetic")
    W = 8; cm = []
    thrs = [0, 1, 4, 7, 8, 9, 15, 16, 17, 24, 64, 100, 1000, 1024, 4096, 65536]
    for t in thrs:
        ns = sorted({max(0, t + d) for d in list(range(-10, 11)) + [-16, 16, 64]} | {0, 1, 2, 7, 8, 16, 3000})
        for form in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 17):
            w = []
            for i, n in enumerate(ns if form == 1 or ctx.thorough else r.sample(ns, 10)):
                if form == 8 and n > 65535: n = 65535
                w.append("s%d:%d:%d" % (form, n, t))
            k = len(w); order = list(range(k)); r.shuffle(order)
            w += ["f%d:%d" % (r.randrange(15), i) for i in order]
            cm.append("m " + " ".join(w))
    for form in (0, 11, 13, 16):
        ns = [0, 1, 100] + list(range(1000, 1050)) + [4096, 100000]
        for n0 in range(0, len(ns), 12): w = ["s%d:%d:0" % (form, n) for n in ns[n0:n0 + 12]]; cm.append("m " + " ".join(w + ["f%d:%d" % (i % 8, i) for i in range(len(w))]))
    huge = ["m%d" % i for i in list(range(0, 40)) + [1016, 1023, 1024, 1025, 1032]] + ["q1+0", "q2+0", "q2-1", "q3+0"]
    for t in [0, 1, 7, 8, 9, 16, 1024]:
        for form in (1, 2, 3, 4, 9, 12, 17): cm.append("m " + " ".join("s%d:%s:%d" % (form, h, t) for h in r.sample(huge, 12)) + " f0:0 s1:5:1000 f1:12")
        for form in (6,): cm.append("m " + " ".join("s%d:%s:%d" % (form, "m%d" % i, t) for i in range(12)))
    for form in (0, 11, 13, 16): cm.append("m " + " ".join("s%d:%s:0" % (form, h) for h in huge if h[0] == "m" and int(h[1:]) < 1000 or form != 16))
    cm += ["m " + " ".join("s1:%d:%s" % (n, t) for n in (0, 1, 8, 100, 2000)) + " f0:0 f1:1 f2:2 f3:3 f4:4" for t in ("m0", "m7", "m8", "m9", "q2+0")]
    for _ in range(ctx.pick(400, 8000)):        # random histories
        w = []; live = []; n = 0
        for _ in range(r.randrange(5, 40)):
            x = r.random()
            if x < .1: w.append(r.choice(["k1", "k2", "K1", "k0"]))
            elif x < .4 and live: i = live.pop(r.randrange(len(live))); w.append("f%d:%d" % (r.randrange(15), i))
            else:
                t = r.choice(thrs); w.append("s%d:%s:%d" % (r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 17]), r.choice([r.randrange(40), max(0, t + r.randrange(-12, 13)), max(0, 1024 + r.randrange(-12, 13)), r.randrange(5000)]), t)); live.append(n); n += 1
        cm.append("m " + " ".join(w))
    ctx.conform(b, cm, "TraceMem", {}, "macros over sizes, thresholds, expressions and failures")
    cc = [c for c in cm if "m0" not in c]
    ctx.conform(ctx.build("memO2", "mem_drv.c", ["mem/memchunk.c"], ["-I" + vf.REPO], asan=False, opt="-O2"), r.sample(cm, min(len(cm), 400)), "TraceMem", {}, "optimised build")
    bx = ctx.build_cxx("mem_cxx", "mem_drv.c", ["mem/memchunk.c"], ["-I" + vf.REPO, "--param=asan-instrument-allocas=1"])
    if bx: ctx.conform(bx, r.sample(cm, min(len(cm), 200)), "TraceMem", {}, "used from C++")
