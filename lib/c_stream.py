from checks import check
import vf, os
def build(ctx, **k):
    # stand-ins for <windows.h> and <objidl.h> come with the driver
    return ctx.build("stream", "stream_drv.c", ["win32/memstream.c"], ["-I" + vf.REPO, "-I" + os.path.join(vf.VERIF, "drivers", "winshim"), "-pthread"], **k)
@check("C30", "TLC explores histories of calls on a stream and its clone (and atomic reference counting by several threads); every transition is replayed into the code built on Linux against stand-ins for the Windows headers, with random histories over small streams and streams of up to 4 GB, failing and partial copy destinations and memory exhaustion; TLC validates every answer.",
       ["Windows itself is replaced by stand-ins for its headers and resource functions", "what QueryInterface answers for IDispatch is not judged", "after a failed copy the position is undefined until it is set again"])
def c30(ctx):
    b = build(ctx); r = ctx.rng
    rc = "INIT Init\nNEXT Next\nINVARIANT Inv\nVIEW View\nCONSTANTS N = %d MaxHold = %d MaxOps = %d Ops = {\"a\", \"q\", \"r\"}\n"
    ctx.model("RefCount", rc % (ctx.pick(3, 4), 3, ctx.pick(8, 10)), "destroyed exactly once, by the last release, under every schedule")
    for n, k in ctx.pick([(2, 4), (3, 3)], [(2, 5), (3, 4), (4, 4)]):
        il = ctx.paths("RefCount", (rc % (n, 3, k)).replace("VIEW View\n", "ACTION_CONSTRAINT PrintPath\n"), "every schedule of %d operations by %d threads" % (k, n))
        if len(il) > ctx.pick(4000, 40000): il = r.sample(il, ctx.pick(4000, 40000))
        ctx.conform(b, [";".join(il[i:i + 20]) for i in range(0, len(il), 20)], "TraceStream", {}, "every schedule of %d operations by %d threads" % (k, n))
    ps = ctx.paths("MCMemStream", "INIT Init\nNEXT Next\nINVARIANT Inv\nVIEW View\nACTION_CONSTRAINT PrintPath\nCONSTANTS MaxOps = %d Sizes = {0, 1, 5}\n" % ctx.pick(2, 3), "every history of calls")
    if len(ps) > ctx.pick(20000, 300000): ps = r.sample(ps, ctx.pick(20000, 300000))
    ctx.conform(b, ps, "TraceStream", {}, "every history of calls")
    cm = []
    M = 2**32
    def hist(n, size):
        c = ["new 0 %d" % size]
        for _ in range(n):
            h = r.randrange(3); x = r.random()
            near = r.choice([0, 1, 2, size - 1, size, size + 1, size // 2, r.randrange(size + 1), M - 1, M, M + 1, 2**31, 2**31 - 1, 2**63 - 1, -1, -size, -size - 1, -M, -2**63, 2**63 - 1 - size, 2**32 - size, -2**31, -2**31 - 1])
            near = max(-2**63, min(2**63 - 1, near))
            if x < .3: c.append("rd %d %d %d" % (h, r.choice([0, 1, 2, 3, 10, 50, r.randrange(300), size if size < 5000 else 100, size + 1 if size < 5000 else 70, M - 1 if size < 5000 else 64, 2**31 if size < 5000 else 1]), r.random() < .85))
            elif x < .55: c.append("sk %d %d %d %d" % (h, near, r.choice([0, 0, 1, 2, 2, 1, 3, 4294967295 % 2147483647]), r.random() < .8))
            elif x < .72:
                lim = r.choice([0, 1, 2, 5, 60000, 60000]); big = size > 60000
                n = r.choice([0, 1, 2, 5, 40] + ([] if big else [size, size + 1, M - 1, M, M + 1, 2**63, 2**64 - 1, 2**64 - r.randrange(1, size + 3), 2**64 - size if size else 2**64 - 1]))
                m = r.choice("pppppfFm"); c.append("cp %d %d %s %d %d" % (h, n, m, lim, r.randrange(4)))
                if m != "p" and r.random() < .8: c.append("sk %d %d %d 1" % (h, r.randrange(size + 1), r.choice([0, 0, 2])))
            elif x < .8: c.append(r.choice(["wr %d 1 4", "wr %d 0 0", "wr %d 1 0", "ss %d 0", "ss %d 99999999999", "st %d 0", "st %d 1", "co %d", "rv %d", "lk %d"]) % h)
            elif x < .86: c.append("qi %d %d" % (h, r.choice([0, 1, 2, 3, 9, 10])))
            elif x < .9: c.append("ar %d" % h)
            elif x < .95: c.append("rl %d" % h)
            elif x < .98: c.append(("k 1;" if r.random() < .3 else "") + "cl %d %d" % (h, r.randrange(3)))
            else: c.append(r.choice(["new %d %d" % (h, r.randrange(20)), "k 1;new %d 5;k 0" % h, "res %d %d %d" % (h, r.randrange(1, 20), r.randrange(5))]))
        return ";".join(c)
    for i in range(ctx.pick(900, 15000)): cm.append(hist(r.choice([5, 20, 60]), r.choice([0, 1, 2, 5, 10, 17, 100, 300])))
    for i in range(ctx.pick(200, 3000)): cm.append(hist(r.choice([5, 20, 60]), r.choice([2**31 - 1, 2**31, 2**31 + 100, M - 1, M - 2, M - 300, 3 * 2**30])))
    cm += ["res 0 %d %d;rd 0 9 1;rl 0" % (n, f) for n in (1, 5, 1000) for f in range(5)] + ["k 1;new 0 %d;new 0 3" % n for n in (0, 5)] + ["k 1;res 0 5 0"]
    cm += ["new 0 5;sk 0 %d 0 1;cp 0 %d p 60000 3;rd 0 9 1" % (p, n) for p in (0, 1, 4, 5, 6, M - 1) for n in (0, 1, 4, 5, 6, M - 1, M, M + 2, 2**64 - 1, 2**64 - 4, 2**64 - 5, 2**64 - 6, 2**64 - M, 2**63)]
    ctx.conform(b, cm, "TraceStream", {}, "random histories, huge streams, resources")
    fast = build(ctx, asan=False, opt="-O1")
    ctx.conform(fast, ["new 0 5;th 0 4 %d;rl 0;rl 0" % n for n in ctx.pick([200000], [200000, 2000000, 2000000])] + ["lo %d" % n for n in (2, 4, 8, 8, 3) for _ in range(ctx.pick(20, 300))], "TraceStream", {}, "references taken and released by several threads")
