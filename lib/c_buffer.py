from checks import check
import vf
def cxx(ctx, C, hists):
    b = ctx.build_cxx("buffer_cxx", "buffer_drv.c", ["data/buffer.c"], ["-I" + vf.REPO])
    if b: ctx.conform(b, hists, "TraceBuffer", C, "used from C++")
def build(ctx): return ctx.build("buffer", "buffer_drv.c", ["data/buffer.c"], ["-I" + vf.REPO])
def alg(ctx, show=True):
    ns, rs, ls, mx = ctx.pick(("{0,1,15,16,17,47}", "{1,5,16,90}", "{0,9,30,100}", 50), ("{0,1,3,15,16,17,100,224,260}", "{1,5,16,90,400}", "{0,9,16,33,300,513}", 300))
    cfg = "INIT Init\nNEXT Next\nCONSTANTS NS = %s RS = %s LS = %s MaxSize = %d\nVIEW view\nINVARIANTS Fits\nPROPERTIES AfterReserve NoGrow\n" % (ns, rs, ls, mx)
    if not show: return ctx.model("BufAlg", cfg, "capacity algorithm")
    return ctx.paths("BufAlg", cfg + "ACTION_CONSTRAINT PrintPath\n", "capacity algorithm, every (size, capacity) and operation, with and without allocation failure")
SZ = [0, 0, 1, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60, 64, 100, 128, 129, 200, 256, 257, 300, 480, 481, 500, 992, 993]
def rand_hist(r, n, oom=0.0, mx=1200, huge=0.05, big=1.0):
    out = []; grow = True
    for i in range(n):
        if r.random() < 0.05: grow = not grow
        b = 1 if r.random() < 0.8 else 2
        z = r.choice(SZ[:int(len(SZ) * big)]); off = r.randrange(0, 3000) if r.random() < 0.8 else 0
        pre = None
        if oom and r.random() < oom: pre = r.choice(["F 1", "FF 1", "F 2"]); out.append(pre)
        x = r.random()
        if x < (0.45 if grow else 0.15): out.append("%s %d %d %d %d" % (r.choice(["ins", "raw", "app", "apr"]), b, off, z, r.randrange(251)))
        elif x < 0.65: out.append("rem %d %d %d" % (b, off, r.choice(SZ) if not grow else r.choice(SZ[:10])))
        elif x < 0.75: out.append("rsv %d 0 %d" % (b, z))
        elif x < 0.80: out.append("rea %d 0 %d" % (b, z if r.random() < 0.7 else r.randrange(700)))
        elif x < 0.84: out.append("shr %d" % b)
        elif x < 0.86: out.append("clr %d" % b)
        elif x < 0.90: out.append("swp")
        elif x < 0.92: out.append("acq %d 0 %d" % (b, r.randrange(2)))
        elif x < 0.92 + huge: out.append("%s %d %d %d" % (r.choice(["hrem", "hins", "hrsv", "hrea"]), b, off, r.randrange(13)) + (" 1" if r.random() < 0.5 else ""))
        if pre: out.append("F 0")
        if r.random() < 0.6: out.append("get %d" % b)
    return ";".join(out + ["get 1", "get 2"])
def huge_set():
    out = []
    for pre in ("", "app 1 0 1 3;", "app 1 0 16 3;", "app 1 0 40 3;rem 1 0 3;", "rsv 1 0 20;app 1 0 3 9;"):
        for op in ("hins", "hrsv", "hrea", "hrem"):
            for i in range(13):
                for off in (0, 1, 2, 5) if op in ("hrem", "hins") else (0,):
                    out.append(pre + "%s 1 %d %d;get 1;app 1 0 5 7;get 1;clr 1;get 1" % (op, off, i))
                if op == "hins": out.append(pre + "hins 1 0 %d 1;get 1;app 1 0 5 7;get 1" % i)
    return out
EDGES = (0, 127, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536)
def large(ctx, kind, sizes, t=0):
    """Histories on contents of many KB, observed through windows at the edges of powers of two and around every edit."""
    r = ctx.rng; out = []; w = TW[t]
    for n in sizes:
        pre, fill = {"B": ("", "app 1 0 %d %d"), "S": ("S.", "S.fill 1 %d %d"), "A": ("A.", "A.appn 1 0 %d %d")}[kind]
        c = (["A.t %d" % t] if kind == "A" else []) + [fill % (n, r.randrange(200))]; sz = n
        def win(o, k=6): return "%swin 1 %d %d" % (pre, max(0, o), k)
        for _ in range(ctx.pick(6, 12)):
            off = r.choice([e for e in EDGES if e <= sz] + [sz, sz - 1, sz // 2, r.randrange(sz + 1)]) + r.choice([0, 0, -1, 1]); off = max(0, min(sz, off))
            k = r.choice([0, 1, 2, 3, 17, 100, 300])
            if kind == "S":
                u = r.randrange(9); c += ["S.push 1 %d %s" % (u, val(r, 8)), "S.peek 1 %d" % u] + r.choice([["S.pop 1 %d" % u], [], ["S.peek 1 %d" % r.randrange(9)], ["S.popn 1 %d" % r.choice([1, 255, 300, n // 3])], ["S.peekn 1 300"]]) + [win(max(0, sz - 300), 600)]
                continue
            x = r.random()
            if kind == "A":
                if x < .4: c.append("A.ins 1 %d %s" % (off, val(r, 8))); sz += 1
                elif x < .55: c.append("A.insn 1 %d %d %d" % (off, k, r.randrange(200))); sz += k
                elif x < .7 and sz: off = min(off, sz - 1); c.append("A.set 1 %d %s" % (off, val(r, 8)))
                elif x < .8 and sz: off = min(off, sz - 1); c.append("A.rem 1 %d" % off); sz -= 1
                elif x < .9: c.append("A.remn 1 %d %d" % (off, k)); sz -= min(k, sz - off)
                elif sz: c.append("A.get 1 %d" % min(off, sz - 1))
            else:
                if x < .5: c.append("%s 1 %d %d %d" % (r.choice(["ins", "raw"]), off, k, r.randrange(200))); sz += k
                elif x < .8: k = r.choice([k, k, sz // 2, sz * 4 // 5]); c.append("rem 1 %d %d" % (off, k)); sz -= min(k, sz - off)
                elif x < .85: c.append("rsv 1 0 %d" % r.choice([1, 500, sz]))
                elif x < .9: c.append("shr 1")
                else: k = r.randrange(sz + 1); c.append("rea 1 0 %d" % (sz - k)); sz -= k
            c += [win(off - 3), win(sz - 5)] + [win(e - 2, 4) for e in EDGES if e - 2 < sz]
        out.append(";".join(c + [win(0, 200), pre + ("get 1" if kind == "B" else "all 1")]))
    return out
def removals(ctx):
    """long removals and insertions at both ends and in the middle of large contents"""
    r = ctx.rng; out = []
    for n in (66001, 70003, 131073, 140000) if not ctx.thorough else (66001, 70003, 131073, 140000, 262147, 300001):
        for off in (0, 1, 2, 4096, n // 2, 65536):
            for k in sorted({1, 2, 255, 256, 32767, 32768, 65535, 65536, 65537, 65538, n - off - 1, n - off - 2, n - off}):
                if 0 < k <= n - off and (ctx.thorough or r.random() < .6):
                    m = n - k; ws = sorted({max(0, x) for x in (0, off - 4, off, m - 8, m // 3, r.randrange(m + 1))})
                    back = "%s 1 %d %d 77" % (r.choice(["ins", "raw"]), r.choice([0, off, m]), r.choice([k, k + 1, 3, 65537]))
                    out.append("app 1 0 %d %d;rem 1 %d %d;%s;%s;%s" % (n, r.randrange(200), off, k, ";".join("win 1 %d 8" % w for w in ws), back, ";".join("win 1 %d 8" % w for w in ws + [m + 3])))
    return out
@check("C01", "TLC checks the capacity algorithm over every (size, capacity) pair of a small instance; every such transition, seeded histories over two buffers and lengths up to SIZE_MAX run on the code and TLC validates contents against byte-sequence edits.")
def c01(ctx):
    b = build(ctx); ps = alg(ctx); C = {"Prop": '"C01"'}; r = ctx.rng
    ctx.conform(b, [p + ";get 1" for p in ps], "TraceBuffer", C, "every transition of the capacity model")
    ctx.conform(b, huge_set(), "TraceBuffer", C, "lengths near SIZE_MAX")
    ctx.conform(b, [rand_hist(r, r.choice([20, 60]), big=r.choice([0.5, 0.8, 1])) for _ in range(ctx.pick(400, 6000))], "TraceBuffer", C, "random histories")
    ctx.conform(b, large(ctx, "B", ctx.pick([260, 500, 4000, 4097, 32000, 33000, 66000] * 3, [260, 500, 1000, 4000, 4097, 8200, 16400, 32000, 33000, 65500, 66000, 130000, 140000] * 3)), "TraceBuffer", C, "large contents")
    ctx.conform(b, removals(ctx), "TraceBuffer", C, "long removals and insertions")
    cxx(ctx, C, [rand_hist(r, 60) for _ in range(ctx.pick(60, 600))])
@check("C02", "As C01, judging allocator calls: no allocation within a reservation, failure only on injected or genuine shortage and without effect, block ownership; lengths up to SIZE_MAX and failures at every step of every capacity transition.")
def c02(ctx):
    b = build(ctx); ps = alg(ctx); C = {"Prop": '"C02"'}; r = ctx.rng
    tails = ["get 1;app 1 0 1 3;get 1;clr 1", "rsv 1 0 40;app 1 0 13 5;ins 1 2 20 7;app 1 0 7 9;get 1", "rem 1 0 1000;swp;acq 2 0 1"]
    ctx.conform(b, [p + ";" + tails[i % 3] for i, p in enumerate(ps)], "TraceBuffer", C, "every transition of the capacity model")
    ctx.conform(b, huge_set(), "TraceBuffer", C, "lengths near SIZE_MAX")
    res = []
    for n0 in (0, 1, 15, 16, 17, 31, 33, 100, 255, 256, 257, 480, 481, 500):
        for n in (1, 2, 15, 16, 17, 32, 64, 200, 224, 256, 300, 700, 1000):
            parts = r.choice([[n], [1] * min(n, 12) + [max(0, n - 12)], [n // 2, n - n // 2], [n // 3, n // 3, n - 2 * (n // 3)]])
            res.append(("app 1 0 %d 1;" % n0 if n0 else "") + "rsv 1 0 %d;FF 1;" % n + ";".join("%s 1 %d %d 4" % (r.choice(["app", "ins", "raw", "apr"]), r.randrange(50), k) for k in parts if k) + ";F 0;get 1")
    ctx.conform(b, res, "TraceBuffer", C, "reservations used with the allocator failing")
    big = [2**k + d for k in ctx.pick((12, 15, 16, 17), (10, 11, 12, 13, 14, 15, 16, 17, 18)) for d in (-33, -32, -1, 0, 1)]
    ctx.conform(b, ["%srsv 1 0 %d;FF 1;%s 1 0 %d 4;F 0;win 1 %d 9;%s" % (("app 1 0 %d 2;" % (n // 5), n - n // 5) + ("app", n - n // 5, n - 4, "rem 1 %d %d;shr 1;win 1 0 9;" % (n // 9, n - n // 6)) if n % 3 else ("", n, "raw", n, n - 4, "clr 1")) for n in big], "TraceBuffer", C, "large reservations used with the allocator failing")
    ctx.conform(b, [rand_hist(r, r.choice([20, 60]), oom=0.3) for _ in range(ctx.pick(350, 6000))], "TraceBuffer", C, "random histories with allocation failures")

TW = [1, 1, 2, 2, 4, 4, 8, 8, 8]
EDGE = ["00", "01", "7f", "80", "ff", "81", "fe"]
def val(r, w): return "".join(r.choice(EDGE) if r.random() < 0.6 else "%02x" % r.randrange(256) for _ in range(w))
FULL = list(range(0, 66)) + [100, 120, 126, 127, 128, 220, 222, 223, 224, 225, 226, 250, 255, 256, 257, 478, 479, 480, 481, 482, 510, 511, 512]
def stack_hist(r, n, oom=0.0):
    out = []; st = {1: [], 2: []}
    for _ in range(n):
        b = 1 if r.random() < 0.85 else 2; x = r.random(); t = r.randrange(9)
        if oom and r.random() < oom: out.append("FF 1")
        if x < 0.45: out.append("S.push %d %d %s" % (b, t, val(r, 8))); st[b].append(t)
        elif x < 0.50: out.append("S.%s %d %d %d" % (r.choice(["pushn", "pushr"]), b, r.choice([0, 1, 3, 16, 17, 40, 250, 300]), r.randrange(200)))
        elif x < 0.65:
            t = st[b].pop() if st[b] and r.random() < 0.7 else t
            out.append("S.pop %d %d" % (b, t))
        elif x < 0.75: out.append("S.peek %d %d" % (b, st[b][-1] if st[b] and r.random() < 0.7 else t))
        elif x < 0.82: out.append("S.%s %d %d" % (r.choice(["peekn", "popn", "popr", "peekr"]), b, r.choice([1, 2, 3, 5, 8, 16, 40, 300])))
        elif x < 0.85: out.append("S.rsv %d %d" % (b, r.choice([0, 1, 16, 100, 300])))
        elif x < 0.87: out.append("S.swp"); st[1], st[2] = st[2], st[1]
        elif x < 0.88: out.append("S.clr %d" % b); st[b] = []
        elif x < 0.89: out.append("S.acq %d %d" % (b, r.randrange(2))); st[b] = []
        else: out.append("S.all %d" % b)
        if oom: out.append("F 0")
    return ";".join(out + ["S.all 1", "S.all 2"])
@check("C03", "TLC validates typed/raw push, peek and pop traces of the code (all type pairs with edge values exhaustively, seeded mixed histories) against the byte-exact LIFO specification.")
def c03(ctx):
    b = build(ctx); alg(ctx, False); C = {"Prop": '"C03"'}; r = ctx.rng
    ex = []
    for t in range(9):
        for u in range(9):
            for v in ("00", "01", "7f", "80", "ff"):
                a, d = v * 8, val(r, 8)
                ex.append("S.push 1 %d %s;S.peek 1 %d;S.push 1 %d %s;S.peek 1 %d;S.all 1;S.pop 1 %d;S.peek 1 %d;S.pop 1 %d;S.all 1" % (t, a, t, u, d, u, u, t, t))
    ctx.conform(b, ex, "TraceBuffer", C, "all type pairs, edge values")
    ctx.conform(b, [stack_hist(r, r.choice([20, 80])) for _ in range(ctx.pick(400, 6000))], "TraceBuffer", C, "random histories")
    ctx.conform(b, large(ctx, "S", ctx.pick([250, 500, 4080, 4090, 5000, 32760, 65530, 66000] * 3, [120, 250, 500, 1020, 2040, 4080, 4090, 5000, 16380, 32760, 65530, 66000, 130000] * 3)), "TraceBuffer", C, "deep stacks")
    ctx.conform(b, [stack_hist(r, 60, oom=0.1) for _ in range(ctx.pick(60, 600))], "TraceBuffer", C, "random histories with allocation failures")
    ctx.conform(b, [("S.pushn 1 %d 3;" % k if k else "") + "FF 1;S.push 1 %d %s;F 0;S.all 1;S.push 1 %d %s;S.peek 1 %d;S.all 1" % (t, val(r, 8), t, val(r, 8), t) for t in range(9) for k in FULL], "TraceBuffer", C, "a push of every type failing at every fill level")
    cxx(ctx, C, ex[::5] + [stack_hist(r, 60) for _ in range(ctx.pick(60, 600))])

def arr_hist(r, t, n):
    w = TW[t]; out = ["A.t %d" % t]
    for _ in range(n):
        b = 1 if r.random() < 0.85 else 2; x = r.random(); i = r.randrange(1000)
        if x < 0.12: out.append("A.app %d %s" % (b, val(r, 8)))
        elif x < 0.26: out.append("A.ins %d %d %s" % (b, i, val(r, 8)))
        elif x < 0.32: out.append("A.%s %d %d %s" % (r.choice(["insraw", "appraw"]), b, i, val(r, 8)))
        elif x < 0.42: out.append("A.%s %d %d %d %d" % (r.choice(["insn", "appn"]), b, i, r.choice([0, 1, 2, 3, 5, 16, 40]), r.randrange(200)))
        elif x < 0.56: out.append("A.set %d %d %s" % (b, i, val(r, 8)))
        elif x < 0.68: out.append("A.get %d %d" % (b, i))
        elif x < 0.78: out.append("A.rem %d %d" % (b, i))
        elif x < 0.85: out.append("A.remn %d %d %d" % (b, i, r.choice([0, 1, 2, 3, 7, 20, 60])))
        elif x < 0.86: out.append("A.acq %d %d" % (b, r.randrange(2)))
        else: out.append("A.all %d" % b)
    return ";".join(out + ["A.all 1", "A.all 2"])
@check("C04", "TLC validates traces of every array operation for all nine element types (exhaustive short scripts plus seeded histories) against element-sequence edits.")
def c04(ctx):
    b = build(ctx); alg(ctx, False); C = {"Prop": '"C04"'}; r = ctx.rng
    ex = []
    for t in range(9):
        for v in EDGE:
            d = v * 8
            ex.append("A.t %d;A.app 1 %s;A.app 1 %s;A.app 1 %s;A.get 1 0;A.set 1 1 %s;A.all 1;A.ins 1 1 %s;A.all 1;A.rem 1 2;A.all 1;A.remn 1 1 1;A.all 1;A.insn 1 1 3 9;A.all 1;A.appn 1 0 2 5;A.all 1;A.acq 1 1" % (t, val(r, 8), val(r, 8), val(r, 8), d, d))
            ex.append("A.t %d;A.insraw 1 0 %s;A.appraw 1 0 %s;A.get 1 1;A.insraw 1 1 %s;A.all 1;A.remn 1 1 9;A.all 1;A.remn 1 0 5;A.app 2 %s;A.get 2 0;A.acq 2 0;A.all 2" % (t, d, val(r, 8), val(r, 8), d))
        for k in range(6):
            for op in ("A.hinsn", "A.happn", "A.hremn"):
                if k == 5 and op == "A.hremn": continue
                for pre in ("", "A.app 1 0102030405060708;A.app 1 1112131415161718;A.app 1 2122232425262728;"):
                    ex += ["A.t %d;%s%s 1 %d %d;A.all 1;A.app 1 00112233aabbccdd;A.all 1" % (t, pre, op, i, k) for i in (0, 1)]
    ctx.conform(b, ex, "TraceBuffer", C, "every operation of every element type")
    ctx.conform(b, [arr_hist(r, t, r.choice([20, 60])) for _ in range(ctx.pick(45, 700)) for t in range(9)], "TraceBuffer", C, "random histories")
    ctx.conform(b, ["A.t %d;%sFF 1;A.%s 1 %s%s;F 0;A.all 1;A.app 1 %s;A.all 1" % (t, "A.appn 1 0 %d 3;" % k if k else "", op, "" if op == "app" else "%d " % r.randrange(k + 1), val(r, 8), val(r, 8)) for t in range(9) for k in sorted({x // TW[t] for x in FULL}) for op in ("app", "ins")], "TraceBuffer", C, "an insertion of every type failing at every fill level")
    for t in range(9):
        n = ctx.pick([260, 4100, 33000, 66000] * 2, [130, 260, 520, 4100, 16390, 33000, 65530, 66000] * 4); n = [x for x in n if x * TW[t] <= 270000]
        ctx.conform(b, large(ctx, "A", n, t), "TraceBuffer", C, "large arrays (type %d)" % t)
    cxx(ctx, C, ex[::3] + [arr_hist(r, t, 40) for _ in range(ctx.pick(8, 80)) for t in range(9)])
