from checks import check
SRC = ["data/htable.c"]

def crowds(ctx):
    """tables of a few keys with very many nodes each, beside many keys with one node, filled and emptied"""
    r = ctx.rng; out = []
    for per, one in ((1, 130), (2, 130), (70, 0), (200, 0), (30, 60), (5, 100), (430, 0)) + ctx.pick((), ((900, 0), (100, 300))):
        for h in r.sample(range(10), ctx.pick(3, 10)):
            ks = [1] * per + ([2] * per if per < 100 else []) + [3] * (per // 2); os = list(range(4, 4 + one)); q = ks + os; r.shuffle(q); c = ["h %d" % h]; seen = set()
            for i, k in enumerate(q):
                c.append(("u %d" if k in seen or r.random() < .3 else "i %d") % k); seen.add(k)
                if r.random() < .25: c.append("i %d" % r.choice(sorted(seen)))
                if i % 40 == 39: c.append("a %d" % (4 + one))
            if one: c += ["u %d" % k for k in r.sample(os, one // 2)] + ["i %d" % k for k in r.sample(os, 5)]; q += r.sample(os, 9)
            r.shuffle(q); q = q[:len(q) * r.choice([2, 3, 3]) // 3]
            for i, k in enumerate(q):
                c.append("r %d" % k)
                if i % 40 == 39: c.append("a %d" % (4 + one))
            out.append(";".join(c + ["a %d" % (4 + one), "f %d" % r.randrange(2), "u 1;u 1;l 1;r 1;l 1;i 1"]))
    return out

import vf
def build(ctx, name="htable", **k): return ctx.build(name, "htable_drv.c", SRC, ["-I" + vf.REPO] + (["-DNOGNU"] if name == "htplain" else []), **k)

def rand_hist(rng, n, keys, oom=0.0, unsafe=0.1, dups=0.0):
    """A random history that drifts between growing and shrinking phases."""
    out = ["h %d" % rng.randrange(10)]; present = set(); grow = True
    for _ in range(n):
        if rng.random() < 0.02: grow = not grow
        k = rng.randrange(1, keys + 1)
        x = rng.random()
        if oom and rng.random() < oom: out.append("%s %d" % (rng.choice(["F", "FF"]), rng.randrange(1, 4)))
        if x < (0.6 if grow else 0.25):
            if rng.random() < (unsafe if k not in present else dups): out.append("u %d" % k)
            else: out.append("i %d" % k)
            if not oom: present.add(k)
            elif rng.random() < 0.9: present.add(k)
            present.add(k)
        elif x < 0.9: out.append("r %d" % k); present.discard(k)
        elif x < 0.99: out.append("l %d" % k)
        else: out.append("a %d" % keys)
        if oom and out[-2].startswith("F"): out.append("F 0")
    out.append("a %d" % keys)
    if rng.random() < 0.3: out.append("f %d" % rng.randrange(2)); out.append("a %d" % keys); out.append("i 3;l 3;r 3")
    return ";".join(out)

def model(ctx):
    for nn, nk in ctx.pick([(4, 4), (4, 2)], [(5, 5), (6, 4), (6, 3), (6, 2)]):
        ctx.model("HTablePlanes", """INIT Init
NEXT Next
CONSTANTS NN = %d NK = %d P0 = 1 HMax = 3 MaxPlanes = 3
INVARIANTS Represents AllNodes OnePlace NoRepeat InPlace MemOK EmptyReleased
""" % (nn, nk), "planes algorithm refines the map, any hash function: %d nodes under %d keys" % (nn, nk))
    cfg = "INIT Init\nNEXT Next\nCONSTANTS NK = %d Copies = %d\nVIEW View\nACTION_CONSTRAINT PrintPath\nINVARIANT TypeOK\n"
    return ctx.paths("MCHTable", cfg % (4, 1), "map specification, every transition") + ctx.paths("MCHTable", cfg % (3, 2), "map specification with two nodes of a key, every transition")

def big_paths(r, thorough):
    """histories of very large tables, judged with closed-form sets"""
    out = []
    for n in [200, 1000, 4000, 9000, 40000, 200000] + ([1000000, 3000000] if thorough else [700000]):
        for h in (0, 2, 6, 9):
            o = [r.randrange(4) for _ in range(5)]; m = r.choice([2, 3, 5, 7]); part = ((1 << m) - 1) & ~(1 << r.randrange(m))
            res = r.choice([x for x in range(m) if part >> x & 1])
            fill2 = "B.fill %d 1 1 %d;B.look;" % (max(60, n // r.choice([2, 3, 50])), o[4])
            k = r.randrange(3)
            if k == 0: out.append("h %d;B.fill %d %d %d %d;B.look;B.dup;B.del %d %d;B.look;B.add %d %d;B.look;B.cut %d %d;B.look;B.top %d %d;B.look;B.fin 1;%sB.fin 0" % (h, n, m, part, o[0], res, o[1], res, o[2], n // 2, o[3], n * 3 // 4, o[4], fill2))
            elif k == 1: out.append("h %d;B.fill %d 1 1 %d;B.dup;B.cut %d %d;B.look;B.cut %d %d;B.look;B.cut %d %d;B.dup;B.cut %d 0;B.look;%sB.fin 1" % (h, n, o[0], n // 2, o[1], n * 15 // 16, o[2], n - 20, o[3], n, fill2))
            else: out.append("h %d;B.fill %d 1 1 %d;B.fin 1;B.fill %d 2 3 %d;B.top %d %d;B.look;B.top 5 %d;B.dup;B.top 0 0;%sB.look" % (h, n, o[0], n, o[1], n // 3, o[2], o[3], fill2))
    for h in (3, 4, 8):       # chains of hundreds of nodes
        for n in (300, 1000, 2500):
            o = [r.randrange(4) for _ in range(4)]
            out.append("h %d;B.fill %d 1 1 %d;B.look;B.cut %d %d;B.look;B.cut %d %d;B.look;B.cut %d %d;B.dup;B.cut %d 0;B.look;B.fin 1" % (h, n, o[0], n // 2, o[1], n * 4 // 5, o[2], n - 20, o[3], n))
    return out
def big(ctx, prop):
    b = build(ctx, "htfast", asan=False, opt="-O2")
    ctx.model("MCBigSet", "INIT Init\nNEXT Next\nCONSTANTS N = %d M = 3\nINVARIANTS Agree LogOK\n" % ctx.pick(6, 12), "closed forms of large sets agree with the listed set")
    ps = big_paths(ctx.rng, ctx.thorough)
    ctx.conform(b, ps, "TraceHTBig", {"Prop": '"%s"' % prop}, "very large tables, optimised build")
    ctx.conform(build(ctx), [p for p in ps if " 1000 " in p or " 9000 " in p], "TraceHTBig", {"Prop": '"%s"' % prop}, "large tables")

def two(ctx, b, C):
    r = ctx.rng
    def one():
        x = rand_hist(r, r.choice([30, 200]), r.choice([4, 30, 70]), oom=r.choice([0, 0, 0.1]))
        if r.random() < .3: x = "h %d;ir 1 %d;a 70;rr 1 %d;a 70;f %d;a 5;ir 1 70;a 70" % (r.randrange(10), r.choice([59, 60, 178]), r.choice([50, 170]), r.randrange(2))
        return x
    ctx.conform(b, [vf.weave(r, one(), one()) for _ in range(ctx.pick(60, 600))], "TraceHTable", C, "two tables in turn")

EDGES = [58, 59, 60, 61, 176, 177, 178, 179, 412, 413, 414, 430]
def ladders(ctx, oom=False):
    """Fill past each growth threshold and drain through each shrink threshold, for each hash."""
    out = []
    for h in range(10):
        for n in EDGES if not ctx.thorough else EDGES + [884, 885, 886, 950]:
            k = n + 3
            if (h + n) % 2 == 0:   # drain from the front, then refill
                c = ["ir 1 %d" % n, "a %d" % k, "rr 1 %d" % (n * 9 // 10), "a %d" % k, "ir 1 %d" % (n // 2), "a %d" % k, "rr 1 %d" % n, "a %d" % k, "i 1;l 1;l 2"]
            else:                  # drain from the back with a stride
                c = ["ir 1 %d" % n, "rr 2 %d 2" % n, "a %d" % k, "rr 1 %d 4" % n, "a %d" % k, "ir 1 %d" % n, "a %d" % k, "f 1", "a %d" % k, "ir 1 70", "a 71"]
            out.append("h %d;" % h + ";".join(c))
    return out

@check("C05", "TLC checks the planes algorithm against the map specification for every hash function; one implementation trace per map transition, "
       "threshold ladders for ten hash functions and seeded random histories are validated by TLC against TraceHTable.")
def c05(ctx):
    b = build(ctx); ps = model(ctx); C = {"Prop": '"C05"'}
    ctx.conform(b, ["h %d;" % h + p + ";a 4" for p in ps for h in (0, 1, 3, 4)], "TraceHTable", C, "transition coverage")
    ctx.conform(b, ladders(ctx), "TraceHTable", C, "threshold ladders")
    r = ctx.rng
    ctx.conform(b, [rand_hist(r, r.choice([30, 200, 400]), r.choice([4, 30, 70, 200])) for _ in range(ctx.pick(160, 1500))], "TraceHTable", C, "random histories")
    ctx.conform(b, [rand_hist(r, 1500, r.choice([300, 500])) for _ in range(ctx.pick(12, 100))], "TraceHTable", C, "long random histories")
    ctx.conform(b, [rand_hist(r, 150, r.choice([20, 80]), oom=0.2) for _ in range(ctx.pick(30, 400))], "TraceHTable", C, "histories with allocation failures")
    ctx.conform(b, [rand_hist(r, r.choice([60, 300]), r.choice([3, 10, 40]), dups=0.4) for _ in range(ctx.pick(40, 600))], "TraceHTable", C, "histories with several nodes of a key")
    ctx.conform(b, crowds(ctx), "TraceHTable", C, "very many nodes of a key")
    two(ctx, b, C)
    ctx.conform(build(ctx, "htplain"), [rand_hist(r, 150, r.choice([4, 80])) for _ in range(ctx.pick(20, 200))], "TraceHTable", C, "build with the header's plain definitions")
    big(ctx, "C05")

@check("C06", "As C05, judging destructor calls, allocator balance and insertion under injected allocation failures.")
def c06(ctx):
    b = build(ctx); ps = model(ctx); C = {"Prop": '"C06"'}; r = ctx.rng
    ctx.conform(b, ["h %d;" % h + p + ";a 4" for p in ps for h in (0, 1)], "TraceHTable", C, "transition coverage")
    fin = []
    for h in range(10):
        for n in (0, 1, 2, 58, 59, 60, 118, 177, 178, 300) + ((413, 414, 900) if ctx.thorough else ()):
            for d in (0, 1):
                fin.append("h %d;ir 1 %d;f %d;a 3;i 1;a 3;r 1" % (h, n, d))
                fin.append("h %d;ir 1 %d;rr 1 %d 3;rr 2 %d 3;f %d;a 3;i 1;i 2;a 3" % (h, n, n, n, d))
    ctx.conform(b, fin, "TraceHTable", C, "teardown at every size")
    # allocation failure at each position around each growth step
    o = []
    for base in (0, 58, 59, 60, 176, 177, 178, 412, 413, 414):
        for f in ("F 1", "F 2", "F 3", "FF 1", "FF 2"):
            o.append("h %d;ir 1 %d;%s;ir %d %d;a %d;F 0;ir %d %d;a %d;rr 1 %d;a 5;i 1;a 5" % (base % 10, base, f, base + 1, base + 3, base + 5, base + 1, base + 8, base + 9, base + 9))
    ctx.conform(b, o, "TraceHTable", C, "allocation failure at each growth step")
    ctx.conform(b, [rand_hist(r, r.choice([60, 300]), r.choice([5, 70, 250]), oom=0.15) for _ in range(ctx.pick(120, 1500))], "TraceHTable", C, "random histories with allocation failures")
    ctx.conform(b, [rand_hist(r, r.choice([60, 300]), r.choice([3, 10, 40]), oom=0.1, dups=0.4) for _ in range(ctx.pick(40, 600))], "TraceHTable", C, "histories with several nodes of a key")
    ctx.conform(b, crowds(ctx), "TraceHTable", C, "very many nodes of a key")
    two(ctx, b, C)
    big(ctx, "C06")
