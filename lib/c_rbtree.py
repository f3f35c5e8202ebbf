from checks import check
import vf
def build(ctx, name="rbtree"): return ctx.build(name, "rbtree_drv.c", ["data/rbtree.c"], ["-I" + vf.REPO] + (["-DNOGNU"] if name == "rbplain" else []))
INV = "INVARIANTS Refines Rules Depth\n"
def alg_paths(ctx, nk):
    return ctx.paths("RBAlg", "INIT Init\nNEXT Next\nCONSTANT NK = %d\nVIEW view\nACTION_CONSTRAINT PrintPath\n" % nk + INV, "algorithm, %d keys: every tree any history reaches; refines the ordered set, keeps the red-black rules" % nk)
def alg_model(ctx, nk):
    ctx.model("RBAlg", "INIT Init\nNEXT Next\nCONSTANT NK = %d\nVIEW view\n" % nk + INV, "algorithm, %d keys: refinement, red-black rules, height" % nk)
def quieten(p, tail):
    """all but the last operation of a path replayed as one Hist event"""
    c = p.split(";")
    return ("q;" + ";".join(c[:-1]) + ";Q;" if len(c) > 1 else "") + c[-1] + ";" + tail

def rand_hist(r, n, keys, look=True, obs=("d", "w", "b"), every=40):
    out = ["cmp %d" % r.randrange(4) if keys <= 100 else "cmp %d" % r.randrange(3)]; present = set(); grow = True
    for i in range(n):
        if r.random() < 0.03: grow = not grow
        x = r.random()
        k = r.randrange(1, keys + 1)
        if not grow and present and r.random() < 0.7: k = r.choice(sorted(present))
        if x < (0.65 if grow else 0.15): out.append("i %d" % k); present.add(k)
        elif x < 0.92: out.append("r %d" % k); present.discard(k)
        else: out.append("l %d" % k if x < 0.96 else "ii %d" % k)
        if r.randrange(every) == 0: out.append(r.choice(obs))
    out += list(obs)
    return ";".join(out)
def ladder(n, r):
    """build in several orders, drain in several orders"""
    asc, desc = "ir 1 %d" % n, "ir %d 1 -1" % n
    sh = list(range(1, n + 1)); r.shuffle(sh); shuf = ";".join("i %d" % k for k in sh)
    r.shuffle(sh); dr = [";".join("r %d" % k for k in sh[:n // 2]), ";".join("r %d" % k for k in sh[n // 2:])]
    out = []
    for b in (asc, desc, shuf):
        out.append("%s;d;rr 1 %d;d;rr %d %d;w" % (b, n // 2, n // 2 + 1, n))
        out.append("%s;d;rr %d %d -1;d;rr %d 1 -1;w" % (b, n, n // 2, n // 2 - 1))
        out.append("%s;d;%s;d;%s;w" % (b, dr[0], dr[1]))
        out.append("%s;rr 2 %d 2;d;ir 2 %d 2;d;rr 1 %d 2;d" % (b, n, n, n))
    return out

def two(ctx, b, C, kind=0):
    r = ctx.rng
    def one():
        keys = r.choice([6, 12, 40])
        h = rand_hist(r, r.choice([20, 80]), keys)
        if kind == 1: h = "q;" + ";".join("i %d" % r.randrange(1, keys + 1) for _ in range(keys)) + ";Q;ci;" + ";".join(r.choice(["n", "p", "n", "p", "h", "t", "x %d" % r.randrange(0, keys + 2)]) for _ in range(60))
        if kind == 2: h = "ir 1 %d;" % keys + ";".join("f %d" % r.randrange(0, 3) for _ in range(keys)) + ";f;f;ir 1 5;w;f 2;f"
        return h
    ctx.conform(b, [vf.weave(r, one(), one()) for _ in range(ctx.pick(60, 800))], "TraceRBTree", C, "two trees in turn")
def big_paths(r, thorough, tear=False):
    """histories of very large trees, judged with closed-form sets"""
    out = []
    sizes = [300, 3000, 70000] + ([300000, 1000000, 3000000] if thorough else [200000, 1000000])
    for n in sizes:
        for order in range(4):
            m = r.choice([2, 3, 5, 7]); full = (1 << m) - 1; part = full & ~(1 << r.randrange(m)) or 1
            cur = "B.h;B.p;B.n;B.p;B.t;B.n;B.p;B.n;B.x %d;B.n;B.p;B.p;B.x 0;B.n" % r.randrange(1, n)
            tail = cur + ";B.walk 1;B.walk 0;B.look;B.ver"
            res = r.sample([x for x in range(m) if part >> x & 1], 1)[0]
            o2, o3 = r.randrange(4), r.randrange(4)
            if tear: out.append("B.fill %d %d %d %d;B.tear %d;B.tear;B.fill 50 2 3 0;B.look;B.tear" % (n, m, part, order, r.randrange(1, 2 * n // 3)))
            else:
                out.append("B.fill %d %d %d %d;%s;B.dup;B.ver;B.walk 1;B.del %d %d;%s;B.add %d %d;B.ver;B.look" % (n, m, part, order, tail, res, o2, tail, res, o3))
                out.append("B.fill %d 1 1 %d;B.ver;B.cut %d %d;%s;B.top %d %d;%s;B.dup;B.cut %d 0;B.walk 1" % (n, order, n // 3, o2, tail, n // 2, o3, tail, n))
    return out
def big(ctx, b, prop, tear=False):
    ctx.model("MCBigSet", "INIT Init\nNEXT Next\nCONSTANTS N = %d M = 3\nINVARIANTS Agree LogOK\n" % ctx.pick(7, 12), "closed forms of large sets agree with the listed set")
    ctx.conform(b, big_paths(ctx.rng, ctx.thorough, tear), "TraceRBBig", {"Prop": '"%s"' % prop}, "very large trees")

@check("C08", "TLC explores every tree the insertion/removal algorithm can reach over a small key set and checks it refines the ordered set; every transition is replayed on the code, with ladders and random histories under four comparators, and TLC validates results, walks and dumped shapes.")
def c08(ctx):
    b = build(ctx); C = {"Prop": '"C08"'}; r = ctx.rng
    nk = ctx.pick(7, 9)
    ps = alg_paths(ctx, nk)
    tail = ";".join("ii %d" % k for k in range(1, nk + 1)) + ";" + ";".join("l %d" % k for k in range(0, nk + 2)) + ";w;b;i %d;r %d;d" % (r.randrange(1, nk + 1), r.randrange(1, nk + 1))
    ctx.conform(b, [quieten(p, tail) for p in ps], "TraceRBTree", C, "every transition of the algorithm model")
    ctx.conform(b, [rand_hist(r, r.choice([20, 60, 150]), r.choice([6, 12, 40, 100])) for _ in range(ctx.pick(200, 3000))], "TraceRBTree", C, "random histories")
    two(ctx, b, C)
    ctx.conform(b, ["cmp %d;" % (i % 3) + s for n in ctx.pick((17, 60), (17, 40, 100, 200)) for i, s in enumerate(ladder(n, r))], "TraceRBTree", C, "ladders")
    ctx.conform(b, [rand_hist(r, 600, 400, every=150) for _ in range(ctx.pick(8, 60))], "TraceRBTree", C, "long random histories")
    ctx.conform(build(ctx, "rbplain"), [rand_hist(r, 60, r.choice([6, 40])) for _ in range(ctx.pick(20, 300))], "TraceRBTree", C, "build with the header's plain definitions")
    big(ctx, b, "C08")

@check("C09", "As C08, judging the dumped colours and shape after every operation against the red-black rules, rbtree_verify of test builds, and comparator-call counts against the logarithmic bound.")
def c09(ctx):
    b = build(ctx); C = {"Prop": '"C09"'}; r = ctx.rng
    nk = ctx.pick(8, 10)
    ps = alg_paths(ctx, nk)
    alg_model(ctx, ctx.pick(9, 12))
    ctx.conform(b, [quieten(p, "d;i 1;d;r %d;d" % r.randrange(1, nk + 1)) for p in ps], "TraceRBTree", C, "every transition of the algorithm model")
    def dumped(h): return h.replace(";i ", ";d;i ").replace(";r ", ";d;r ")
    ctx.conform(b, [vf.weave(r, dumped(rand_hist(r, 60, 15)), dumped(rand_hist(r, 60, 15))) for _ in range(ctx.pick(20, 400))], "TraceRBTree", C, "two trees in turn")
    ctx.conform(b, [dumped(rand_hist(r, 80, r.choice([8, 15, 30]))) for _ in range(ctx.pick(80, 1500))], "TraceRBTree", C, "random histories, shape after every operation")
    lad = []
    for n in ctx.pick((250,), (250, 1000)):
        for i, s in enumerate(ladder(n, r)):
            lad.append(s.replace("d;", "d;lr 1 %d %d;" % (n, max(1, n // 40))))
    ctx.conform(b, lad, "TraceRBTree", C, "ladders with lookups")
    def churn(n, keys):   # long quiet churn, then shape and all lookups
        out = ["q"]; pres = []
        for _ in range(n):
            if pres and r.random() < 0.49: k = pres.pop(r.randrange(len(pres))); out.append("r %d" % k)
            else:
                k = r.randrange(1, keys + 1); out.append("i %d" % k)
                if k not in pres: pres.append(k)
        return ";".join(out) + ";Q;d;lr 1 %d 7;w" % keys
    ctx.conform(b, [churn(600, 150) for _ in range(ctx.pick(40, 600))], "TraceRBTree", C, "long churn")
    big(ctx, b, "C09")

@check("C10", "TLC validates every cursor movement on the code against the specification's in-order neighbours: all positions, both directions and alternations on every tree the algorithm model reaches, plus random cursor walks on random trees.")
def c10(ctx):
    b = build(ctx); C = {"Prop": '"C10"'}; r = ctx.rng
    nk = ctx.pick(7, 9)
    ps = alg_paths(ctx, nk)
    cmds = ["ci;n;p;h;t;n;x 3"]
    seen = set()
    for p in ps:
        moves = []
        for k in range(0, nk + 2):
            moves += ["x %d" % k] + r.choice([["n", "p"], ["p", "n"], ["n", "n", "p"], ["p", "p", "n"]])
        moves += ["h"] + ["n"] * (nk + 1) + ["p"] * 2 + ["t"] + ["p"] * (nk + 1) + ["n"] * 2
        cmds.append("q;" + p + ";Q;" + ";".join(moves))
    if not ctx.thorough: r.shuffle(cmds); cmds = cmds[:1500]
    ctx.conform(b, cmds, "TraceRBTree", C, "all positions of the reachable trees")
    def rw():
        n = r.choice([1, 2, 3, 10, 30, 90]); out = ["cmp %d" % r.randrange(4), "q"]
        ks = [r.randrange(1, 100) for _ in range(n)]
        out += ["i %d" % k for k in ks] + ["r %d" % k for k in ks[::3]] + ["Q"]
        out += ["w", "b"]
        for _ in range(ctx.pick(60, 200)):
            x = r.random(); out.append("x %d" % r.choice(ks + [r.randrange(0, 101)]) if x < 0.1 else "h" if x < 0.13 else "t" if x < 0.16 else "n" if x < 0.6 else "p")
            if len(out) % 9 == 0: d = r.choice("np"); out += [d] * r.randrange(1, 12)
        i0 = next(i for i, c in enumerate(out) if c in ("w",))
        out.insert(i0, "h")
        return ";".join(out)
    ctx.conform(b, [rw() for _ in range(ctx.pick(300, 4000))], "TraceRBTree", C, "random cursor walks")
    two(ctx, b, C, 1)
    big(ctx, b, "C10")

@check("C11", "TLC validates the multiset of nodes handed out by stepwise teardown on every tree the algorithm model reaches; each node is released (ASan-poisoned) as soon as it is returned.")
def c11(ctx):
    b = build(ctx); C = {"Prop": '"C11"'}; r = ctx.rng
    nk = ctx.pick(7, 9)
    ps = alg_paths(ctx, nk)
    ctx.conform(b, ["q;" + p + ";Q;f %d;f;f;i 2;i 1;w;f 1;f" % r.randrange(0, nk + 1) for p in ps], "TraceRBTree", C, "teardown of every reachable tree")
    def rt():
        n = r.choice([1, 5, 30, 100, 300]); ks = [r.randrange(1, 400) for _ in range(n)]
        out = ["q"] + ["i %d" % k for k in ks] + ["r %d" % k for k in ks[::r.choice([2, 3, 50])]] + ["Q"]
        for _ in range(r.randrange(4)): out.append("f %d" % r.randrange(1, 9))
        return ";".join(out + ["f", "ir 1 20", "w", "d", "f"])
    ctx.conform(b, [rt() for _ in range(ctx.pick(120, 2000))], "TraceRBTree", C, "teardown of random trees")
    two(ctx, b, C, 2)
    big(ctx, b, "C11", True)
