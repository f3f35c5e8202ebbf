from checks import check
import vf
def build(ctx, name, flags=()): return ctx.build(name, "list_drv.c", [], ["-I" + vf.REPO] + list(flags))
def rand_hist(r, n, k, ids):
    out = []; grow = True; seq = {1: [], 2: []}
    for _ in range(n):
        if r.random() < 0.06: grow = not grow
        i = 1 if r.random() < 0.75 else 2; q = seq[i]
        free = [y for y in range(1, ids + 1) if y not in seq[1] and y not in seq[2]]
        if free and (not q or r.random() < (0.75 if grow else 0.2)):
            y = r.choice(free); ops = ["pre"] + (["app"] if k != "S" else []) + ((["ia"] + (["ib"] if k == "D" else [])) if q else [])
            op = r.choice(ops); w = r.choice([q[0], q[-1], r.choice(q)]) if q else 0
            if op == "pre": q.insert(0, y)
            elif op == "app": q.append(y)
            elif op == "ia": q.insert(q.index(w) + 1, y)
            else: q.insert(q.index(w), y)
            out.append("%s.%s %d %d %d" % (k, op, i, w, y))
        elif q:
            op = r.choice(["rm", "rm", "rh", "rt"] if k == "D" else ["rn", "rn", "rh"])
            if op == "rh": q.pop(0); out.append("%s.rh %d 0 0" % (k, i))
            elif op == "rt": q.pop(); out.append("%s.rt %d 0 0" % (k, i))
            elif op == "rm": j = r.choice([0, len(q) - 1, r.randrange(len(q))]); out.append("%s.rm %d 0 %d" % (k, i, q.pop(j)))
            elif len(q) > 1: j = r.choice([1, len(q) - 1, r.randrange(1, len(q))]); out.append("%s.rn %d %d 0" % (k, i, q[j - 1])); q.pop(j)
    return ";".join(out)
@check("C07", "TLC checks a pointer-level model of the three list kinds refines sequences over every state of two lists; every such transition and seeded long histories run on the code (nodes freed on removal) and TLC validates walks both ways, ends and emptiness.")
def c07(ctx):
    b = build(ctx, "list"); b2 = build(ctx, "list2", ["-DWITH_STDDEF", "-std=gnu89"]); b3 = build(ctx, "list3", ["-DNOGNU"]); r = ctx.rng
    for k in "DSQ":
        ps = ctx.paths("ListAlg", 'INIT Init\nNEXT Next\nCONSTANTS Kind = "%s" NN = %d\nVIEW view\nINVARIANT Represents\nACTION_CONSTRAINT PrintPath\n' % (k, ctx.pick(4, 5)), "pointer model of kind %s refines two sequences" % k)
        ctx.conform(b, ps, "TraceList", {}, "every transition of the %s pointer model" % k)
        for ids, n, m in ((5, 40, ctx.pick(60, 1500)), (20, 80, ctx.pick(40, 800)), (100, 300, ctx.pick(8, 100))):
            ctx.conform(b if ids != 20 else b2, [rand_hist(r, n, k, ids) for _ in range(m)], "TraceList", {}, "random histories (%s, %d nodes)" % (k, ids))
        ctx.conform(b3, [rand_hist(r, 40, k, 6) for _ in range(ctx.pick(30, 300))], "TraceList", {}, "build with the header's plain definitions (%s)" % k)
    bx = ctx.build_cxx("list_cxx", "list_drv.c", [], ["-I" + vf.REPO])
    if bx: ctx.conform(bx, [rand_hist(r, 40, k, 6) for k in "DSQ" for _ in range(ctx.pick(30, 300))], "TraceList", {}, "used from C++")
