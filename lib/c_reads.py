from checks import check
import vf, c_htable, c_rbtree, c_buffer, c_list, c_value, re, os, subprocess
I = ["-I" + vf.REPO]
P = lambda p: {"Prop": '"%s"' % p}
@check("C33", "TLC checks a step-level model of several readers on one object (queries that only read answer each as if alone; the variant whose queries write is refuted, so the model can tell). Seeded and specification-generated histories full of queries run on the code with everything the library may hold on to - heap blocks, nodes, the objects themselves - in read-only memory during each query; each write is counted into the query's event, and TLC validates every event with results and a count of 0.",
       ["one process; reads that stay reads need no schedule", "the memory of caller-owned cursors and output buffers is not protected"])
def c33(ctx):
    r = ctx.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d Size = %d Rounds = %d Tidy = %s\nINVARIANT Right\n%s"
    ctx.model("Readers", cfg % (2, 3, 2, "FALSE", "PROPERTY Untouched\n"), "two readers of one object, at any step of each other: right answers, nothing written")
    ctx.model("Readers", cfg % (3, 3, ctx.pick(1, 2), "FALSE", "PROPERTY Untouched\n"), "three readers")
    bad = ctx.tlc("Readers", cfg % (2, 3, 2, "TRUE", ""))
    if "Invariant Right is violated" not in bad["out"]: raise vf.Err("queries that write are not refuted by the model:\n" + bad["out"][-1500:])
    def build(name, drv, src):      # the variables of the code under test, too, belong to what becomes read-only
        objs = [os.path.join(vf.REPO, s) for s in src if not s.startswith("data/")]
        for s in [s for s in src if s.startswith("data/")]:
            o = ctx.path("ro_%s_%s.o" % (name, os.path.basename(s)))
            for cmd in (["gcc", "-O0", "-g", "-w", "-fno-common", "-fno-builtin-malloc", "-fno-builtin-free", "-DCRE_TEST"] + I + ["-c", os.path.join(vf.REPO, s), "-o", o],
                        ["objcopy"] + ["--rename-section=%s=hxobj,alloc,load,data,contents" % x for x in (".data", ".bss", ".data.rel", ".data.rel.local")] + [o]):
                p = subprocess.run(cmd, capture_output=True, text=True)
                if p.returncode: raise vf.Err("build of %s failed:\n%s" % (s, p.stderr[-3000:]))
            objs.append(o)
        return ctx.build("ro_" + name, drv, [], I + ["-DHX_RO"] + objs, asan=False, opt="-O0")
    n = ctx.pick(1, 12)
    def salt(h, q, p=.3):      # queries between the operations of a history
        out = []
        for c in h.split(";"):
            out.append(c)
            if r.random() < p: out.append(q())
        return ";".join(out)
    # buffers, stacks, arrays
    b = build("buffer", "buffer_drv.c", ["data/buffer.c"])
    ctx.conform(b, [salt(c_buffer.rand_hist(r, 60), lambda: r.choice(["get %d", "win %d 3 20"]) % r.randrange(1, 3)) for _ in range(40 * n)], "TraceBuffer", P("C01"), "looking into buffers")
    ctx.conform(b, [salt(c_buffer.stack_hist(r, 60), lambda: r.choice(["S.peek %d %d" % (r.randrange(1, 3), r.randrange(9)), "S.peekn 1 %d" % r.randrange(9), "S.peekr 1 %d" % r.randrange(40), "S.all 2"])) for _ in range(40 * n)], "TraceBuffer", P("C03"), "looking into stacks")
    ctx.conform(b, [salt(c_buffer.arr_hist(r, t, 40), lambda: r.choice(["A.get 1 %d" % r.randrange(99), "A.all 1", "A.win 1 2 9"])) for t in range(9) for _ in range(6 * n)], "TraceBuffer", P("C04"), "looking into arrays")
    # lists
    b = build("list", "list_drv.c", [])
    for k in "DSQ": ctx.conform(b, [c_list.rand_hist(r, 60, k, m) for m in (3, 12) for _ in range(12 * n)], "TraceList", {}, "walking lists (%s)" % k)
    # hash tables: hits and misses with every hash function, at sizes up to several planes
    b = htd = build("htable", "htable_drv.c", c_htable.SRC)
    def ht():
        keys = r.choice([4, 30, 70, 400]); h = c_htable.rand_hist(r, r.choice([60, 300]), keys)
        return salt(h, lambda: "l %d" % r.randrange(-1, keys + 5))
    ctx.conform(b, [ht() for _ in range(60 * n)], "TraceHTable", P("C05"), "looking keys up in hash tables")
    ctx.conform(b, ["h %d;ir 1 %d;a %d;rr 1 %d 3;a %d;rr 2 %d 3;a %d" % (h, m, m + 3, m, m + 3, m, m + 3) for h in range(10) for m in (5, 70, 300)], "TraceHTable", P("C05"), "every key of tables that grow and shrink")
    # trees: every shape of few keys, then larger ones; lookups, cursors, walks
    b = rbd = build("rbtree", "rbtree_drv.c", ["data/rbtree.c"])
    nk = ctx.pick(5, 7)
    q = ";".join("l %d;x %d;n;n;p;p;p" % (k, k) for k in range(nk + 2)) + ";w;b;h;n;n;p;t;p;p;n;n"
    ps = [p for p in c_rbtree.alg_paths(ctx, nk)]
    ctx.conform(b, [c_rbtree.quieten(p, q) for p in ps], "TraceRBTree", P("C10"), "lookups, cursors and walks in every tree of %d keys" % nk)
    def rb():
        keys = r.choice([8, 30, 100]); h = c_rbtree.rand_hist(r, r.choice([40, 150]), keys); k = lambda: r.randrange(0, keys + 2)
        return h + ";ci;" + ";".join(r.choice(["l %d" % k(), "x %d" % k(), "n", "p", "n", "p", "h", "t", "w", "b"]) for _ in range(60)) + ";d"
    ctx.conform(b, [rb() for _ in range(40 * n)], "TraceRBTree", P("C10"), "lookups, cursors and walks in larger trees")
    # values
    b = build("value", "value_drv.c", ["data/value.c"])
    def dq(): return r.choice(["dmp 1", "wlk 1 %d %d %d" % (r.randrange(2), r.randrange(4), r.randrange(-2, 3)), "kys 1 %d %d" % (r.randrange(2), r.randrange(9)), "ask 1"])
    for p, f in (("C12", lambda r: r.choice(["dmp 1", "ask 1"])), ("C13", lambda r: dq())):
        ctx.conform(b, [c_value.dict_hist(r, c, o, 60, c_value.keyset(r, 10), f, every=4) for c in range(5) for o in range(2) for _ in range(4 * n)], "TraceValue", P(p), "getters, listings and walks of dictionaries (%s)" % p)
    def paths():
        out = [c_value.forest(r, 50)]
        for _ in range(50):
            a = c_value.addr(r, (1, 1, 2), 4)
            out.append(r.choice(["ptx %s %d %d" % (a, 0 if r.random() < .2 else r.randrange(1, 99999), r.choice([0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11])), "ask " + a, "dmp " + a, "get %s %d" % (a, r.randrange(5))]))
        return ";".join(out + ["dmp 1", "dmp 2"])
    ctx.conform(b, [paths() for _ in range(40 * n)], "TraceValue", P("C18"), "paths and getters in nested values")
    # large structures, whole sweeps of lookups and walks at once
    some = lambda ps: [p for p in ps if not re.search(r" (?:[2-9]|1\d)\d{5}\b| [1-9]\d{6,}\b", p)]
    ctx.conform(rbd, some(c_rbtree.big_paths(r, False)), "TraceRBBig", P("C08"), "looking into large trees")
    ctx.conform(htd, some(c_htable.big_paths(r, False)), "TraceHTBig", P("C05"), "looking into large tables")
    ctx.conform(b, some(c_value.vbig_paths(ctx, True)), "TraceVBig", P("C12"), "looking into large dictionaries")
