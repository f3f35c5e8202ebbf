from checks import check
import vf, c_htable, c_rbtree, c_buffer, c_list, c_value, c_code, c_hash, c_mem, c_cmd
I = ["-I" + vf.REPO]
@check("C32", "Two threads run a history each, on objects of their own, with every module: the driver is linked twice, the code under test once, each pair of histories runs in a fresh process. TLC validates each thread's trace against the module's specification of a single object (the specification of both is their product, so every interleaving has to project onto it); a data race the thread sanitizer reports is an event no specification allows.",
       ["two threads; the schedules are the machine's own (many pairs), the race detector covers unobserved orders of what ran"])
def c32(ctx):
    r = ctx.rng; ctx.anyrun = 1; n = ctx.pick(24, 400)
    def pairs(f, n=n): return [f() + "|" + f() for _ in range(n)]
    def go(name, drv, src, module, C, f, what):
        b = ctx.build_threads("thr_" + name, drv, src, I)
        cm = pairs(f); ctx.conform(b, cm, module, C, what)
    P = lambda p: {"Prop": '"%s"' % p}
    go("buffer", "buffer_drv.c", ["data/buffer.c"], "TraceBuffer", P("C01"), lambda: c_buffer.rand_hist(r, 60), "buffers in two threads")
    go("stack", "buffer_drv.c", ["data/buffer.c"], "TraceBuffer", P("C03"), lambda: c_buffer.stack_hist(r, 60), "stacks in two threads")
    go("array", "buffer_drv.c", ["data/buffer.c"], "TraceBuffer", P("C04"), lambda: c_buffer.arr_hist(r, r.randrange(9), 40), "arrays in two threads")
    go("htable", "htable_drv.c", c_htable.SRC, "TraceHTable", P("C05"), lambda: c_htable.rand_hist(r, r.choice([60, 300]), r.choice([4, 30, 70])), "hash tables in two threads")
    go("list", "list_drv.c", [], "TraceList", {}, lambda: c_list.rand_hist(r, 60, "DSQ"[r.randrange(3)], 8), "lists in two threads")
    go("rbtree", "rbtree_drv.c", ["data/rbtree.c"], "TraceRBTree", P("C08"), lambda: c_rbtree.rand_hist(r, r.choice([40, 120]), r.choice([8, 30])), "trees in two threads")
    go("mem", "mem_drv.c", ["mem/memchunk.c"], "TraceMem", {}, lambda: ";".join(["ci %d" % r.choice([0, 8, 64, 1000])] + ["a %d" % r.choice([0, 1, 7, 8, 20, 64, 300, 1000, 1024]) for _ in range(60)]), "memory chunks in two threads")
    lines = [c_cmd.rnd(r, n, lambda: "-"), c_cmd.odd(r, n, lambda: "-"), [x for x in c_cmd.wide(ctx, r, lambda: "-", (0,)) if len(x) < 30000]]
    go("cmd", "cmd_drv.c", ["misc/cmdline.c"], "TraceCmdLine", P("C28"), lambda: ";".join(r.choice(r.choice(lines)) for _ in range(4)), "command lines in two threads")
    for p in ("C12", "C13"):
        go("value" + p, "value_drv.c", ["data/value.c"], "TraceValue", P(p), lambda: c_value.dict_hist(r, r.randrange(5), r.randrange(2), 50, c_value.keyset(r, 10), lambda r: "dmp 1"), "dictionaries in two threads (%s)" % p)
    go("values", "value_drv.c", ["data/value.c"], "TraceValue", P("C15"), lambda: c_value.forest(r, 50), "nested values in two threads")
    def paths():
        out = [c_value.forest(r, 40)]
        for _ in range(40): out.append("%s %s %d %d" % (r.choice(["ptx", "ptx", "bdx"]), c_value.addr(r, (1, 1, 2), 4), 0 if r.random() < .2 else r.randrange(1, 99999), r.choice([0, 0, 4, 9, 14, 17, 1, 2, 3, 5])))
        return ";".join(out + ["dmp 1", "dmp 2"])
    go("paths", "value_drv.c", ["data/value.c"], "TraceValue", P("C19"), paths, "paths in two threads")
    go("oom", "value_drv.c", ["data/value.c"], "TraceValue", P("C20"), lambda: c_value.forest(r, 60, .3), "values in two threads, with allocation failures")
    vals = [(t, x) for t, x in sorted(c_value.numbers(ctx))]
    go("nums", "value_drv.c", ["data/value.c"], "TraceNum", {}, lambda: ";".join("N %d %s" % (t, x.hex()) for t, x in r.sample(vals, 30)), "numbers in two threads")
    # of functions without objects the first calls of a process are the interesting ones
    def b64(): o = r.choice(c_code.OPTS); return ";".join("ed %d %s %s" % (r.randrange(2), o, r.randbytes(r.choice([3, 30, 200])).hex()) for _ in range(8))
    go("b64", "code_drv.c", ["encode/base64.c", "encode/hex.c"], "TraceBase64", {}, b64, "base64 in two threads")
    go("hex", "code_drv.c", ["encode/base64.c", "encode/hex.c"], "TraceHex", {}, lambda: ";".join("xe %d %d %s;xd %d %s" % (2 * k, r.randrange(2), r.randbytes(k).hex(), k, r.randbytes(k).hex()) for k in (3, 30, 300)), "hexadecimal in two threads")
    go("crc", "hash_drv.c", c_hash.SRC, "TraceHash", {}, lambda: ";".join("c %d %s" % (r.randrange(4), r.randbytes(r.choice([1, 40, 300])).hex()) for _ in range(6)), "checksums in two threads")
    go("fnv", "hash_drv.c", c_hash.SRC, "TraceHash", {}, lambda: ";".join("f %d %x %d %s" % (w, r.getrandbits(w), r.randrange(4), r.randbytes(r.choice([1, 40, 300])).hex()) for w in (32, 64, 32, 64)), "hashes in two threads")
