from checks import check
from c_rbtree import alg_paths, INV
import vf, itertools, re, struct
def build(ctx): return ctx.build("value", "value_drv.c", ["data/value.c"], ["-I" + vf.REPO])
def hx(b): return bytes(b).hex() or "-"
P = lambda pid: {"Prop": '"%s"' % pid}

# ---- material -----------------------------------------------------------
KEYS = [b"", b"a", b"b", b"ab", b"abc", b"a\0", b"a\0b", b"\0", b"\0\0", b"A", b"AB", b"\xff", b"\xff\xfe", b"\x80", b"\x7f", b"Zz", b"zZ", b"a" * 12, b"a" * 13, b"a" * 14, b"a" * 15,
        b"a" * 13 + b"b", b"k" * 127, b"k" * 128, b"k" * 129, b"q" * 300, b"0", b"[0]", b"/", b"a/b"]
def key(r, few=False):
    if few: return r.choice([b"a", b"b", b"c", b"d", b"e", b"", b"A", b"aa", b"\xff"])
    return r.choice(KEYS) if r.random() < 0.5 else bytes(r.choice(b"abc\0\xff") for _ in range(r.randrange(5)))
def val(r):
    x = r.random()
    if x < 0.1: return "null"
    if x < 0.2: return "bool %d" % r.choice([0, 1, -5, 256])
    if x < 0.5: return "num %d %s" % (r.randrange(2, 6), hx(r.randbytes(8)))
    if x < 0.55: return "num 7 " + hx(struct.pack("<d", r.choice([0.0, -0.0, 1.5, 1e300, float("inf"), r.random()])))
    if x < 0.6: return "num 6 " + hx(struct.pack("<f", r.choice([0.0, -0.0, 1.5, 1e30, float("inf"), 3.25])) + b"\0" * 4)
    if x < 0.9: return "strl %d %d" % (r.choice([0, 1, 5, 12, 13, 14, 15, 40, 126, 127, 128, 129, 130]), r.randrange(256))
    if x < 0.95: return "strz " + hx(bytes(r.choice(b"xyz") for _ in range(r.randrange(20))))
    return "strn %d" % r.randrange(2)
def cont(r): return r.choice(["arr", "arr", "dict", "dictx %d %d" % (r.randrange(5), r.randrange(2)), "dictx 0 1"])
def addr(r, slots=(1, 1, 1, 2, 3), depth=3):
    return str(r.choice(slots)) + "".join(".*%d" % r.randrange(1000) for _ in range(r.choice([0, 1, 1, 2, depth])))
HUGE = (1 << 64) - 1
def tree_op(r, oom=0.0, a=None):
    """one operation on a random place of the trees"""
    a = a or addr(r); x = r.random(); few = r.random() < 0.6; p = ""
    if oom and r.random() < oom: p = r.choice(["F 1;", "F 1;", "F 2;", "F 3;", "FF 1;"])
    if x < 0.22: return p + "ini %s %s" % (a, val(r))
    if x < 0.32: return p + "ini %s %s" % (a, cont(r))
    if x < 0.44: return p + r.choice(["app %s" % a, "ins %s %d m" % (a, r.randrange(50)), "ins %s %d" % (a, r.randrange(4))])
    if x < 0.50: return r.choice(["rem %s %d m m m" % (a, r.randrange(50)), "rng %s %d %d m" % (a, r.randrange(50), r.randrange(3)), "rng %s %d %d" % (a, r.choice([0, 1, 2, HUGE]), r.choice([0, 1, 2, HUGE, HUGE - 1]))])
    if x < 0.70: return p + "%s %s %s" % (r.choice(["add", "add", "goa", "addz", "goaz"]), a, hx(key(r, few)))
    if x < 0.76: return r.choice(["drmx %s %d" % (a, r.randrange(50)), "drm %s %s" % (a, hx(key(r, few)))])
    if x < 0.80: return "dget %s %s" % (a, hx(key(r, few)))
    if x < 0.81: return r.choice(["acl ", "dcl ", "fin "]) + a
    if x < 0.85: return "ask " + a
    if x < 0.87: return "bad " + a
    if x < 0.93: return p + "bdx %s %d %d" % (a, r.randrange(1, 9999), r.randrange(18))
    if x < 0.97: return "ptx %s %d %d" % (a, r.randrange(1, 9999), r.randrange(18))
    return "dmp %d" % r.choice([1, 1, 2, 3])
def forest(r, n, oom=0.0):
    out = ["ini 1 " + cont(r), "ini 2 " + cont(r)]
    for i in range(n):
        o = tree_op(r, oom); out.append(o)
        if o.startswith("FF"): out.append("F 0")
    return ";".join(out + ["dmp 1", "dmp 2", "dmp 3", "ask 1", "ask 2"])

def dict_hist(r, c, o, n, keys, obs, every=12, oom=0.0):
    out = ["ini 1 " + ("dict" if c == 0 and o == 0 and r.random() < .5 else "dictx %d %d" % (c, o))]; grow = True
    for i in range(n):
        if r.random() < 0.06: grow = not grow
        k = hx(r.choice(keys)); x = r.random()
        if oom and r.random() < oom: out.append("F %d" % r.choice([1, 1, 2]))
        if x < (0.55 if grow else 0.15):
            out.append(r.choice(["add", "goa", "add"]) + " 1 " + k)
        elif x < 0.6: out.append("ini 1.*%d %s" % (r.randrange(500), val(r)))
        elif x < 0.88: out.append("drm 1 " + k if r.random() < .5 else "drmx 1 %d" % r.randrange(100))
        elif x < 0.98: out.append("dget 1 " + k)
        elif x < 0.985: out.append(r.choice(["dcl 1", "addz 1 " + k, "goaz 1 " + k, "addn 1", "goan 1", "drmz 1 " + k, "drmn 1", "dgetn 1"]))
        else: out.append("dgetz 1 " + k)
        if r.randrange(every) == 0: out.append(obs(r))
    return ";".join(out + ["dmp 1", "ask 1", "fin 1", "dmp 1"])
def keyset(r, n):
    ks = set(KEYS[:r.randrange(3, len(KEYS))]) if r.random() < .5 else set()
    while len(ks) < n: ks.add(bytes(r.choice(b"aAbB\0\xff\x80z") for _ in range(r.randrange(1, 7))))
    return sorted(ks)
def oom_hists(ctx, b, C, obs, n=(40, 800)):
    r = ctx.rng
    ctx.conform(b, [dict_hist(r, i % 5, i // 5 % 2, r.choice([40, 120]), sorted(set(keyset(r, 14)) | {bytes(r.choice(b"kK")for _ in range(m)) for m in (12, 13, 14, 15, 40, 300)}), obs, 10, .2) for i in range(ctx.pick(*n))], "TraceValue", C, "histories with allocation failures")
def model_keys(p, ks):
    """an RBAlg path over the dictionary, the i-th model key rendered as ks[i-1]"""
    return re.sub(r"\b([ir]) (\d+)", lambda m: ("add 1 " if m.group(1) == "i" else "drm 1 ") + hx(ks[int(m.group(2)) - 1]), p)
def dict_paths(ctx, nk, tail, pick=None):
    ps = alg_paths(ctx, nk); r = ctx.rng; out = []
    if pick and len(ps) > pick: r.shuffle(ps); ps = ps[:pick]
    for i, p in enumerate(ps):
        ks = sorted(r.sample(KEYS[:22], nk)); c = i % 3; o = (i // 3) % 2
        out.append("ini 1 dictx %d %d;" % (c, o) + model_keys(p, ks) + ";" + tail(r, ks))
    return out

def tree_paths(ctx, nodes, most, keep=lambda p: True):
    """every transition of small value trees (MCValue), the last operation also with a failing allocation"""
    ps = ctx.paths("MCValue", "INIT Init\nNEXT Next\nCONSTANTS MaxNodes = %d MaxDepth = 2\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT PrintPath\n" % nodes, "all value trees of up to %d nodes" % nodes)
    ps = [p.strip(";") for p in ps if keep(p)]; r = ctx.rng
    if len(ps) > most: r.shuffle(ps); ps = ps[:most]
    return ps
def failing(p):
    h, _, t = p.rpartition(";"); return (h + ";" if h else "") + "F 1;" + t
def vbig_paths(ctx, walks):
    """histories of very large dictionaries, judged with closed-form sets"""
    r = ctx.rng; out = []; i = 0
    for n in [300, 3000, 70000, 250000] + ctx.pick([], [1000000]):
        for w in (0, 1, 0, 1, 2, 3):
            i += 1; m = r.choice([2, 3, 5, 7]); full = (1 << m) - 1; part = full & ~(1 << r.randrange(m)) or 1
            style = r.randrange(3); c = r.choice([0, 0, 1, 2] + [3] * (style != 1)); o = i % 2 if w > 1 else int(r.random() < .7)
            if r.random() < .25: style, c = 3, 2
            if n > 200000 and w > 1: continue
            sd = -1 if c == 1 else 1; od = -1 if w == 1 else 1; w2, w3 = (w, w) if w < 2 else (r.randrange(4), r.randrange(4))
            res = r.choice([x for x in range(m) if part >> x & 1]); miss = next(x for x in range(m) if not part >> x & 1) if part != full else None
            def wk():
                return "V.wlk 0 %d 0 0;V.wlk 1 %d 0 0" % (sd, od) + (";V.wlk 0 %d %d %d;V.wlk 1 %d %d %d;V.kys 0 %d %d;V.kys 1 %d %d" % (sd, r.randrange(1, n), r.choice([1, -1, 0]), od, r.randrange(1, n), r.choice([5, -3]), sd, r.choice([n, n + 5, n // 3, 1]), od, r.choice([n, n + 1, n // 3])) if walks else "")
            tail = "V.look;V.ver;" + wk()
            out.append("V.ini %d %d %d;V.fill %d %d %d %d;%s;V.dup;V.del %d %d;%s;V.add %d %d;%s;V.add %d %d;%s;V.cln;V.wlk 1 1 0 0;V.fill 50 2 3 0;V.look;V.wlk 1 1 0 0;V.fin" % (c, o, style, n, m, part, w, tail, res, w2, tail, res, w3, tail, miss if miss is not None else res, w2, tail) if miss is not None else
                       "V.ini %d %d %d;V.fill %d %d %d %d;%s;V.dup" % (c, o, style, n, m, part, w, tail))
            out.append("V.ini %d %d %d;V.fill %d 1 1 %d;V.ver;V.cut %d %d;%s;V.top %d %d;%s;V.dup;V.cut %d 0;V.look;V.wlk 1 1 0 0" % (c, o, style, n, w, n // 3, r.randrange(4), tail, n // 2, r.randrange(4), tail, n))
    return out
def sbig(ctx, b):
    r = ctx.rng; out = []
    for n in [5, 40, 300, 5000, 70000, 200000] + ctx.pick([], [1000000]):
        for k in range(ctx.pick(4, 12)):
            q = ["S.ini"]; z = 0; v = 1
            def app(c):
                nonlocal z, v; q.append("S.app 0 %d %d" % (c, v)); z += c; v += c + r.choice([0, 3])
            def ins(c, i):
                nonlocal z, v; q.append("S.ins %d %d %d %d" % (i, c, v, r.randrange(2))); z += c; v += c + 3
            def rng(i, c):
                nonlocal z; q.append("S.rng %d %d" % (i, c)); z -= c
            def rem(i, c):
                nonlocal z; q.append("S.rem %d %d" % (i, c)); z -= c
            app(n)
            for _ in range(ctx.pick(25, 60)):
                few = max(1, min(z, 1500 if n < 100000 else 200)); edge = [0, min(1, z), z // 2, max(0, z - 1), z, r.randrange(z + 1), min(z, 65535), min(z, 65536), min(z, 65537), min(z, 32768), min(z, 255), min(z, 256)]; i = r.choice(edge); x = r.random()
                if x < .35: ins(r.randrange(1, few + 1), i)
                elif x < .45: app(r.randrange(1, n))
                elif x < .65: rng(i, r.choice([0, 1, min(1, z - i), (z - i) // 2, z - i, r.randrange(z - i + 1), min(z - i, 65536)]) if z > i else 0)
                elif x < .8 and z > i: rem(i, r.randrange(1, min(few, z - i) + 1))
                elif x < .82: q.append("S.acl"); z = 0; app(n)
                elif x < .9: q += ["S.pth %d %d" % (j, r.randrange(4)) for j in (i, z, max(0, z - 1), z + 1, 65536, 65535 + z, 1, z % 65536, z % 256)]
                elif x < .92: q.append("S.bld 0 %d" % v); z += 1; v += 1
                else: q += ["S.get %d" % j for j in (i, z, max(0, z - 1), z + 1, 65536, 65535 + z)]
                if z > 2 * n + 2000: rng(r.randrange(z // 2), z // 2)
                if r.random() < .5: q.append("S.lst")
            q += ["S.lst"]; rng(0, z // 2); q += ["S.lst"]; rng(z // 3, z - z // 3); q.append("S.lst"); app(3); q.append("S.lst")
            out.append(";".join(q))
    ctx.model("MCBigSeq", "INIT Init\nNEXT Next\nCONSTANT N = %d\nINVARIANT Agree\n" % ctx.pick(6, 8), "run-length sequences agree with listed ones")
    ctx.conform(b, out, "TraceSBig", {}, "very long arrays")
def deep(ctx, b):
    ctx.conform(b, ["S.ini;" + ";".join("S.deep %d %d" % (n, y) for n in (1, 2, 3, 5, 16, 40, 100, 127, 128, 129, 255, 256, 257, 700) + ctx.pick((1500,), (1500, 4000)) for y in range(3))], "TraceSBig", {}, "deep nesting")
def longkeys(ctx, b, pid):
    """paths with keys of all kinds of lengths"""
    ls = [1, 2, 12, 13, 14, 126, 127, 128, 129, 254, 255, 256, 257, 258, 600]; out = []
    for i, n in enumerate(ls):
        k = [hx(b"k" * n), hx(b"k" * (n - 1)) , hx(b"k" * n + b"x")]
        out.append("ini 1 dict;add 1 %s;pth 1 %s;pth 1 %s;pth 1 %s;add 1 -;pth 1 %s;bld 1 %s;pth 1 %s;dmp 1" % (k[0], k[0], k[1] if n > 1 else k[0], k[2], k[0], hx(b"q/" + b"k" * n + b"[]/z"), hx(b"q/" + b"k" * n + b"[0]/z")))
    ctx.conform(b, out, "TraceValue", P(pid), "paths with long keys")
    ls = [2, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4096, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 2097151, 2097152] + ctx.pick([], [1 << 24])
    ctx.conform(b, ["S.ini;" + ";".join("S.lkey %d %d" % (n, y) for n in ls for y in range(8))], "TraceSBig", {}, "paths with very long keys")
def two(ctx, b, C, obs=None, n=(40, 400)):
    """two trees of values in turn, or the second one inside the comparators and walks of the first"""
    r = ctx.rng
    def one():
        if obs is None or r.random() < .3: return forest(r, 40)
        return dict_hist(r, r.randrange(1, 5), r.randrange(2), 60, keyset(r, r.choice([4, 8, 20])), obs, 4)
    ctx.conform(b, [vf.weave(r, one(), one()) for _ in range(ctx.pick(*n))], "TraceValue", C, "two at a time")
def vbig(ctx, b, prop, walks=False):
    ctx.model("MCBigSet", "INIT Init\nNEXT Next\nCONSTANTS N = %d M = 3\nINVARIANTS Agree LogOK\n" % ctx.pick(7, 12), "closed forms of large sets agree with the listed set")
    ctx.conform(b, vbig_paths(ctx, walks), "TraceVBig", P(prop), "very large dictionaries")

@check("C12", "TLC explores the search-tree algorithm of the dictionary over a small key set (refinement of the map, tree rules); its transitions, and random histories over keys of all lengths and contents under five comparators with and without kept order, run on the code, and TLC validates every result and full dumps against the map specification.",
       ["keys up to 65,533 bytes; dictionaries up to 250,000 (thorough 1,000,000) keys"])
def c12(ctx):
    b = build(ctx); C = P("C12"); r = ctx.rng
    nk = ctx.pick(6, 8)
    ctx.conform(b, dict_paths(ctx, nk, lambda r, ks: ";".join("dget 1 " + hx(k) for k in ks) + ";goa 1 %s;add 1 %s;dmp 1" % (hx(r.choice(ks)), hx(r.choice(ks)))), "TraceValue", C, "every transition of the tree algorithm, as a dictionary")
    ctx.conform(b, [dict_hist(r, c, o, r.choice([15, 40, 90]), keyset(r, r.choice([4, 8, 20])), lambda r: "dmp 1") for c in range(5) for o in range(2) for _ in range(ctx.pick(14, 300))], "TraceValue", C, "random histories, all comparators")
    ctx.conform(b, [dict_hist(r, i % 4, i // 4 % 2, 400, keyset(r, 120), lambda r: "ask 1", 50) for i in range(ctx.pick(8, 80))], "TraceValue", C, "long histories")
    ctx.conform(b, ["ini 1 dict;" + ";".join("add 1 " + hx(b"x" * n + e) + ";dget 1 " + hx(b"x" * n + e) for n in range(a, a + 10) for e in (b"", b"\0", b"y")) + ";dmp 1" for a in range(0, 140, 10)] +
                ["ini 1 dictx 0 1;add 1 %s;add 1 %s;dget 1 %s;ini 1.*1 bool 1;drm 1 %s;dmp 1" % tuple(hx(b"w" * n + e) for e in (b"", b"a", b"", b"a")) for n in (16382, 16383, 16384, 20000)], "TraceValue", C, "key lengths")
    dic = re.compile(r"(^|;)(add|goa|drm|dcl)[^;]*$")
    ctx.conform(b, [p + ";dmp 1" for p in tree_paths(ctx, ctx.pick(3, 4), ctx.pick(3000, 60000), dic.search)], "TraceValue", C, "every dictionary operation in every small tree")
    # prefixes of one another, of all kinds of lengths: differences that any narrow type would lose
    ls = sorted({a + d for a in (0, 1, 3, 100, 127, 128, 129, 200, 255, 256, 257, 300, 383, 384, 512, 513, 767) for d in (0, 1, 4)}); out = []
    for c in range(4):
        for k in range(ctx.pick(3, 20)):
            q = r.sample(ls, 14); q += sorted({q[0] + 256, q[1] + 128, q[2] + 129, q[3] + 255, q[4] + 512} - set(q))
            out.append("ini 1 dictx %d %d;" % (c, k % 2) + ";".join("%s 1 %s" % (r.choice(["add", "goa"]), hx(b"x" * n)) for n in q) + ";" + ";".join("dget 1 " + hx(b"x" * n) for n in q + r.sample(ls, 6)) + ";wlk 1 0 0 0;" + ";".join("drm 1 " + hx(b"x" * n) for n in r.sample(q, len(q) // 2)) + ";ask 1;" + ";".join("dget 1 " + hx(b"x" * n) for n in q))
    out += ["ini 1 dictx 0 %d;add 1 %s;dget 1 %s;add 1 %s;dget 1 %s;dget 1 %s;drm 1 %s;ask 1;dget 1 %s" % ((n % 2,) + tuple(hx(b"x" * z) for z in (n, n + d, n + d, n, n + 2 * d, n, n + d))) for n, d in ((1, 4096), (4, 32768), (3, 65536 - 3), (0, 16384))]
    out += ["ini 1 dictx %d %d;%sdgetn 1;drmn 1;addn 1;dgetn 1;dget 1 -;goan 1;dgetz 1 -;drmn 1;dgetn 1;dget 1 61;drmn 1;goan 1;dmp 1;addn 1;add 1 -;drm 1 -;ask 1" % (c, o, w) for c in range(5) for o in range(2) for w in ("", "add 1 61;", "add 1 61;add 1 6162;add 1 62;")]
    ctx.conform(b, out, "TraceValue", C, "keys that are prefixes of one another")
    ctx.conform(b, [forest(r, 60) for _ in range(ctx.pick(60, 1500))], "TraceValue", C, "nested values")
    two(ctx, b, C, lambda r: "dmp 1"); oom_hists(ctx, b, C, lambda r: "dmp 1")
    vbig(ctx, b, "C12")

@check("C13", "As C12, with walks stopped at every position with several return values, key listings into buffers of every size, and removals and re-additions in between; TLC validates visiting order, stopping and returned value against the sorted and insertion orders of the specification.")
def c13(ctx):
    b = build(ctx); C = P("C13"); r = ctx.rng; nk = ctx.pick(6, 7)
    def tail(r, ks):
        out = []
        for m in (0, 1):
            for s in range(0, len(ks) + 2): out.append("wlk 1 %d %d %d" % (m, s, r.choice([1, -1, 7, -2147483648, 2147483647, 0])))
            for s in range(0, len(ks) + 2): out.append("kys 1 %d %d" % (m, s))
        return ";".join(out + ["drm 1 " + hx(r.choice(ks)), "add 1 " + hx(r.choice(ks)), "dmp 1"])
    ctx.conform(b, dict_paths(ctx, nk, tail, ctx.pick(900, None)), "TraceValue", C, "walks and listings of every reachable tree")
    obs = lambda r: r.choice(["wlk 1 %d %d %d", "kys 1 %d %d %d"]) % (r.randrange(2), r.randrange(0, 25), r.choice([1, -1, 9, 0]))
    ctx.conform(b, [dict_hist(r, c, o, r.choice([15, 40, 90]), keyset(r, r.choice([4, 8, 20])), obs, 3) for c in range(5) for o in (0, 1, 1) for _ in range(ctx.pick(12, 250))], "TraceValue", C, "random histories, all comparators")
    ctx.conform(b, [dict_hist(r, i % 4, 1, 300, keyset(r, 80), obs, 12) for i in range(ctx.pick(8, 80))], "TraceValue", C, "long histories")
    two(ctx, b, C, obs); oom_hists(ctx, b, C, obs)
    vbig(ctx, b, "C13", True)
    ctx.conform(b, ["%s;wlk 1 0 1 1;wlk 1 1 1 1;kys 1 0 3;kys 1 1 3;wlk 1 0 0 0;wlk 1 1 0 0" % s for s in ("ini 1 arr;app 1", "ini 1 strl 5 1", "ini 1 null", "ini 1 dict", "ini 1 dictx 0 1", "ini 1 dictx 1 0", "ini 1 bool 1")] + ["wlk 0 0 0 0;wlk 0 1 0 0;kys 0 0 2;kys 0 1 2"], "TraceValue", C, "empty dictionaries and other kinds")

def light(p): return ";".join(x.replace("i ", "a ") if x.startswith("i ") else x for x in p.split(";"))
@check("C14", "As C09, on dictionaries: every tree the algorithm model reaches, ladders and churn; TLC validates the shape that lookups traverse (a search tree with a red-black colouring), the test-build verifier and comparator-call counts against the logarithmic bound.")
def c14(ctx):
    b = build(ctx); r = ctx.rng; nk = ctx.pick(8, 10)
    ps = alg_paths(ctx, nk)
    def q(i, p, tail):
        c = light(p).split(";")
        return "Lini %d %d;" % (1 + i % 2, i // 2 % 2) + ("q;" + ";".join(c[:-1]) + ";Q;" if len(c) > 1 else "") + c[-1] + ";" + tail
    ctx.conform(b, [q(i, p, "d;%s 1;d;r %d;d" % (r.choice("ao"), r.randrange(1, nk + 1))) for i, p in enumerate(ps)], "TraceDictCost", {}, "every transition of the algorithm model")
    from c_rbtree import ladder
    def conv(s): return re.sub(r"(^|;)i (?=\d)", r"\1a ", s)
    big = []
    for n in ctx.pick((60, 250), (60, 250, 1000)):
        for i, s in enumerate(ladder(n, r)):
            s = conv(s).replace(";w", "").replace("d;", "d;lr 1 %d %d;" % (n, max(1, n // 40))); big.append("Lini %d %d;" % (1 + i % 2, i // 2 % 2) + s + ";d")
    ctx.conform(b, big + [x.replace("Lini 1", "Lini 0", 1) for x in big if x.startswith("Lini 1")][:10], "TraceDictCost", {}, "ladders with lookups")
    def churn(n, keys):
        out = ["Lini %d %d" % (r.choice([1, 2]), r.randrange(2)), "q"]; pres = []
        for _ in range(n):
            if pres and r.random() < 0.49: k = pres.pop(r.randrange(len(pres))); out.append("r %d" % k)
            else:
                k = r.randrange(1, keys + 1); out.append("a %d" % k)
                if k not in pres: pres.append(k)
        return ";".join(out) + ";Q;d;lr 1 %d 7" % keys
    ctx.conform(b, [churn(600, 150) for _ in range(ctx.pick(40, 600))], "TraceDictCost", {}, "long churn")
    def mixed(n, keys):
        out = ["Lini %d %d" % (r.choice([1, 2]), r.randrange(2))]
        for _ in range(n):
            out.append("%s %d" % (r.choice("aaorrl"), r.randrange(1, keys + 1)))
            if r.randrange(4) == 0: out.append("d")
        return ";".join(out + ["d"])
    ctx.conform(b, [mixed(80, r.choice([8, 15, 40])) for _ in range(ctx.pick(60, 1500))], "TraceDictCost", {}, "random histories")
    vbig(ctx, b, "C14")

def mark(p, n=[0]):
    """give every inserted element of an array path a value of its own"""
    out = []
    for c in p.split(";"):
        f = out[-1:] == ["F 1"]
        w = c.split()
        out.append({"ins": "ins 1 %s", "rng": "rng 1 %s"}.get(w[0], "%s").replace("%s", " ".join(w[1:])) if w[0] in ("ins", "rng") else "acl 1" if c == "acl" else c)
        if w[0] == "ins" and not f: n[0] += 1; out.append("ini 1.i%s num 3 %s" % (w[1], hx(struct.pack("<Q", n[0] & 0xffffffff))))
    return ";".join(out)
@check("C15", "TLC checks a storage-level model of the value array (memmove, rounded growth and shrinking, failing reallocations) refines sequences; its transitions, huge out-of-bounds indices and counts, and random histories run on the code, and TLC validates each result and full dumps.")
def c15(ctx):
    b = build(ctx); C = P("C15"); r = ctx.rng
    for pts, mx in ((0, ctx.pick(6, 9)), (1, ctx.pick(40, 130))):
        ps = ctx.paths("ArrAlg", "INIT Init\nNEXT Next\nCONSTANTS MaxSize = %d Points = %d\nVIEW view\nINVARIANT Refines\nACTION_CONSTRAINT PrintPath\n" % (mx, pts), "array storage up to %d elements refines the sequence" % mx)
        if pts: ps = [p for p in ps if r.random() < ctx.pick(0.12, 0.3)]
        ctx.conform(b, ["ini 1 arr;" + mark(p) + ";dmp 1;ins 1 0;dmp 1" for p in ps], "TraceValue", C, "every transition of the storage model")
    def bounds(n):
        out = ["ini 1 arr"] + ["app 1;ini 1.i%d num 3 %s" % (i, hx([i + 1] * 8)) for i in range(n)]
        edge = [0, 1, n - 1, n, n + 1, 2 * n, HUGE, HUGE - 1, HUGE - n, HUGE - n + 1, 1 << 63, (1 << 63) + 1, 1 << 60, (1 << 60) + 1, 1 << 32]
        edge = sorted({e for e in edge if e >= 0})
        for i in edge:
            out.append("get 1 %d" % i)
            if i > n: out.append("ins 1 %d" % i)
            if i >= n: out.append("rem 1 %d" % i)
            for c in edge:
                if i + c > n: out.append("rng 1 %d %d" % (i, c))
        return ";".join(out + ["dmp 1", "rng 1 0 %d" % n, "dmp 1"])
    ctx.conform(b, [bounds(n) for n in (0, 1, 2, 3, 5, 16, 17, 31)], "TraceValue", C, "bounds and overflow")
    def ah(n):
        out = ["ini 1 arr"]; z = 0; grow = True
        for _ in range(n):
            if r.random() < .07: grow = not grow
            x = r.random()
            if x < (.7 if grow else .2): i = r.choice([0, z, z, r.randrange(z + 1)]); out.append("ins 1 %d;ini 1.i%d %s" % (i, i, val(r)) if i < z or r.random() < .7 else "app 1"); z += 1
            elif x < .95 and z: i = r.randrange(z); c = r.choice([0, 1, 1, 1, 2, z - i, r.randrange(z - i + 1)]); c = min(c, z - i); out.append("rng 1 %d %d" % (i, c)); z -= c
            elif x < .97: out.append("get 1 %d" % r.randrange(z + 2))
            elif x < .975: out.append("acl 1"); z = 0
            if r.random() < .05: out.append("dmp 1")
        return ";".join(out + ["dmp 1", "ask 1"])
    ctx.conform(b, [ah(r.choice([20, 60, 150])) for _ in range(ctx.pick(150, 3000))], "TraceValue", C, "random histories")
    ctx.conform(b, [forest(r, 60) for _ in range(ctx.pick(40, 1000))], "TraceValue", C, "nested values")
    arr = re.compile(r"(^|;)(ins|rng|acl)[^;]*$")
    ctx.conform(b, [p + ";dmp 1" for p in tree_paths(ctx, ctx.pick(3, 4), ctx.pick(3000, 60000), arr.search)], "TraceValue", C, "every array operation in every small tree")
    two(ctx, b, C)
    sbig(ctx, b)
    ctx.conform(b, ["%s;bad 1;app 1;ins 1 0;rem 1 0;rng 1 0 0;acl 1;get 1 0;ask 1;dmp 1" % s for s in ("ini 1 strl 5 1", "ini 1 strl 40 1", "ini 1 null", "ini 1 dict;add 1 61", "ini 1 dictx 0 1;add 1 61", "ini 1 bool 1", "ini 1 num 5 0102030405060708", "fin 1")] + ["bad 0;app 0;ins 0 0;rem 0 0;rng 0 0 0;acl 0;get 0 0;ask 0"], "TraceValue", C, "operations on other kinds")

@check("C16", "TLC validates every stored scalar and string (all lengths around the size-encoding and inline-storage boundaries, all byte contents, up to 2 GiB by length and sampled content) and every getter asked of every kind of value against the specification.",
       ["strings above 64 KiB are compared in the driver (memcmp against the source); their length is judged by TLC"])
def c16(ctx):
    b = build(ctx); C = P("C16"); r = ctx.rng
    def one(v): return "ini 1 %s;ask 1;dmp 1;bad 1;dmp 1;fin 1;ask 1;dmp 1" % v
    cm = [one("strl %d %d" % (n, 7 * n)) for n in list(range(0, 300)) + [510, 511, 512, 1000, 4096, 16382, 16383, 16384, 16385, 40000, 65535]]
    cm += [one("str " + hx(bytes([x, y]))) for x in range(0, 256, 5) for y in (0, 1, 127, 128, 255)]
    cm += [one("str " + hx(r.randbytes(r.randrange(0, 200)))) for _ in range(ctx.pick(150, 3000))]
    cm += [one("strz " + hx(bytes(r.choice(b"ab\0") for _ in range(r.randrange(20))))) for _ in range(40)] + [one("strn 0"), one("strn 1"), one("null"), one("arr"), one("dict")] + [one("dictx %d %d" % (c, o)) for c in range(5) for o in range(2)]
    cm += [one("bool %d" % n) for n in (0, 1, 2, -1, 256, 65536, -256, 2147483647, -2147483648)]
    for t in range(2, 8):
        for w in [b"\0" * 8, b"\xff" * 8, bytes(range(8)), b"\0\0\0\x80\0\0\0\x80", b"\xff\xff\xff\x7f\xff\xff\xff\x7f", b"\0\0\x80\x7f\0\0\xf0\x7f", b"\1\0\0\0\1\0\0\0"] + [r.randbytes(8) for _ in range(ctx.pick(10, 300))]:
            if t == 6: x = struct.unpack("<I", w[:4])[0];  w = w if (x & 0x7fffffff) <= 0x7f800000 else b"\0" * 8
            if t == 7: x = struct.unpack("<Q", w)[0]; w = w if (x & (2**63 - 1)) <= 0x7ff << 52 else b"\0" * 8
            cm.append(one("num %d %s" % (t, hx(w))))
    cm += ["ask 0;dmp 0;bad 0;ini 0 null;fin 0;" + ";".join("ini 0 " + x for x in ("bool 1", "num 2 00", "num 3 00", "num 4 00", "num 5 00", "num 6 00", "num 7 00", "str 61", "strz 61", "strn 1", "arr", "dict", "dictx 1 1"))]
    cm += ["ini 1 arr;app 1;app 1;ask 1.i0;ini 1.i0 null;ask 1.i0;dmp 1;ini 1.i1 strl 3 3;fin 1.i1;dmp 1;ask 1.i1;ini 2 dict;add 2 61;ask 2.k61;ini 2.k61 null;ask 2.k61;goa 2 61;dmp 2"]
    # every kind re-initialised as every other kind
    kinds = ["null", "bool 1", "num 2 01020304", "num 5 ffffffffffffffff", "num 6 0000803f", "num 7 000000000000f03f", "strl 5 1", "strl 13 1", "strl 14 2", "strl 200 3", "arr", "dict", "dictx 1 1"]
    cm += ["ini 1 %s;ini 1 %s;ask 1;dmp 1;ini 2 arr;app 2;ini 2.i0 %s;ini 2.i0 %s;ask 2.i0;dmp 2" % (x, y, x, y) for x in kinds for y in kinds]
    ctx.conform(b, cm, "TraceValue", C, "every kind of value")
    ctx.conform(b, [forest(r, 60) for _ in range(ctx.pick(60, 1500))], "TraceValue", C, "nested values")
    ini = re.compile(r"(^|;)(ini|fin)[^;]*$")
    ctx.conform(b, [p + ";ask 1;dmp 1" for p in tree_paths(ctx, ctx.pick(3, 4), ctx.pick(3000, 60000), ini.search)], "TraceValue", C, "every initialisation in every small tree")
    ctx.conform(b, ["big %d %d" % x for x in [(0, 2), (1048575, 1), (0, 16), (1048575, 255), (0, 256), (5, 256), (1048575, 2047), (0, 2048), (3, 2048)] + ctx.pick([], [(1048575, 4095), (0, 4096), (77, 4100)])], "TraceValue", C, "huge strings", )

# ---- paths ---------------------------------------------------------------
WELL = re.compile(r"(/*([^/\[\]]+(?=[/\[]|$)|\[([+-][0-9]+|[0-9]*)\](?=[/\[]|$)))*/*$")
TREES = ["ini 1 dict;add 1 61;add 1 62;ini 1.k61 arr;app 1.k61;app 1.k61;app 1.k61;ini 1.k61.i0 dict;add 1.k61.i0 62;ini 1.k61.i0.k62 strl 3 1;ini 1.k61.i1 arr;app 1.k61.i1;ini 1.k61.i1.i0 bool 1;ini 1.k62 dict;add 1.k62 61;add 1.k62 30;ini 1.k62.k61 num 2 05000000",
         "ini 1 arr;app 1;app 1;ini 1.i0 dict;add 1.i0 61;add 1.i0 30;ini 1.i0.k61 arr;app 1.i0.k61;ini 1.i1 arr;app 1.i1;app 1.i1;ini 1.i1.i1 dict;add 1.i1.i1 61;ini 1.i1.i0 strl 20 7"]
NEWS = ["ini 1 arr;app 1", "ini 1 arr;app 1;ini 1.i0 null", "ini 1 dict;add 1 61;add 1 62;ini 1.k62 bool 1", "ini 1 strl 4 1", "ini 1 null"]
def strings(alpha, n): return ("".join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k))
def junk(ctx, op):
    """well-formed paths with one or two bracket steps that enclose something that is no number"""
    r = ctx.rng; J = ["[a]", "[0x1]", "[1x]", "[1_0]", "[ 1]", "[1 ]", "[--1]", "[+-1]", "[-+1]", "[-a]", "[1-]", "[1.0]", "[0,1]", "[1e0]", "[0b]", "[:1]", "[1/0]"[:2] + ";]", "[\\x31]", "[*]", "[\x011]", "[1\x7f]", "[\xb1]", "[0\xb2]", "[ ]", "[1:2]", "[0 0]", "[O]", "[?]"]
    out = []; W = ["a", "b", "[0]", "[1]", "[-1]", "zz", "[9]"] + (["[]"] if op == "bld" else [])
    J += ["[%s%s%s%s]" % (r.choice(["", "", "-", "+", "0"]), r.choice("123"), c, r.choice(["", "0", "1", "2"])) for c in "_', .:;eExXhlLuUoO+-*|#%$@!~^&=<>?a{}()\"`\t\n\x1f\x80\xa0\xff"]
    wide = "ini 1 arr;" + "app 1;" * 340
    for t in TREES + NEWS + [wide]:
        for j in J:
            c = [t]
            for pre in ["", "a", "[0]", "a[0]", "[1]", "/b"] + [r.choice(W) + "/" + r.choice(W) for _ in range(3)]:
                for post in ("", r.choice(["/a", "[0]", "[-1]/a", "/b/a", r.choice(J)])): c.append("%s 1 %s" % (op, hx((pre + j + post).encode("latin1"))))
            out.append(";".join(c + ["dmp 1"]))
    return out
@check("C18", "TLC validates lookups of every path string up to a length over an alphabet of keys, slashes, brackets, digits and signs on several trees, of paths rendered in many styles to every place of random trees and of damaged paths, against the specification's parse-and-step semantics; dumps show nothing changed.",
       ["the result of paths outside the documented syntax (an unclosed bracket, a bracket within a key, a sign alone) is not judged, only that nothing is modified"])
def c18(ctx):
    b = build(ctx); C = P("C18"); r = ctx.rng
    n = ctx.pick(5, 6)
    allp = ["".join(t) for t in strings("ab/[]01-", n)]; extra = [s for s in strings("a/[]0+", 6) if WELL.match(s) and "+" in s][:4000]
    allp += extra
    if not ctx.thorough: allp = [p for p in allp if WELL.match(p) or r.random() < .25]
    cm = []
    for tr in TREES:
        for i in range(0, len(allp), 400):
            cm.append(tr + ";" + ";".join("pth 1 " + hx(p.encode()) for p in allp[i:i + 400]) + ";dmp 1")
    ctx.conform(b, cm, "TraceValue", C, "every path string up to length %d" % n)
    def walk(k):
        return ";".join("ptx %s %d %d" % (addr(r, (1, 1, 2), 4), 0 if r.random() < .2 else r.randrange(1, 99999), 0 if r.random() < .4 else r.randrange(18)) for _ in range(k))
    def f():
        t = forest(r, 50).replace(";dmp 1;dmp 2;dmp 3;ask 1;ask 2", "")
        return t + ";" + walk(ctx.pick(40, 100)) + ";dmp 1;dmp 2"
    ctx.conform(b, [f() for _ in range(ctx.pick(120, 2500))] + [t + ";" + walk(150) + ";dmp 1" for t in TREES for _ in range(10)], "TraceValue", C, "every place of random trees, many styles")
    huge = []
    for z in (1, 2, 3, 10):
        t = "ini 1 arr;" + ";".join("app 1;ini 1.i%d num 3 %s" % (i, hx([i + 1] * 4)) for i in range(z))
        ns = [(1 << e) + d for e in (8, 16, 31, 32, 63, 64, 65, 66, 67, 70, 128) for d in range(-z - 1, z + 2)] + [10 ** k + d for k in range(1, 25) for d in (0, 1)] + list(range(0, z + 2))
        huge.append(t + ";" + ";".join("pth 1 " + hx(("[%s%s%d]" % (s, lead, x)).encode()) for x in ns for s in ("", "-", "+") for lead in ("", "000", "0" * r.choice([9, 10, 11, 19, 20, 21, 40, 300]))) + ";dmp 1")
    ctx.conform(b, huge, "TraceValue", C, "huge indices")
    ctx.conform(b, junk(ctx, "pth"), "TraceValue", C, "brackets around something that is no number")
    longkeys(ctx, b, "C18"); deep(ctx, b); sbig(ctx, b)
    ctx.conform(b, ["%s;pth 1 %s;pth 1 %s;pth 1 %s;pth 1 %s;pth 1 2f2f" % (s, "-", hx(b"a"), hx(b"[0]"), hx(b"/a/[0]")) for s in NEWS] + ["pth 0 -;pth 0 61;pth 0 %s;pth 0 2f" % hx(b"[0]")], "TraceValue", C, "other roots")

@check("C19", "TLC validates building every well-formed path string up to a length on several roots, and random builds on random trees: returned place, every created and every untouched value by full dumps, and that a lookup of the same path then finds the same place.")
def c19(ctx):
    b = build(ctx); C = P("C19"); r = ctx.rng
    n = ctx.pick(5, 6); ps = [p for p in strings("ab/[]01-", n) if WELL.match(p)]
    if not ctx.thorough: ps = [p for p in ps if len(p) < 5 or r.random() < .5]
    roots = [t for t in TREES + NEWS]
    cm = []
    for i, p in enumerate(ps):
        for t in [roots[i % 2], roots[2 + i % 5]] if not ctx.thorough else roots:
            a = "1.i0" if t == NEWS[0] and i % 2 else "1"
            cm.append(t + ";bld 1 %s;dmp 1;pth 1 %s;dmp 1" % (hx((("[0]/" if t in NEWS[:2] and i % 4 else "") + p).encode()), hx(p.encode())))
    ctx.conform(b, cm, "TraceValue", C, "every well-formed path up to length %d on several roots" % n)
    def f():
        out = [r.choice(["ini 1 arr", "ini 1 dict", "ini 1 dictx 1 1", "ini 1 arr;app 1"])]
        for _ in range(ctx.pick(30, 60)):
            x = r.random(); a = addr(r, (1,), 4)
            out.append("bdx %s %d %d" % (a, 0 if r.random() < .2 else r.randrange(1, 99999), r.choice([0, 0, 4, 9, 10, 11, 12, 13, 14, 14, 14, 4, 10, 15, 16, 17, 1, 2, 3, 5, 6, 7, 8])))
            if x < .2: out.append("ini %s %s" % (addr(r, (1,), 3) + ".*1", val(r)))
            elif x < .25: out.append("ini %s %s" % (addr(r, (1,), 3) + ".*1", cont(r)))
            elif x < .35: out.append("ptx %s %d 0" % (a, r.randrange(1, 999)))
            elif x < .5: out.append("dmp 1")
        return ";".join(out + ["dmp 1"])
    ctx.conform(b, [f() for _ in range(ctx.pick(150, 3000))], "TraceValue", C, "random builds on random trees")
    ctx.conform(b, junk(ctx, "bld"), "TraceValue", C, "brackets around something that is no number")
    lead = ["0" * k for k in (0, 1, 9, 10, 11, 19, 20, 21, 50)]
    ctx.conform(b, [t + ";" + ";".join("bld 1 " + hx(("%s[%s%s%d]" % (p, s, z, i)).encode()) for p in ("", "a") for s in ("", "-", "+") for z in lead for i in (0, 1, 2, 3, 4)) + ";dmp 1" for t in TREES + NEWS], "TraceValue", C, "zeros before an index")
    longkeys(ctx, b, "C19"); deep(ctx, b)
    ctx.conform(b, [vf.weave(r, f(), f()) for _ in range(ctx.pick(30, 400))], "TraceValue", C, "two at a time")
    words = ["a", "b", "cc", "[0]", "[]", "[-1]", "[1]", "[+0]", "[00]", "[-2]"]
    def g():
        out = [r.choice(NEWS + TREES)]; paths = []
        for _ in range(12):
            p = ""
            for _ in range(r.randrange(1, 6)):
                w = r.choice(words); p += ("/" if p and (w[0] != "[" or r.random() < .3) else "") + w
            q = hx((r.choice(["", "", "/", "[0]/" if "arr;app 1" in out[0] else ""]) + p).encode()); out += ["bld 1 " + q, "pth 1 " + q] + (["dmp 1"] if r.random() < .3 else [])
        return ";".join(out + ["dmp 1"])
    ctx.conform(b, [g() for _ in range(ctx.pick(300, 5000))], "TraceValue", C, "random paths")

@check("C20", "The driver accounts for every heap block; TLC validates that each release frees exactly the blocks the specification attributes to the released part and that nothing is left at the end, over random nested histories with an allocation failure at every position of recorded histories and at random places, with full dumps after failures.",
       ["a failed value_build_path may leave the steps it has already created (also an uninitialised step turned null); the check accepts exactly those intermediate trees"])
def c20(ctx):
    b = build(ctx); C = P("C20"); r = ctx.rng
    ctx.conform(b, [forest(r, r.choice([20, 60, 120])) for _ in range(ctx.pick(80, 2000))], "TraceValue", C, "nested histories, accounting")
    ctx.conform(b, [forest(r, r.choice([20, 60, 120]), 0.3) for _ in range(ctx.pick(150, 4000))], "TraceValue", C, "nested histories with failures")
    ctx.conform(b, [vf.weave(r, forest(r, 40, .1), dict_hist(r, r.randrange(1, 5), r.randrange(2), 60, keyset(r, 8), lambda r: "dmp 1", 5, .1)) for _ in range(ctx.pick(40, 600))], "TraceValue", C, "two at a time")
    # a failure at every allocation of a history
    sweep = []
    for h in ["ini 1 dictx 0 1;add 1 61;add 1 %s;goa 1 62;ini 1.*0 strl 50 1;drm 1 62;goa 1 %s;dmp 1;dcl 1;add 1 61;dmp 1" % (hx(b"q" * 40), hx(b"r" * 20)),
              "ini 1 arr;" + "app 1;" * 20 + "dmp 1;rng 1 2 17;dmp 1;ins 1 1;ini 1.*1 strl 60 3;ini 1.*0 arr;app 1.*0;ini 1.*0.*0 dict;add 1.*0.*0 61;dmp 1;acl 1;app 1;dmp 1",
              "ini 1 strl 50 1;ini 2 arr;ini 3 dict;app 2;add 3 61;ini 2.*0 strl 14 1;ini 2.*0 dictx 1 1;ini 3.*0 arr;dmp 1;dmp 2;dmp 3"]:
        for k in range(1, ctx.pick(40, 60)):
            for w in ("F", "FF"): sweep.append("%s %d;" % (w, k) + h + (";F 0;" + h if w == "FF" else ""))
    ctx.conform(b, sweep, "TraceValue", C, "a failure at every allocation")
    bl = []
    for root in NEWS + TREES:
        for p in ("a/b/c", "[]/a/[]/b", "b[0]", "a[]", "[0]/a[]/b/cccccccccccccccccccccc[]", "zzzzzzzzzzzzzzzzzzzzz/a[][][]/b", "[][][]", "[0][]/x"):
            for k in range(1, ctx.pick(8, 12)):
                for st in (0, 1): bl.append(root + ";bld 1 %s 0 0 %d %d;dmp 1;bld 1 %s;dmp 1;pth 1 %s" % (hx(p.encode()), k, st, hx(p.encode()), hx(p.encode())))
    ctx.conform(b, bl, "TraceValue", C, "a failure at every allocation of a build")
    ctx.conform(b, [dict_hist(r, i % 5, i // 5 % 2, r.choice([40, 150]), keyset(r, 20), lambda r: "dmp 1", 15, .15) for i in range(ctx.pick(40, 800))], "TraceValue", C, "dictionary histories with failures")
    ps = ctx.paths("ArrAlg", "INIT Init\nNEXT Next\nCONSTANTS MaxSize = 6 Points = 0\nVIEW view\nINVARIANT Refines\nACTION_CONSTRAINT PrintPath\n", "array storage refines the sequence")
    ctx.conform(b, ["ini 1 arr;" + mark(p) + ";dmp 1;ini 1.*0 strl 30 1;dmp 1;rng 1 0 1;dmp 1" for p in ps], "TraceValue", C, "array storage with failures")
    ps = tree_paths(ctx, ctx.pick(3, 4), ctx.pick(20000, 200000))
    ctx.conform(b, [p + ";dmp 1;fin 1" for p in ps], "TraceValue", C, "every operation in every small tree")
    ctx.conform(b, [failing(p) + ";dmp 1;" + p.split(";")[-1] + ";dmp 1" for p in ps if not ctx.thorough or r.random() < .5], "TraceValue", C, "every operation in every small tree, with a failure")

def numbers(ctx):
    r = ctx.rng; out = set(); m = ctx.pick(1, 12)
    def I(t, x): w = 4 if t in (2, 3) else 8; out.add((t, (x % (1 << 8 * w)).to_bytes(w, "little")))
    for t in range(2, 6):
        for k in range(0, 65):
            for d in (-2, -1, 0, 1, 2): I(t, (1 << k) + d); I(t, -(1 << k) + d)
        for _ in range(300 * m):      # random, of every length; around ties of float and double
            x = r.getrandbits(r.randrange(1, 65)); I(t, x); I(t, -x)
        for p in (24, 53):
            for k in range(p, 65):
                for _ in range(m): y = r.getrandbits(p) | 1 << (p - 1); h = 1 << (k - p) >> 1; I(t, (y << (k - p)) + h + r.choice([-1, 0, 1])); I(t, -((y << (k - p)) + h))
        I(t, 0)
    def B(t, bits): w = 4 if t == 6 else 8; out.add((t, (bits % (1 << 8 * w)).to_bytes(w, "little")))
    for t, f, x, bias in ((6, 23, 8, 127), (7, 52, 11, 1023)):
        top = 1 << (f + x)
        for k in list(range(-4, 70)) + [1 - bias, 2 - bias, bias, -30, 100, -100, 24, 25]:     # powers of two and their neighbours
            if not 1 - bias <= k <= bias: continue
            c = (k + bias) << f
            for d in (-2, -1, 0, 1, 2): B(t, c + d); B(t, c + d + top)
            for _ in range(4 * m): y = c + r.getrandbits(f); B(t, y); B(t, y + top)
            if 0 <= k < f:            # integers, halves, quarters, and their neighbours
                for _ in range(6 * m):
                    n = (1 << k) + r.getrandbits(k) if k else 1
                    for q in (n << 2, (n << 2) + 1, (n << 2) + 2, (n << 2) + 3):
                        sh = f - k - 2; y = ((k + bias) << f) + (((q << sh) if sh >= 0 else q >> -sh) & ((1 << f) - 1))
                        for d in (-1, 0, 1): B(t, y + d); B(t, y + d + top)
        for y in (0, 1, 2, 3, (1 << f) - 1, 1 << f, ((1 << x) - 1) << f, (((1 << x) - 1) << f) - 1, (((1 << x) - 1) << f) + 1, (((1 << x) - 1) << f) + (1 << (f - 1)), (1 << (f + x)) - 1): B(t, y); B(t, y + top)
        for _ in range(300 * m): B(t, r.getrandbits(1 + f + x))
        for v in (0.5, 0.49999997, 0.25, 0.75, 1.5, 2.5, 2147483647.0, 2147483648.0, 2147483647.5, 4294967295.0, 4294967295.5, 4294967296.0, 9007199254740991.0, 9007199254740993.0, 9223372036854775807.0, 18446744073709551615.0, -2147483648.5, -0.5, -0.75, -1.5):
            bits = int.from_bytes(struct.pack("<f" if t == 6 else "<d", v), "little")
            for d in (-1, 0, 1): B(t, bits + d); B(t, bits + d ^ top)
    # doubles around the rounding points and limits of float
    for _ in range(400 * m):
        e = r.choice([r.randrange(-160, 140), r.randrange(-152, -120), 127, 128, r.randrange(0, 64)])
        if not -1022 <= e <= 1023: continue
        y = ((e + 1023) << 52) + (r.getrandbits(23) << 29) + r.choice([0, 1 << 28, (1 << 28) - 1, (1 << 28) + 1, (1 << 29) - 1, r.getrandbits(29)])
        B(7, y); B(7, y + (1 << 63))
        z = r.randrange(0, 30); y = ((e + 1023) << 52) + ((r.getrandbits(23 - min(z, 23)) << (29 + min(z, 23))) + r.choice([0, 1 << (28 + z), (1 << (28 + z)) - 1, (1 << (28 + z)) + 1])) % (1 << 52)
        B(7, y)
    return sorted(out)
@check("C17", "The specification decodes two's complement and IEEE numbers into exact bit sequences and states compatibility, integer getters (exact, modulo, nearest), int-to-float and float/double conversions; TLC judges every getter of the code on all power-of-two edges, halves, ties, subnormals, infinities, NaNs and seeded random numbers of each type.",
       ["a float or double whose nearest integer the asked type cannot represent may read as anything", "NaN payloads are not judged"])
def c17(ctx):
    b = build(ctx); r = ctx.rng
    ns = numbers(ctx); ctx.log("%d numbers" % len(ns))
    cm = [";".join("N %d %s" % (t, hx(w)) for t, w in ns[i:i + 50]) for i in range(0, len(ns), 50)]
    ctx.conform(b, cm, "TraceNum", {}, "numbers of every type")
    ctx.conform(b, ["ini 1 %s;ask 1;ini 2 arr;app 2;ini 2.i0 %s;ask 2.i0;ask 2" % (k, k) for k in ["null", "bool 0", "bool 1", "arr", "dict", "dictx 1 1"] + ["strl %d 49" % n for n in range(20)]] + ["ask 0;ini 1 arr;app 1;ask 1.i0"], "TraceValue", P("C17"), "numeric getters of other kinds")
