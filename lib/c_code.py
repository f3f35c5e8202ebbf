from checks import check
import vf, itertools
def hx(b): return bytes(b).hex() or "-"
def build(ctx): return ctx.build("code", "code_drv.c", ["encode/base64.c", "encode/hex.c"], ["-I" + vf.REPO])
OPTS = ["def", "2b2f3d", "2d5f00", "2d5f3d", "2b2f00", "2e5f2d", "80ff3d", "2b2ffd", "c3a90a", "fe8080"[:4] + "00", "017f3d", "2b2c00", "215f7e", "ff80fe"]
def alpha(o):
    if o == "def": o = "2b2f3d"
    b = bytes.fromhex(o); return b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789" + b[:2], b[2]
def enc(o, d):
    import base64 as B
    a, p = alpha(o); t = bytearray()
    for i in range(0, len(d), 3):
        g = d[i:i + 3]; v = int.from_bytes(g + b"\0" * (3 - len(g)), "big")
        t += bytes(a[v >> s & 63] for s in (18, 12, 6, 0))[:len(g) + 1] + (bytes([p]) * (3 - len(g)) if p else b"")
    return bytes(t)
def pack(cmds, n=60): return [";".join(cmds[i:i + n]) for i in range(0, len(cmds), n)]
MC = 'INIT Init\nNEXT Next\nINVARIANT Inverse\nCONSTANTS Bs = {0, 1, 3, 15, 16, 64, 127, 128, 200, 255} Cs = {43, 47, 61, 65, 66, 81, 103, 119, 65, 0, 255} MaxB = %d MaxT = %d\n'
@check("C21", "TLC checks on every short input that the specification's encoder and decoder are inverse; encodings and decodings by the code of all lengths, byte values, option sets and output capacities (and sizes asked for huge inputs) are validated by TLC against RFC 4648 as specified.",
       ["option sets whose special characters clash with each other or the alphabet are out of scope", "inputs up to 70,000 bytes for content, size queries up to 2^32-1"])
def c21(ctx):
    b = build(ctx); r = ctx.rng
    ctx.model("MCBase64", MC % (ctx.pick(4, 5), ctx.pick(4, 5)), "encoder and decoder specifications are inverse on every short input")
    cm = []
    for o in OPTS:
        for n in range(0, ctx.pick(14, 40)):
            d = r.randbytes(n); need = len(enc(o, d))
            for cap in [-1] + list(range(max(0, need - 6), need + 4)) + [0, 1, 2, 1000]: cm.append("e %d %s %s" % (cap, o, hx(d)))
            cm.append("ed %d %s %s" % (r.randrange(3), o, hx(d)))
            for cap in [-1, 0, 1] + list(range(max(0, n - 4), n + 4)): cm.append("d %d %s %s" % (cap, o, hx(enc(o, d))))
    ctx.conform(b, pack(cm), "TraceBase64", {}, "every capacity around the need, all option sets")
    cm = []
    for x in range(256):     # every byte value in every position, every six-bit value in every position
        for o in ("def", "80ff3d") if not ctx.thorough else OPTS:
            for d in ([x], [x, 0], [0, x], [x, 255, 0], [255, x, 0], [0, 255, x], [1, 2, 3, x], [1, 2, 3, 4, x], [1, 2, 3, x, x ^ 255]): cm.append("ed %d %s %s" % (x % 3, o, hx(d)))
    for _ in range(ctx.pick(1500, 30000)): cm.append("ed %d %s %s" % (r.randrange(3), r.choice(OPTS), hx(r.randbytes(r.choice([r.randrange(9), r.randrange(70)])))))
    ctx.conform(b, pack(cm), "TraceBase64", {}, "every byte value, random strings")
    ctx.conform(b, ["el %d %s %d %d" % (n % 2, o, n, r.randrange(1, 255)) for n in (63, 64, 65, 191, 192, 193, 255, 256, 257, 1023, 3000, 4095) + tuple(ctx.pick((), (16384, 49153, 65535))) for o in ("def", "2d5f00", "ff80fe")], "TraceBase64", {}, "long strings", )
    ns = sorted({max(0, min(2**32 - 1, x + d)) for x in (0, 1, 1000, 2**16, 2**24, 2**29, 2**30, 1610612733, 1610612736, 2**31, 2147483648 + 2**20, 3221225469, 3221225472, 2**32 - 1) for d in range(-4, 5)})
    ctx.conform(b, pack(["sz %d %s" % (n, o) for n in ns for o in ("def", "2d5f00")]), "TraceBase64", {}, "sizes of huge inputs")

@check("C22", "Every text of up to four characters over an alphabet of valid, padding and foreign characters, every byte value at every position, every damaged padding and every left-over bit pattern is decoded by the code (exact-size buffers under ASan) and TLC validates acceptance and result against the specification.",
       ["as documented, correct padding may be present or absent", "option sets whose special characters clash with each other or the alphabet are out of scope"])
def c22(ctx):
    b = build(ctx); r = ctx.rng
    ctx.model("MCBase64", MC % (2, ctx.pick(4, 5)), "the decoder specification accepts exactly canonical texts")
    cm = []
    for o in ("def", "2d5f00", "ff80fe"):
        a, p = alpha(o); al = bytes([65, 66, 81, 119, a[62], a[63], p or 61, 0, 200, 45])
        for n in range(5):
            for t in itertools.product(al, repeat=n):
                if n < 4 or ctx.thorough or r.random() < .25: cm.append("d %d %s %s" % (r.choice([-1, 3, 3, 2]), o, hx(t)))
    ctx.conform(b, pack(cm, 200), "TraceBase64", {}, "every short text over a small alphabet")
    cm = []
    for o in OPTS:
        base = [enc(o, bytes(range(i, i + n))) for n in (1, 2, 3, 4, 5, 6, 7) for i in (0, 200)]
        for x in range(256):
            t = bytearray(r.choice(base)); t[r.randrange(len(t))] = x; cm.append("d %d %s %s" % (r.choice([-1, 10]), o, hx(t)))
            t = bytearray(r.choice(base)); cm.append("d 10 %s %s" % (o, hx(bytes([x]) + t[1:]))); cm.append("d 10 %s %s" % (o, hx(t[:-1] + bytes([x]))))
            cm.append("d 10 %s %s" % (o, hx(t + bytes([x])))); cm.append("d 1 %s %s" % (o, hx(bytes([x])))); cm.append("d 3 %s %s" % (o, hx(bytes([x] * 4))))
        a, p = alpha(o)
        for c in a: cm += ["d 9 %s %s" % (o, hx(bytes([65, c]) + q)) for q in (b"", bytes([p or 61]) * 2)] + ["d 9 %s %s" % (o, hx(bytes([66, 67, c]) + q)) for q in (b"", bytes([p or 61]))]
        P = bytes([p or 61])
        for n in range(0, 8):          # padding in every number and place
            t = enc(o, r.randbytes(n)).rstrip(P)
            for k in range(0, 6): cm.append("d 20 %s %s" % (o, hx(t + P * k))); cm.append("d 20 %s %s" % (o, hx(t + P * k + b"AAAA"))); cm.append("d 20 %s %s" % (o, hx(P * k + t)))
            for i in range(len(t)): cm.append("d 20 %s %s" % (o, hx(t[:i] + P + t[i + 1:]))); cm.append("d 20 %s %s" % (o, hx(t[:i] + P + t[i:])))
    for _ in range(ctx.pick(1500, 40000)):
        o = r.choice(OPTS); t = bytearray(enc(o, r.randbytes(r.randrange(30))))
        for _ in range(r.randrange(4)):
            x = r.random()
            if t and x < .4: t[r.randrange(len(t))] = r.choice([r.randrange(256), alpha(o)[1], r.choice(alpha(o)[0])])
            elif t and x < .7: del t[r.randrange(len(t))]
            else: t.insert(r.randrange(len(t) + 1), r.choice([r.randrange(256), alpha(o)[1] or 61]))
        cm.append("d %d %s %s" % (r.choice([-1, 40, 40, r.randrange(30)]), o, hx(t)))
    ctx.conform(b, pack(cm), "TraceBase64", {}, "damaged texts")
    ctx.conform(b, ["hd %d" % q for q in ctx.pick([1000], [1000, 536870911, 715827883])], "TraceBase64", {}, "huge texts")

@check("C23", "Hex encodings of every byte value, both cases and every capacity, and decodings of every one- and two-character text over all 256 byte values, every byte at every position of longer texts, and every capacity, are validated by TLC against the definition.")
def c23(ctx):
    b = build(ctx); r = ctx.rng; cm = []
    for low in (0, 1, -1, 256):
        cm += ["xe %d %d %02x" % (c, low, x) for x in range(256) for c in (2,)]
        for n in range(0, 20):
            d = hx(r.randbytes(n)); cm += ["xe %d %d %s" % (c, low, d) for c in [-1] + list(range(max(0, 2 * n - 4), 2 * n + 4)) + [0, 1]]
    for x in range(256): cm += ["xd %d %02x" % (c, x) for c in (-1, 0, 1)]
    pairs = [(x, y) for x in range(256) for y in range(256)]
    if not ctx.thorough: pairs = [(x, y) for x, y in pairs if r.random() < .08 or x in b"0Aaf9Fg:@G`/" or y in b"0Aaf9Fg:@G`/"]
    cm += ["xd %d %02x%02x" % (r.choice([1, 1, 2]), x, y) for x, y in pairs]
    for x in range(256):
        for n in (4, 6, 11, 16):
            t = bytearray(r.choice(b"0123456789abcdefABCDEF") for _ in range(n)); t[r.randrange(n)] = x; cm.append("xd %d %s" % (r.choice([8, n // 2]), hx(t)))
    for n in range(0, 20):
        t = bytes(r.choice(b"0123456789abcdefABCDEF") for _ in range(n)); cm += ["xd %d %s" % (c, hx(t)) for c in range(-1, n // 2 + 3)]
    for _ in range(ctx.pick(500, 20000)): t = bytes(r.choice(b"0123456789abcdefABCDEF") for _ in range(r.randrange(200))); cm.append("xd %d %s" % (r.choice([-1, 100, len(t) // 2]), hx(t)))
    for n in (100, 127, 128, 129, 255, 256, 1000, 40000): cm += ["xe %d %d %s" % (c, n % 2, hx(r.randbytes(n))) for c in (2 * n, 2 * n + 1, 2 * n - 1)]
    ctx.conform(b, pack(cm, 100), "TraceHex", {}, "hexadecimal texts")
    ns = sorted({max(0, min(2**32 - 1, x + d)) for x in (0, 1000, 2**16, 2**29, 2**30, 2**31, 2**32 - 1, 3 * 2**30) for d in range(-3, 4)})
    ctx.conform(b, pack(["xs %d" % n for n in ns]), "TraceHex", {}, "sizes of huge inputs")
