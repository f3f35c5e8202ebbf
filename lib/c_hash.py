from checks import check
from c_code import pack, hx
import vf
SRC = ["hash/crc32.c", "hash/fnv1a.c"]
def build(ctx): return ctx.build("hash", "hash_drv.c", SRC, ["-I" + vf.REPO]), ctx.build("hashfast", "hash_drv.c", SRC, ["-I" + vf.REPO], asan=False, opt="-O2"), ctx.build("hashslow", "hash_drv.c", SRC, ["-I" + vf.REPO], asan=False, opt="-O0")
def sparse(r, cmd, n):
    """Bytes before, at and behind every boundary at which a length or an index may wrap around."""
    l = ["%s %d %s" % (cmd, z, hx(r.randbytes(5))) for z in (0, 65531, 65536, 2**24 + 1, 2**31 - 3, 2**31, 2**32 - 2, 2**32)]
    l += ["%s 3 %s %d %s" % (cmd, hx(r.randbytes(4)), z, hx(r.randbytes(2))) for z in (2**16 - 7, 2**31 - 7, 2**32 - 7, 2**32)]
    for _ in range(n): l.append(cmd + "".join(" %d %s" % (r.choice([r.randrange(100), r.randrange(2**20), 2**30, r.randrange(2**31)]), hx(r.randbytes(r.randrange(1, 9)))) for _ in range(4)))
    return l
def crc_state(data):
    """register after the bytes (only used to steer the inputs)"""
    import zlib
    return zlib.crc32(data) ^ 0xffffffff
def steered(ctx, r):
    """messages on whose way the register takes a special value, with special bytes behind it"""
    st = [0, 0xffffffff, 1, 0x80000000, 0x7fffffff, 0xff, 0xff000000, 0xffffff00, 0x00ffffff, 0xffff, 0xffff0000, 0xedb88320, 0x04c11db7, 0xdebb20e3, 0x2144df1c]; cm = []
    for v in st + [r.getrandbits(32) for _ in range(3)]:
        for n in (0, 1, 3, 4, 8, 60, 64, 250, 255, 256, 508, 512, 1020, 1500) + ctx.pick((), (4092, 8192, 65532)):
            d = r.choice([r.randbytes(n), bytes(n), b"\7" * n])
            # four bytes that bring the register to v: run the register backwards over four table steps
            T = [0] * 256
            for i in range(256):
                c = i
                for _ in range(8): c = c >> 1 ^ (0xedb88320 if c & 1 else 0)
                T[i] = c
            inv = {T[i] >> 24: i for i in range(256)}; w = v; idx = []
            for _ in range(4):
                i = inv[w >> 24]; idx.append(i); w = ((w ^ T[i]) << 8) & 0xffffffff
            c = crc_state(d); x = b""
            for i in reversed(idx): b = (c ^ i) & 255; x += bytes([b]); c = c >> 8 ^ T[i]
            assert c == v
            m = r.choice([0, 1, 2, 7, 8, 30, 64]); t = r.choice([bytes(m), bytes(m), b"\xff" * m, r.randbytes(m)])
            cm.append("c %d %s" % (r.randrange(8), hx(d + x + t) or "-"))
    return cm
SET = "{" + ", ".join(map(str, (0, 1, 49, 127, 128, 200, 255))) + "}"
BASES = {32: ["811c9dc5", "0", "ffffffff", "1", "80000000", "12345678"], 64: ["cbf29ce484222325", "0", "ffffffffffffffff", "1", "8000000000000000", "123456789abcdef0", "811c9dc5"]}
@check("C24", "TLC checks that the specification's table form equals polynomial long division; then every one-byte string, two-byte strings, every table index at several depths, random strings at every alignment and runs of more than 2^31 and 2^32 zero bytes are run through the code and TLC compares each checksum.",
       ["non-zero content within 70,000 bytes of runs of zero bytes"])
def c24(ctx):
    b, fast, slow = build(ctx); r = ctx.rng
    ctx.model("MCCrc32", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANTS Bs = %s MaxL = %d MaxZ = %d\n" % (SET, ctx.pick(3, 4), ctx.pick(9, 40)), "table form, shift register and polynomial remainder agree; residue; runs of zeros")
    cm = ["cn", "c 0 -"] + ["c %d %02x" % (x % 8, x) for x in range(256)]
    pairs = [(x, y) for x in range(256) for y in range(256)]
    cm += ["c %d %02x%02x" % (x & 3, x, y) for x, y in (pairs if ctx.thorough else r.sample(pairs, 6000))]
    for x in range(256): cm += ["c %d %s" % (r.randrange(8), hx(r.randbytes(n) + bytes([x]) + r.randbytes(m))) for n, m in ((2, 0), (3, 2), (4, 0), (7, 5), (0, 9))]
    for n in range(0, ctx.pick(140, 600)): cm += ["c %d %s" % (o, hx(r.randbytes(n))) for o in range(0, 8, ctx.pick(3, 1))]
    cm += ["cg %d %d %d" % (r.randrange(8), n, r.randrange(1 << 30)) for n in (255, 256, 257, 1000, 1023, 4095, 4096, 4097, 5552, 5553, 20000) + tuple(ctx.pick((), (65535, 65536, 65537, 70000)))]
    ctx.conform(b, pack(cm, 100), "TraceHash", {}, "checksums")
    ctx.conform(b, pack(steered(ctx, r), 40), "TraceHash", {}, "messages that bring the register to special values")
    ns = [0, 1, 2, 100, 65535, 65536, 2**24 + 7] + [2**31 - 1, 2**31, 2**31 + 5] + ctx.pick([], [2**32 - 1, 2**32, 2**32 + 11, 3 * 2**32 + 1])
    ctx.conform(fast, ["cz %d" % n for n in ns], "TraceHash", {}, "long runs of zeros")
    ctx.conform(fast, sparse(r, "cr", ctx.pick(3, 12)), "TraceHash", {}, "bytes scattered over up to 8 GiB of zeros")
    ctx.conform(slow, ["cz %d" % n for n in ctx.pick([2**31 + 5], [2**31 - 1, 2**31, 2**31 + 5, 2**32 + 11])], "TraceHash", {}, "long runs of zeros, built without optimisation")

@check("C25", "TLC checks the specification's arithmetic; then every byte from many bases, random strings at every alignment, every cut of short strings and random cuts of long ones, and runs of more than 2^32 zero bytes are hashed by the code with both widths and TLC compares each result.",
       ["non-zero content within 70,000 bytes of runs of zero bytes"])
def c25(ctx):
    b, fast, slow = build(ctx); r = ctx.rng
    ctx.model("MCFnv", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANTS Bs = %s MaxL = %d\n" % (SET, ctx.pick(3, 4)), "modular multiplication, composition over pieces, runs of zeros")
    cm = ["fb"]
    for w in (32, 64):
        for base in BASES[w]:
            cm += ["fn %d %s" % (w, base), "f %d %s 0 -" % (w, base)] + ["f %d %s %d %02x" % (w, base, x % 8, x) for x in range(256)]
        base = BASES[w][0]
        for n in range(0, ctx.pick(80, 400)): cm += ["f %d %s %d %s" % (w, r.choice([base, "%x" % r.getrandbits(w)]), o, hx(r.randbytes(n))) for o in range(0, 8, ctx.pick(3, 1))]
        cm += ["f %d %x %d %s" % (w, r.getrandbits(w), r.randrange(8), hx(r.randbytes(r.randrange(12)))) for _ in range(ctx.pick(1500, 30000))]
        m = 1 << w; inv = pow(16777619 if w == 32 else 1099511628211, -1, m)
        for t in (0, 1, m - 1, m >> 1, int(base, 16), 0xff, m - 256, 0xffffffff, r.getrandbits(w)):      # a hash of t on the way
            for y in (0, 1, 255, r.randrange(256)):
                d = bytes([y]) + r.choice([b"", bytes(9), b"\xff" * 5, r.randbytes(20), bytes(300), r.randbytes(300)])
                cm.append("f %d %x %d %s" % (w, (t * inv % m) ^ y, r.randrange(8), hx(d)))
                z = r.randbytes(r.choice([3, 60, 600])); h = (t * inv % m) ^ y
                for q in reversed(z): h = (h * inv % m) ^ q
                cm.append("f %d %x %d %s" % (w, h, r.randrange(8), hx(z + d)))
        for n in range(0, 7):          # every cut into three pieces
            d = hx(r.randbytes(n)); cm += ["fc %d %s %s %d %d" % (w, base, d, i, j) for i in range(n + 1) for j in range(i, n + 1)]
        cm += ["fc %d %x %s %s" % (w, r.getrandbits(w), hx(r.randbytes(60)), " ".join(map(str, sorted(r.randrange(61) for _ in range(r.randrange(1, 7)))))) for _ in range(ctx.pick(60, 2000))]
        cm += ["fg %d %s %d %d %d" % (w, base, r.randrange(8), n, r.randrange(1 << 30)) for n in (255, 256, 257, 1024, 4097) + tuple(ctx.pick((), (20000, 65536, 70000)))]
    ctx.conform(b, pack(cm, 100), "TraceHash", {}, "hashes and chained hashes")
    for w in (32, 64): ctx.conform(fast, sparse(r, "fr %d %x" % (w, r.getrandbits(w)), ctx.pick(2, 10)), "TraceHash", {}, "bytes scattered over up to 8 GiB of zeros")
    ctx.conform(slow, ["fr %d 1 %d %s" % (w, 2**31 + 3, hx(r.randbytes(3))) for w in (32, 64)], "TraceHash", {}, "the same, built without optimisation")
    ns = [0, 1, 5, 65535, 65536, 2**24 + 7] + ctx.pick([2**32 + 3], [2**31 - 1, 2**31, 2**31 + 3, 2**32 - 1, 2**32, 2**32 + 3, 2**33 + 5])
    ctx.conform(fast, ["fz %d %s %d" % (w, bb, n) for n in ns for w, bb in ((32, "811c9dc5"), (64, "cbf29ce484222325"))], "TraceHash", {}, "long runs of zeros")
