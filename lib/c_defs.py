from checks import check
from c_code import pack
import vf, itertools
RANGE = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "long": (-2**63, 2**63 - 1), "f64": (-2**44, 2**44), "f32": (-2**22, 2**22)}
MIX = {"ptrdiff": ("i64", "i64", "i32"), "mix1": ("i16", "i32", "i64"), "mix2": ("u32", "i64", "u8"), "mix3": ("i32", "f64", "f32"), "mix4": ("i8", "u8", "u16")}
def edges(lo, hi): return sorted({v for v in (lo, lo + 1, -2, -1, 0, 1, 2, 7, hi // 2, hi // 2 + 1, hi - 1, hi) if lo <= v <= hi})
@check("C31", "TLC checks the laws of the macros' meanings (extremes, clamping, absolute value, C structure layout); then the macros are evaluated by code compiled from misc/defs.h on every triple of edge values of every operand type and mix of types, on operands that are expressions of every precedence, inside larger expressions, on structures, unions, packed and nested layouts and on arrays; TLC validates every result.",
       ["operands without side effects", "floating-point operands are multiples of 1/8, without NaN", "x86-64 structure layout"])
def c31(ctx):
    r = ctx.rng
    try: ctx.build("probe", "defs_drv.c", [], ["-I" + vf.REPO], asan=False)
    except vf.Err as e:      # is it the macros, used as they may be, that no longer compile?
        ctx.build("probe2", "defs_drv.c", [], ["-I" + vf.REPO, "-DPREDEFINED"], asan=False)
        raise vf.Violation("a permitted use of a macro does not compile", {"commands": "gcc defs_drv.c", "event": str(e)[:3000]})
    inc = ["-I" + vf.REPO]
    bins = [(ctx.build("defs" + k, "defs_drv.c", [], inc + f, asan=False, **o), k or "plain") for k, f, o in (("", [], {}), ("_stddef", ["-DWITH_STDDEF"], {"opt": "-O2"}), ("_clang", [], {"cc": "clang", "opt": "-O0"}), ("_plain", ["-DNOGNU"], {}))]
    pre = ctx.build("defs_pre", "defs_drv.c", [], inc + ["-DPREDEFINED"], asan=False)
    ctx.model("MCDefs", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANTS Small = {%s} Edge = {%s}\n" % (ctx.pick("0, 1, 3, 7", "0, 1, 2, 3, 7, 127, 128, 255, 16777216"), ctx.pick("0, 1", "0, 1, 2, 16777216")), "laws of the macros' meanings")
    cm = []
    for t, (lo, hi) in RANGE.items():
        e = edges(lo, hi); tr = list(itertools.product(e, repeat=3))
        if not ctx.thorough and len(tr) > 400: tr = r.sample(tr, 400)
        cm += ["n %s %d %d %d" % ((t,) + x) for x in tr] + ["n %s %d %d %d" % (t, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)) for _ in range(ctx.pick(60, 3000))]
    for t, ts in MIX.items():
        tr = list(itertools.product(*[edges(*RANGE[x]) for x in ts]))
        if not ctx.thorough and len(tr) > 400: tr = r.sample(tr, 400)
        cm += ["n %s %d %d %d" % ((t,) + x) for x in tr]
    small = [(a, b, c) for a in range(-3, 4) for b in range(-3, 4) for c in range(-3, 4)]
    cm += ["fm %d %d %d" % x for x in small] + ["fm %d %d %d" % tuple(r.randint(-2**27, 2**27) for _ in "abc") for _ in range(ctx.pick(200, 5000))]
    cm += ["cx %d %d %d" % x for x in small] + ["cx %d %d %d" % tuple(r.randint(-2**27, 2**27) for _ in "abc") for _ in range(ctx.pick(200, 5000))]
    cm += ["of %d %d %d" % (l, m, at) for l in range(1, 12) for m in range(1, 7) for at in (0, 1, 5)] + ["ar", "st"]
    ctx.conform(bins[0][0], pack(cm, 40), "TraceDefs", {}, "operands, expressions, layouts, arrays")
    for b, k in bins[1:]: ctx.conform(b, pack(cm if ctx.thorough else cm[::3] + cm[-150:], 40), "TraceDefs", {}, "the same (%s)" % k.strip("_"))
    bx = ctx.build_cxx("defs_cxx", "defs_drv.c", [], inc)
    if bx: ctx.conform(bx, pack(cm[::3] + cm[-150:], 40), "TraceDefs", {}, "used from C++")
    ctx.conform(pre, ["pre"], "TraceDefs", {}, "macros defined beforehand")
