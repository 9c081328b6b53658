"""C01: 8-byte reals."""
from fractions import Fraction
from symex.ctx import harness

ASSUMPTIONS = ["numpy.log2, where the code uses it, is modelled as any real function that takes the value of an integer j exactly where the installed numpy.log2 does (found by bisection, numpy.log2 being monotone)",
               "doubles are s*2^p with integer 2^52 <= s < 2^53 (normal numbers); scaling by powers of 16 is exact on them"]


def codec(cx):
    if cx.symbolic:
        cx.e.ideal_reals = False
    import importlib
    if cx.symbolic:
        from symex import loader
        m = loader.loader().load("gdspy.gdsiiformat")
    else:
        m = importlib.import_module("gdspy.gdsiiformat")
    return m._eight_byte_real, m._eight_byte_real_to_float


def pow2(cx, p):
    if cx.symbolic:
        return cx.core.SymNum({cx.core.ONE: Fraction(2) ** p})
    return 2.0 ** p


RANGES = [(-302, -245), (-244, -180), (-179, -110), (-109, -70), (-69, -30), (-29, 20), (21, 80), (81, 140), (141, 197)]


@harness("C01", RANGES, "all normal doubles s*2^p, 2^52<=s<2^53, with p in the configured range (together 2^-250 <= |x| <= 2^250), both signs", max_paths=100000)
def roundtrip(cx, rng):
    enc, dec = codec(cx)
    p = cx.int("p", *rng).__index__()
    s = cx.int("s", 2 ** 52, 2 ** 53 - 1)
    neg = cx.flag("neg")
    v = s * pow2(cx, p)
    if neg:
        v = -v
    b = enc(v)
    cx.check(len(b) == 8, "eight bytes")
    B = [x for x in b]
    cx.check((B[0] >= 128) == neg if not cx.symbolic else cx.core.sand(*[(B[0] >= 128) if neg else (B[0] < 128)]), "sign bit")
    cx.check(B[1] >= 16, "normalised mantissa")
    # value by the definition of the format, on a common scale
    e = B[0] - (128 if neg else 0)
    if cx.symbolic:
        e = e.__index__() if not isinstance(e, int) else e
    m = 0
    for x in B[1:]:
        m = m * 256 + x
    # m * 2^(4*(e-64)-56) == s * 2^p  <=>  integers on both sides
    k = 4 * (e - 64) - 56 - p
    lhs, rhs = (m * 2 ** k, s) if k >= 0 else (m, s * 2 ** -k)
    cx.check(lhs == rhs, "encoded value differs from the number")
    w = dec(b)
    if cx.symbolic:
        cx.check(w == v, "decoding the encoded number gives another number")
    else:
        cx.check(w == v, "decoding the encoded number gives another number")


@harness("C01", [None], "zero")
def zero(cx):
    enc, dec = codec(cx)
    for z in (0, 0.0, -0.0):
        b = enc(z)
        cx.check(len(b) == 8 and all(x == 0 for x in b), "zero is eight zero bytes")
        cx.check(dec(b) == 0, "eight zero bytes are zero")


@harness("C01", [(0, 63), (64, 127), (128, 191), (192, 255)], "all bytes; first byte in the configured range", max_paths=100000)
def decode(cx, rng):
    enc, dec = codec(cx)
    b0 = cx.int("b0", *rng).__index__()
    rest = [cx.int("b%d" % i, 0, 255) for i in range(1, 8)]
    w = dec(cx.tobytes([b0] + rest))
    m = 0
    for x in rest:
        m = m * 256 + x
    e = b0 % 128 - 64
    sign = -1 if b0 >= 128 else 1
    if cx.symbolic:
        cx.check(w == sign * m * pow2(cx, 4 * e - 56), "decoded value")
    else:
        want = Fraction(sign * m) * Fraction(2) ** (4 * e - 56)
        cx.check(abs(Fraction(w) - want) <= abs(want) / 2 ** 52, "decoded value")


@harness("C01", [None], "unit and precision of a library and the magnification and rotation of a reference survive a file, normal doubles with exponent near 0", max_paths=5000)
def through_file(cx):
    """The codec is really what the file writer and reader use."""
    enc, dec = codec(cx)
    s = cx.int("s", 2 ** 52, 2 ** 53 - 1)
    p = cx.int("p", -55, -50).__index__()
    v = s * pow2(cx, p)
    g = cx.gds
    lib = g.GdsLibrary("L")
    c, t = g.Cell("A", exclude_from_current=True), g.Cell("T", exclude_from_current=True)
    lib.add([c, t])
    t.add(g.CellReference(c, (0, 0), rotation=v, magnification=v))
    f = cx.bfile()
    lib.write_gds(f)
    f.seek(0)
    lib2 = g.GdsLibrary("M", infile=f)
    r = lib2.cells["T"].references[0]
    cx.check(r.rotation == v, "rotation in the file")
    cx.check(r.magnification == v, "magnification in the file")
