"""Long arguments: lengths on both sides of each power of two, where a counter of that
width would wrap, a block of that size end, or a cut-off of that size begin.  What decides
the answer stands behind the filler."""
import ucd
from gen import enc, hexb, hexc, puny

POWERS = [64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536]


def lengths(g, top=65536, per=1):
    out = []
    for b in POWERS:
        if b <= top:
            for _ in range(per if b > 2048 else 2 * per):
                out.append(b + g.r.choice([-2, -1, 0, 1, 2, 3, g.r.randint(4, 40)]))
    return out


def texts(g, n):
    """UTF-8: filler, then what is or is not well formed"""
    unit = g.pick([[0x61], [0xE9], [0x4E00], [0x1F600], [0x61, 0xE9, 0x4E00, 0x10000], [0x61] * 15 + [0xE9]])
    b = enc((unit * (n // len(unit) + 1))[:n])
    b += b"a" * g.r.randrange(4)
    return b + g.pick([b"", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xc0\xaf", b"\xc3\xa9", b"\xf0\x9f\x98\x80"]) + b"z" * g.r.randrange(3)


UNITS = [[0x61], [0xE9], [0x4E00], [0x1F600]]


def scalars(g, n):
    unit = g.pick([[0x61], [0xE9], [0x4E00], [0x1F600], [0x61, 0xE9, 0x4E00, 0x10000]])
    s = (unit * (n // len(unit) + 1))[:n]
    return s + g.pick([[], [0xD800], [0xDFFF], [0x110000], [0x10FFFF], [0xE9], [0xFFFFFFFF], [0x61]])


def mappable(g, n, by):
    """n is the length of what it maps to, roughly"""
    k = g.pick(sorted(by))
    unit = g.pick([[0x61], [0x41], [g.pick(by[k])], [g.pick(by[max(by)])], [0x61, g.pick(by[0])], [0x4E00, g.pick(by[1])], [g.pick(by[2]), 0x42]])
    per = sum(len(ucd.mapping(c)) if c in by["all"] else 1 for c in unit) if "all" in by else 1
    s = unit * max(1, n // max(1, per))
    return s + g.pick([[], [0x41], [0xAD], [0xD800], [0x110000], [g.pick(ucd.disallowed())], [0xFDFA], [0xE9]])


def normalisable(g, n):
    unit = g.pick([[0x61], [0x4E00], [0x61, 0x301], [0xE9], [0xAC00], [0x1100, 0x1161], [0x62, 0x323, 0x307]])
    if n > 20000:
        unit = g.pick([[0x61], [0x4E00], [0x61, 0x301], [0x65, 0x62]])
    s = unit * (n // len(unit)) + [0x61] * (n % len(unit))
    return s + g.pick([[0x65, 0x301, 0x323], [0x65, 0x323, 0x301], [0xE9, 0x327], [0x1100, 0x1161, 0x11A8], [0x212B], [0x958], [0x1E9B, 0x323], [0x301], [], [0x71, 0x307, 0x323]]) + g.pick([[], [0x61], [0x301]])


def marks(g, n):
    """one base with n marks, all but a few of the same class, in and out of order"""
    hi, lo = g.pick([(0x301, 0x323), (0x307, 0x327), (0x64B, 0x3099), (0x345, 0x301), (0x301, 0x334)])
    k = n // 2
    return [g.pick([0x61, 0x65, 0x4E00, 0x71, 0x1100])] + g.pick([[hi] * n + [lo], [lo] * n + [hi], [hi] * k + [lo] * min(k, 200), [hi] + [lo] * n, [hi] * n]) + g.pick([[], [0x61], [0x65, 0x301]])


KINDS = 14


def labels(g, n, x=None):
    r = g.r
    al, rr = g.sel(bidi=ucd.BAL, mark=0, join=ucd.JD), g.sel(bidi=ucd.BR, mark=0)
    nsm = g.pick([0x901, 0x941, 0xB82])     # transparent, class 0
    vir = 0x94D
    x = r.randrange(KINDS) if x is None else x
    if x == 0:
        return [0x61] * n + [g.pick([rr, al, 0x661])]                  # a late right-to-left character
    if x == 1:
        return [rr] * n + [g.pick([0x61, 0x31, 0x661, rr, 0x2D])]       # a late left-to-right one, or an end that is or is not allowed
    if x == 2:
        return [al, 0x31] + [al] * n + [g.pick([0x661, 0x32, al])]      # European and Arabic digits far apart
    if x == 3:
        return [0x61] * n + g.pick([[0x200C], [0x200D], [0x200C, 0x61], [0x200D, 0x61]])
    if x == 4:
        return [0x915] * n + g.pick([[vir, 0x200D], [vir, 0x200C], [0x200D], [0x200C, 0x915], [vir, 0x200C, 0x915]])
    if x == 5:
        return [0x628] + [nsm] * n + [0x200C] + g.pick([[0x628], [0x61], [nsm, 0x627], []])
    if x == 6:
        return [g.pick([0x628, 0x627])] + [0x200C] + [nsm] * n + g.pick([[0x628], [0x627], [0x61], []])
    if x == 7:
        return g.pick([[rr], [0x61], [al], [rr, 0x21], [0x61, rr]]) + [nsm] * n     # the end is before the marks
    if x == 8:
        return [nsm] + [0x61] * n
    if x == 9:
        return [rr] + [0x31] * n + [g.pick([0x21, 0x31, rr, 0x61])]
    if x == 10:
        return ([0x628, 0x200C] * (n // 2)) + g.pick([[0x628], [0x61], []]) if n < 3000 else [0x4E00] * n
    if x == 11:
        return [0x31] * n + [g.pick([rr, 0x61, 0x661])]
    if x == 12:
        return [0x4E00] * n + [g.anyvalid()]
    return [rr] * (n // 2) + g.pick([[0x61], [0x31], [0x661], [0x31, 0x661], [rr]]) + [rr] * (n // 2)


def encodable(g, n):
    a, b = g.pick([0xE9, 0x4E00, 0x10FFFF, 0x80]), g.pick([0xFC, 0x5D0, 0x1F600])
    return g.pick([[0x61] * n + [a, b], [a] + [0x61] * n, [a] * n, [a] * n + [0x61], [0x61] * (n // 2) + [a] + [0x2D] * (n // 2), [a] * (n // 2) + [b] * (n // 2), [b, 0x61] * (n // 2), [0x61] * n + [g.pick([0xD800, 0x110000])]])


def points(n):
    """so many code points that the number of points of the bias would leave a narrow type;
    the digits behind the first show the bias"""
    return [0x61] * n + [0xE9, 0xFC, 0x100]


def deciding(n):
    """labels in which what decides stands on the other side of n transparent marks or digits"""
    nsm = [0x901] * n
    return [[0x5D0] + nsm, [0x61] + nsm, [0x5D0, 0x21] + nsm, [0x61, 0x5D0] + nsm, [0x5D0, 0x61] + nsm,
            [0x628] + nsm + [0x200C, 0x628], [0x627] + nsm + [0x200C, 0x628], [0x628, 0x200C] + nsm + [0x628], [0x628, 0x200C] + nsm + [0x627], [0x628, 0x200C] + nsm,
            [0x5D0] + [0x31] * n, [0x5D0, 0x661] + [0x5D0] * n + [0x31], [0x61] * n + [0x5D0], [0x915] * n + [0x94D, 0x200D], [0x915] * n + [0x200D]]


def domains(g, n):
    """within the limit of 16384 bytes where n allows"""
    out = []
    e = g.pick(["\u00e9", "\u05d0", "\u4e2d", "e\u0301", "\U0001f600", "\u00c9", "\uff21"])
    filler = g.pick([b"a", b".", b"a.", b"A", b"-", "\u00ad".encode(), "\u30a2".encode(), "\u00fc".encode(), "\u3316".encode(), b"xn--tda."])
    k = max(0, (min(n, 16384) - 24) // len(filler))
    tail = g.pick([e.encode(), b"." + e.encode(), b".xn--tda." + e.encode(), e.encode() + b".xn--a", e.encode() + b".xn--TDA", b"." + e.encode() + b"." + "\u0301".encode(),
                   "\u05d0a".encode(), b"." + "\u05d01".encode() + b".", "\u200d".encode() + b"." + e.encode(), b"%" + e.encode(), b"\xff", "\ud7a4".encode()])
    out.append("A " + hexb(filler * k + tail))
    out.append("A " + hexb(tail + b"." + filler * k if g.r.random() < 0.5 else e.encode() + filler * k + tail))
    return out


def unicodes(g, n):
    n = min(n, 16384) - 40
    p = puny([0x61] * (n // 2) + [0xE9]) if g.r.random() < 0.5 else puny([0xE9] * (n // 2))
    filler = g.pick([b"a", b".", "\u00e9".encode(), b"xn--tda.", b"\xff", b"A"])
    k = n // len(filler)
    return ["U " + hexb(g.pick([b"xn--" + p, b"xn--" + p + b".xn--tda", b"xn--tda." + filler * k, filler * k + g.pick([b".xn--tda", b"xn--tda", b".xn--a", b".xn--TDA.xn--tda", b".xn--tda."]),
                                b"xn--" + filler * k, b"xn--" + b"a" * n + g.pick([b"-e1a", b"-", b"\xc3\xa9"])]))]


def filled(k, units, tails):
    """every tail behind k elements of every unit"""
    for u in units:
        w = (u * (k // len(u) + 1))[:k - k % len(u)]
        for v in tails:
            yield w + v


def refused():
    """a label refused for each reason, as A-labels and as U-labels"""
    u = [[0x301, 0xE9], [0x61, 0x200D], [0x5D0, 0x61], [0xC9], [0x65, 0x301, 0xE9], [0x2260, 0x338], [0x61, 0x62]]
    return [b"xn--" + puny(x) for x in u] + [b"xn--a-", b"xn--zz", b"xn--99999999"] + [enc(x) for x in u[:3]] + [b"xn--" + enc([0xE9])]
