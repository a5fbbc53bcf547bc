"""One function per property: which models TLC checks and which inputs are
driven through the real library and back into TLC.  All random choices come
from VERIF_SEED."""
import itertools, json, os, random
import gen, long, ucd, vf
from gen import G, enc, hexb, hexc, puny

S = vf.SEED


def n(quick, thorough):
    return quick if vf.QUICK else thorough


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.reqs = []
        self.models = {}       # name -> (generated, distinct)
        self.gen, self.dis = 0, 0
        self.vectors = 0
        self.templates = []
        self.tally = vf.Tally()
        self.notes = []

    def model(self, module, label, alphabet, contexts=None, maxlen=3, op=None, emit=True):
        """enumerate with TLC, check the laws, and turn every emitted input into requests"""
        kw = {} if contexts is None else {"contexts": contexts}
        ins, g, d = vf.enumerate_model(module, alphabet, maxlen=maxlen, emit=emit and op is not None, **kw)
        self.models["%s/%s" % (module, label)] = {"states": d, "transitions": g, "alphabet": len(alphabet), "depth": maxlen, "vectors": len(ins)}
        self.gen += g
        self.dis += d
        self.vectors += len(ins)
        if op:
            for i in ins:
                self.reqs.extend(op(i))

    def add(self, *r):
        self.reqs.extend(r)

    def run(self, **kw):
        """drive what has been collected and validate it"""
        r = self.reqs
        self.reqs = []
        if r:
            self.tally.add(vf.conform(r, self.templates, **kw))


def rot(l, k):
    """k elements of l, spread over it, moving with the seed"""
    if len(l) <= k:
        return list(l)
    step = len(l) / k
    off = random.Random("%s/rot/%d" % (S, len(l))).random() * step
    return [l[min(len(l) - 1, int(off + i * step))] for i in range(k)]


def rep(**kw):
    """one representative code point with these attributes, moving with the seed"""
    l = ucd.select(st=1, **kw)
    bad = ucd.current()
    l = [c for c in l if c not in bad] or l
    return l[random.Random("%s/rep/%s" % (S, sorted(kw.items()))).randrange(len(l))]


def spread(lo, hi, parts=64):
    step = (hi - lo + parts) // parts
    return [(a, min(hi, a + step - 1)) for a in range(lo, hi + 1, step)]


# ------------------------------------------------------------------ alphabets
def domain_alphabet():
    r = random.Random("%s/dom" % S)
    return [[0x61], [0x41], [0xE0], [0x65, 0x301], [0x2E], [r.choice([0x3002, 0xFF0E, 0xFF61])], [rep(bidi=ucd.BR, mark=0)],
            [rep(bidi=ucd.BAL, mark=0, join=ucd.JD)], [0xAD], [0x78, 0x6E, 0x2D, 0x2D], [0x34, 0x67, 0x61], [0x200C],
            [r.choice(gen.VIRAMA[:8])], [0x31], [0x660 + r.randrange(10)], [0x2D]]


def ace_alphabet():
    return [[ord("x"), ord("n"), 45, 45], [ord("X"), ord("N"), 45, 45], [0xFF58, 0x6E, 0x2D, 0x2D]] + \
           [[ord(c)] for c in "a-z9"] + [list(b"tda"), list(b"4db"), list(b"4ca"), [0xE9], [0x2E], [0xAD]]


def label_alphabet():
    return [[0x61], [0xE0], [rep(bidi=ucd.BR, mark=0)], [rep(bidi=ucd.BAL, mark=0, join=ucd.JR)], [rep(bidi=ucd.BAL, mark=0, join=ucd.JD)],
            [0x31], [rep(bidi=ucd.BAN)], [rep(bidi=ucd.BES)], [rep(bidi=ucd.BON)], [rep(bidi=ucd.BET)], [rep(bidi=ucd.BNSM, mark=1, ccc=230)],
            [random.Random("%s/v" % S).choice(gen.VIRAMA[:10])], [0x200C], [0x200D], [0xA872]]


def bidi_alphabet():
    return [[rep(bidi=k, mark=0)] for k in (ucd.BL, ucd.BR, ucd.BEN, ucd.BES, ucd.BET, ucd.BAN, ucd.BCS, ucd.BON, ucd.BAL)] + \
           [[rep(bidi=ucd.BNSM)]]


def joiner_alphabet():
    return [[rep(join=ucd.JD, bidi=ucd.BAL)], [rep(join=ucd.JR, bidi=ucd.BAL)], [0xA872], [rep(join=ucd.JT, mark=1)], [0x94D], [0x915], [0x200C], [0x200D],
            [rep(bidi=ucd.BAL, join=0, mark=0)]]


def nfc_alphabet_a():
    r = random.Random("%s/nfc" % S)
    return [[0x41], [0x61], [0x30A], [0x323], [0x302], [0x301], [0x1EA0], [0x212B], [0x345], [0x3B1], [0x327], [r.choice([0x334, 0x315, 0x31B])], [0xE9]]


def nfc_alphabet_b():
    return [[0x1100], [0x1161], [0x11A8], [0xAC00], [0xAC01], [0x11A7], [0x1112], [0x1175], [0x11C2], [0xD788], [0xD7A3], [0x9C7], [0x9BE], [0x301], [0x958]]


# ------------------------------------------------------------------ C01
def ascii_strings(g, k, maxlen):
    r = g.r
    out = []
    for _ in range(k):
        m = r.choice([r.randint(0, 24), r.randint(0, 80), r.randint(0, maxlen)])
        mode = r.randrange(4)
        if mode == 0:
            s = bytes(r.randrange(128) for _ in range(m))
        elif mode == 1:
            s = bytes(r.choice(b"@AZ[`az{MmNn") for _ in range(m))
        elif mode == 2:
            s = b".".join(bytes(g.ascii_any(1, 12)) for _ in range(m // 8 + 1))
        else:
            s = b".".join(r.choice([g.ace(), bytes(g.ascii_any())]) for _ in range(r.randint(1, 6)))
        out.append(bytes(b & 127 for b in s))
    return out


def C01(c):
    g = G(S, "C01")
    edge = [[x] for x in (0x40, 0x41, 0x5A, 0x5B, 0x60, 0x61, 0x7A, 0x7B, 0x00, 0x2E, 0x7F, 0x2D)]
    c.model("MCAscii", "edges", edge, maxlen=n(3, 4), op=lambda i: ["A " + hexb(bytes(i))])
    # every byte at every position of every length around the word size, at every alignment
    for ln in range(0, n(20, 41)):
        for pos in range(ln):
            base = bytearray(g.r.choice(b"AZ@[az`{09") for _ in range(ln))
            for b in (range(128) if ln in (1, 7, 8, 9, 15, 16, 17) or not vf.QUICK else [0x40, 0x41, 0x4D, 0x5A, 0x5B, 0x60, 0x61, 0x7A, 0x7F, 0, g.r.randrange(128)]):
                base[pos] = b
                c.add("a %s %d" % (hexb(bytes(base)), g.r.randrange(9)))
    for x in range(128):
        c.add("A %02x" % x)
        for y in rot(list(range(128)), n(24, 128)):
            c.add("A %02x%02x" % (x, y))
    for s in ascii_strings(g, n(6000, 60000), 400):
        c.add("A " + hexb(s))
        c.add("a %s %d" % (hexb(s), g.r.randrange(9)))
    for k in (0, 1, 8, 16, 255, 256, 257, 1000, 4095, 8191, 16376, 16383, 16384):
        for u in ("41", "5a61", "2e", "786e2d2d41", "4041", "00"):
            c.add("AL %s %d %s" % (u, k, "-"))
    c.add("A " + hexb(bytes(g.r.randrange(128) for _ in range(16384))))
    c.add("A " + hexb(bytes(g.r.randrange(128) for _ in range(16383))))
    for k in long.lengths(g, 65536, n(2, 8)):
        c.add("a %s %d" % (hexb(bytes(g.r.choice(b"AZ@[azM") for _ in range(k))), g.r.randrange(9)))
    c.run()


# ------------------------------------------------------------------ C02
def C02(c):
    g = G(S, "C02")
    edge = [[x] for x in (0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF)]
    c.model("MCUtf8", "edges", edge, maxlen=n(3, 4), op=lambda i: ["T " + hexb(bytes(i))])
    # every sequence that could be one code point
    c.add("P -")
    for a in range(128, 256):
        c.add("P %02x" % a)
    for a in range(0xE0, 0xF8):
        for b in range(256):
            c.add("P %02x%02x" % (a, b))
    for a in range(0xF0, 0xF6):
        for b in range(0x80, 0xC0):
            for d in (range(0x80, 0xC0) if not vf.QUICK else [0x7F, 0x80, 0x81, 0xA0, 0xBE, 0xBF, 0xC0, 0x80 + g.r.randrange(64), 0x80 + g.r.randrange(64)]):
                c.add("P %02x%02x%02x" % (a, b, d))
    bad = [b"\x80", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe0\xa0", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xef\xbf",
           b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff", b"\xfe", b"\xf0\x9f", b"\xe2\x28\xa1",
           b"\xc3\x28", b"\xf0\x28\x8c\xbc", b"\xf0\x90\x28\xbc", b"\xf0\x90\x80\x28", b"\xbf\xbf"]
    good = ["\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "\u00e9", "\u4e00", "\U0001f600", "\u0100", "\u0fff", "\u1000", "\ucfff", "\U0003ffff", "\U00040000", "\U000fffff", "\U00100000"]
    for pre in range(0, 36):
        for x in bad + [y.encode() for y in good]:
            for post in (0, 1, 15, 16, 17, 31):
                if vf.QUICK and g.r.random() > 0.25:
                    continue
                p = bytes(g.r.choice(b"ab.") for _ in range(pre))
                q = bytes(g.r.choice(b"ab.") for _ in range(post))
                c.add("T " + hexb(p + x + q))
                if g.r.random() < 0.3:
                    c.add("A " + hexb(p + x + q))
    for _ in range(n(9000, 90000)):
        k = g.r.choice([g.r.randint(1, 6), g.r.randint(1, 30), g.r.randint(30, 120)])
        cps = [g.r.choice([g.r.randrange(128), g.r.randrange(128, 0x800), g.r.randrange(0x800, 0xD800), g.r.randrange(0xE000, 0x10000), g.r.randrange(0x10000, 0x110000)]) for _ in range(k)]
        b = bytearray(enc(cps))
        c.add("R " + hexc(cps))
        if g.r.random() < 0.5:
            c.add("T1 " + hexb(bytes(b)))
        for _ in range(g.r.choice([0, 1, 1, 2])):
            if b:
                g.corrupt(b)
        c.add("T " + hexb(bytes(b)))
        if g.r.random() < 0.2:
            c.add("A " + hexb(bytes(b)))
            c.add("U " + hexb(bytes(b)))
    # the encoder over every scalar value, and over what is not one
    for lo in range(0, 0x110000, 256):
        if not (0xD800 <= lo < 0xE000) and (not vf.QUICK or lo < 0x3000 or g.r.random() < 0.3 or lo & 0xFFFF in (0, 0xFF00)):
            c.add("R " + hexc(range(lo, lo + 256)))
    for x in (0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF):
        for pre in ([], [0x61], [0x4E00, 0x1F600]):
            for post in ([], [0x61], [0xE9]):
                c.add("R " + hexc(pre + [x] + post))
    for x in range(0xD800, 0xE000, n(16, 1)):
        c.add("R %x" % x)
    for k in long.lengths(g, 65536, n(2, 12)):
        c.add("T " + hexb(long.texts(g, k)), "R " + hexc(long.scalars(g, k)))
    for k in (300, 1100, 9000, 33000, n(66000, 140000)):     # each length of sequence, behind text of each
        for u in long.UNITS:
            w = u * (k // len(enc(u)))
            c.add("R " + hexc(w + [0x61, 0xE9, 0x4E00, 0x1F600]))
            for v in (b"a", b"\xc3\xa9", b"\xe4\xb8\x80", b"\xf0\x9f\x98\x80", b"\xc3", b"\xa9"):
                c.add("T " + hexb(enc(w) + v))
    c.run()


# ------------------------------------------------------------------ C03
def C03(c):
    g = G(S, "C03")
    mp = ucd.mapped()
    by = {}
    for x in mp:
        by.setdefault(len(ucd.mapping(x)), []).append(x)
    alpha = [[0x61], [0x41], [0x4E00], [0xE0], [g.pick(by[0])], [g.pick(by[1])], [g.pick(by[2])], [g.pick(by[3])], [g.pick(by[max(by)])],
             [g.pick(ucd.disallowed())], [0xD800], [0x110000], [0x10FFFF]]
    c.model("MCMap", "kinds", alpha, maxlen=n(3, 4), op=lambda i: ["M " + hexc(i)])
    for lo, hi in spread(0, 0x10FFFF, 128) + [(0x110000, 0x1103FF), (0x1FFF00, 0x2000FF), (0x7FFFFF00, 0x7FFFFFFF), (0x80000000, 0x800000FF), (0xFFFFFF00, 0xFFFFFFFF)]:
        c.add("SM %x %x" % (lo, hi))
    for _ in range(n(16000, 160000)):
        k = g.r.choice([g.r.randint(0, 5), g.r.randint(0, 20), g.r.randint(20, 90)])
        cps = []
        for _ in range(k):
            x = g.r.random()
            cps.append(g.r.randrange(128) if x < 0.35 else g.anyvalid() if x < 0.6 else g.pick(mp) if x < 0.93 else g.pick(by[g.r.choice(sorted(by))]) if x < 0.985 else g.anycp())
        c.add("M " + hexc(cps))
    # runs of the same expanding or vanishing element
    for m in sorted(by):
        for k in (1, 2, 15, 16, 17, 64, 200):
            c.add("M " + hexc([g.pick(by[m])] * k))
    for k in long.lengths(g, 65536, n(2, 12)):
        c.add("M " + hexc(long.mappable(g, k, by)))
    for k in n([270, 1100, 4200, 17000, 66000], [130, 270, 600, 1100, 2100, 4200, 9000, 17000, 33000, 66000]):
        us = [[0x61], [0x41], [0x4E00], [g.pick(by[0])], [g.pick(by[2])], [0x61, g.pick(by[1])]]
        for w in long.filled(k, us if k < 60000 or not vf.QUICK else us[:4], [[0x41, 0xAD, 0xFDFA, 0x61], [0x61, 0xD800]]):
            c.add("M " + hexc(w))
    c.run()


# ------------------------------------------------------------------ C04
def C04(c):
    g = G(S, "C04")
    c.model("MCNfc", "latin", nfc_alphabet_a(), maxlen=n(4, 5), op=lambda i: ["N " + hexc(i)])
    c.model("MCNfc", "hangul-indic", nfc_alphabet_b(), maxlen=n(3, 4), op=lambda i: ["N " + hexc(i)])
    for lo, hi in spread(0, 0x10FFFF, 128) + [(0x110000, 0x1101FF), (0xFFFFFF00, 0xFFFFFFFF)]:
        c.add("SN %x %x" % (lo, hi))
    pairs = ucd.comp_pairs()
    firsts = sorted({p[0] for p in pairs})
    seconds = sorted({p[1] for p in pairs})
    for a in firsts:
        c.add("SP %x 300 34f" % a)
        if not vf.QUICK or g.r.random() < 0.3:
            for lo, hi in ((0x5B0, 0x5C7), (0x64B, 0x65F), (0x900, 0xDFF), (0x1000, 0x12FF), (0x1B00, 0x1B4F), (0x3090, 0x30A0), (0x11000, 0x11FFF)):
                c.add("SP %x %x %x" % (a, lo, hi))
    for a in (0x1100, 0x1112, 0x1113, 0x10FF, 0xAC00, 0xAC01, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4):
        c.add("SP %x 1160 11ff" % a)
    for a, b, x, stale in pairs:
        m = g.pick(g.marks())
        m2 = g.pick(g.marks())
        for s in ([a, b], [a, m, b], [a, b, m], [a, m, m2, b], [a, 0x34F, b], [a, b, b], [x], [x, m], [x, m, b], [a, 0x61, b], [a, m, m, b]):
            c.add("N " + hexc(s))
    for a in ucd.decomposable():
        for s in ([a], [a, g.pick(g.marks())], [g.pick(g.marks()), a], [0x61, a, g.pick(seconds)], ucd.decomp(a) + [g.pick(g.marks())]):
            c.add("N " + hexc(s))
    # every order of small sets of marks of different classes
    for _ in range(n(60, 600)):
        base = g.pick(firsts)
        ms = [g.pick(g.marks()) for _ in range(4)]
        for p in itertools.permutations(ms):
            c.add("N " + hexc([base] + list(p)))
    for _ in range(n(12000, 150000)):
        s = g.decomposed()
        if g.r.random() < 0.3:
            s += g.decomposed() + [g.pick(g.marks()) for _ in range(g.r.randint(0, 12))]
        c.add("N " + hexc(s))
        if g.r.random() < 0.25:
            c.add("A " + hexb(enc(s + [0xE9])))
    for k in (17, 32, 33, 64, 100, n(150, 400)):
        ms = [g.pick(g.marks()) for _ in range(k)]
        c.add("N " + hexc([0x61] + ms), "N " + hexc([0x61] + ms + [0xE9] + ms))
        c.add("N " + hexc([0x1E63, 0x307] * (k // 2)), "N " + hexc([0x61, 0x302, 0x301] * (k // 3)))
        c.add("N " + hexc([0x1100, 0x1161, 0x11A8] * (k // 3)))
    # the borders of the Hangul ranges, in texts that need work elsewhere
    for tail in ([], [0x65, 0x301], [0xE9, 0x323], [0x1100, 0x1161, 0x11A8], [0x307, 0x323]):
        Ls, Vs, Ts, Ss = (0x10FF, 0x1100, 0x1112, 0x1113), (0x1160, 0x1161, 0x1175, 0x1176), (0x11A7, 0x11A8, 0x11C2, 0x11C3), (0xABFF, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4)
        for a in Ls:
            for b in Vs:
                c.add("N " + hexc([a, b] + tail), "N " + hexc([a, b, g.pick(Ts)] + tail), "N " + hexc(tail + [a, b]))
                c.add(*["N " + hexc([a, b, t] + tail) for t in Ts])
        for a in Ss:
            c.add("N " + hexc([a] + tail), "N " + hexc(tail + [a]))
            c.add(*["N " + hexc([a, t] + tail) for t in Ts + Vs[:2] + Ls[1:3]])
    for s in range(0xAC00, 0xD7A4, n(13, 1)):
        i = s - 0xAC00
        d = [0x1100 + i // 588, 0x1161 + i % 588 // 28] + ([0x11A7 + i % 28] if i % 28 else [])
        c.add("N " + hexc(d), "N " + hexc([s, 0x11A7 + g.r.randrange(30)]))
    for k in long.lengths(g, 65536, n(2, 12)):
        c.add("N " + hexc(long.normalisable(g, k)))
    for k in long.lengths(g, n(4096, 65536), n(2, 8)):
        c.add("N " + hexc(long.marks(g, k)))
    for k in n([270, 1100, 4200, 17000], [130, 270, 600, 1100, 2100, 4200, 9000, 17000, 33000]):
        for w in long.filled(k, [[0x61], [0x4E00], [0xE9], [0x61, 0x301], [0xAC00], [0x1100, 0x1161], [0x958]], [[0x65, 0x301, 0x323, 0x1100, 0x1161, 0x11A8, 0x958, 0xE9, 0x327]]):
            c.add("N " + hexc(w))
        if k < 9000:
            for a, b in ((0x301, 0x323), (0x323, 0x301)):      # every mark of one base, two orders
                c.add("N " + hexc([0x71] + [a] * k + [b] + [0x65, 0x301]), "N " + hexc([0x65] + [a] * k + [b]))
    c.run()


# ------------------------------------------------------------------ C05
def punycode_requests(c, g, k):
    for _ in range(k):
        x = g.r.random()
        if x < 0.3:
            cps = g.ulabel()
        elif x < 0.5:
            cps = [g.r.choice([g.r.randrange(128), g.r.randrange(128, 0x800), g.r.randrange(0x800, 0xD800), g.r.randrange(0xE000, 0x110000)]) for _ in range(g.r.randint(0, 12))]
        elif x < 0.6:
            cps = [g.r.choice([0x80, 0x81, 0x10FFFF, 0x10FFFE, 0x61, 0x2D, 0x7F]) for _ in range(g.r.randint(0, 10))]
        elif x < 0.7:
            cps = [g.r.randrange(0xE000, 0x110000)] * g.r.randint(1, 30) + [0x80 + g.r.randrange(99)]
        elif x < 0.8:
            cps = [g.r.randrange(0x4E00, 0x9FFF) for _ in range(g.r.randint(10, 60))]
        elif x < 0.9:
            cps = g.ascii_any() + [0x80 + g.r.randrange(0x300)] + g.ascii_any()
        else:
            cps = [ord(ch) for ch in "xn--"][: g.r.randint(1, 4)] + g.validmix()
        e = list(cps)
        if g.r.random() < 0.06:
            e.insert(g.r.randint(0, len(e)), g.r.choice([0xD800, 0xDFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xDABC]))
        c.add("E %s %s" % (hexc(e), g.r.choice(["-", "-", "786e2d2d", "612e786e2d2d", "ff00"])))
        try:
            p = bytearray(puny(cps))
        except Exception:
            continue
        c.add("D " + hexb(bytes(p)))
        for _ in range(g.r.randint(0, 2)):
            if not p:
                break
            m = g.r.randrange(6)
            i = g.r.randrange(len(p))
            if m == 0:
                p[i] = g.r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789-")
            elif m == 1:
                del p[i]
            elif m == 2:
                p.insert(i, g.r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789-"))
            elif m == 3:
                p[i] = g.r.randrange(256)
            elif m == 4:
                p = p[:i]
            else:
                p[i] = g.r.choice(b"ABZ@[`{/:")
            c.add("D " + hexb(bytes(p)))


def C05(c):
    g = G(S, "C05")
    dig = [[x] for x in b"ayz09b-k"] + [[0x41], [0x80], [0x2F]]
    c.model("MCPuny", "digits", dig, maxlen=n(4, 5), op=lambda i: ["D " + hexb(bytes(i))])
    c.model("MCPuny", "after-ascii", dig[:7], contexts=[[list(b"a-"), []], [list(b"ab-c-"), []], [list(b"-"), []], [list(b"9"), list(b"9")]], maxlen=n(3, 5), op=lambda i: ["D " + hexb(bytes(i))])
    c.model("MCEnc", "values", [[0x61], [0x2D], [0x80], [0xFC], [0x3B1], [0x4E00], [0xFFFF], [0x10000], [0x10FFFF], [0xD800], [0x110000], [0x78, 0x6E, 0x2D, 0x2D]],
            maxlen=n(3, 4), op=lambda i: ["E %s %s" % (hexc(i), "-" if len(i) % 2 else "786e2d2d")])
    # every byte at every position of some encodings
    for cps in ([0xFC], [0x62, 0xFC, 0x63], [0x5D0, 0x5D1], [0x4E00, 0x61, 0x10FFFF], [0x3B1] * 5):
        p = puny(cps)
        for i in range(len(p)):
            for b in range(256):
                c.add("D " + hexb(p[:i] + bytes([b]) + p[i + 1:]))
        for i in range(len(p) + 1):
            for b in b"a09z-A\x00\x80":
                c.add("D " + hexb(p[:i] + bytes([b]) + p[i:]))
            c.add("D " + hexb(p[:i]))
    # numbers around the overflow guards
    for _ in range(n(3000, 30000)):
        k = g.r.randint(4, 9)
        s = bytes(g.r.choice(b"99999zzz0amb") for _ in range(k)) + bytes(g.r.choice(b"abz09") for _ in range(g.r.randint(0, 3)))
        c.add("D " + hexb((b"" if g.r.random() < 0.7 else bytes(g.ascii_word(1, 5)) + b"-") + s))
    for _ in range(n(3000, 60000)):
        c.add("D " + hexb(g.overflow()))
    # a delta of exactly the greatest number, and one more
    for pts in [0, 1, 63, 1926, 1927, 1928, 1929, 2047] + [g.r.randrange(1929, 5000) for _ in range(n(4, 40))]:
        for t in range((1 << 31) - 3, (1 << 31) + 3):
            cps, e = gen.delta_edge(pts, t)
            c.add("D " + hexb(e))
            if cps:
                c.add("E %s -" % hexc(cps), "D " + hexb(puny(cps)))
    for pts in (2045, 2046, 2047):   # the delta counts up to the greatest number between two insertions
        for m in (0x10007F, 0x100080, 0x100081):
            c.add("E %s -" % hexc([0x80] + [0x61] * pts + [m]), "E %s -" % hexc([0x61] * pts + [0x80, m]), "E %s -" % hexc([0x80] + [0x61] * pts + [m, 0x80]))
    for w in gen.near_prefix():
        c.add("E %s -" % hexc(w), "D " + hexb(puny(w)))
    for x in (0x7E, 0x7F, 0x80, 0x81, 0x7FF, 0x800, 0xD7FE, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDFFE, 0xDFFF, 0xE000, 0xE001, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF, 0x110000, 0x110001, 0x7FFFFFFF, 0x80000000, 0x80000061, 0xFFFFFFFF):
        for s in ([x], [0x61, x], [x, 0x61], [0xE9, x], [x, 0x10FFFF], [x, x]):
            c.add("E %s -" % hexc(s))
    punycode_requests(c, g, n(8000, 100000))
    # every scalar value on its own and behind ASCII (in blocks that stay short)
    for x in rot([v for v in range(0x80, 0x110000) if not 0xD800 <= v < 0xE000], n(6000, 200000)):
        c.add("E %x -" % x, "D " + hexb(puny([x])))
    for m in (50, 100, n(200, 500)):
        c.add("E %s -" % hexc([g.anyvalid() for _ in range(m)]))
        c.add("D " + hexb(puny([g.r.randrange(0x80, 0xD800) for _ in range(m)])))
        c.add("E %s -" % hexc([0x61] * m + [0xE9] + [0x62] * m), "D " + hexb(b"a" * m + b"-" + b"a" * 5))
    for k in long.lengths(g, 65536, n(1, 8)):
        s = long.encodable(g, k)
        c.add("E %s -" % hexc(s))
        if all(not 0xD800 <= x < 0xE000 and x < 0x110000 for x in s) and (k < 40000 or s[0] == 0x61):
            c.add("D " + hexb(puny(s)))
    for k in n((32764, 32766, 32767, 65532, 65534, 65535), (253, 254, 255, 256, 32764, 32765, 32766, 32767, 32768, 65531, 65532, 65533, 65534, 65535, 65536)):
        s = long.points(k)
        c.add("E %s -" % hexc(s), "D " + hexb(puny(s)))
    c.run()


# ------------------------------------------------------------------ C06
def label_templates():
    A, D, R, L = 0x627, 0x628, 0x5D0, 0x61
    v, k, t, nsm = 0x94D, 0x915, 0x64B, 0x300
    zj, zn = 0x200D, 0x200C
    raw = [([], []), ([L], []), ([], [L]), ([R], []), ([], [R]), ([R], [R]), ([A], []), ([], [A]), ([R], [0x31]), ([R, 0x31], []), ([R], [0x660]), ([A, 0x660], [A]),
           ([0x31], []), ([R], [nsm]), ([L], [nsm]), ([L], [L]), ([R], [nsm, nsm]), ([], [zn, D]), ([D, zn], []), ([D], [zn, D]), ([D, zn], [D]), ([], [zj]), ([k], [zj]), ([k], [zn]),
           ([], [zn]), ([D, t], [zn, t, D]), ([D, zn, t], [t, D]), ([k, v, zj], []), ([k, v, zn], [R]), ([0xA872, zn], []), ([D, zn, D], []), ([], [t, zn, D])]
    return [(hexc(a), hexc(b)) for a, b in raw]


def valid_runs(per=2500):
    v = sorted(ucd.valid())
    runs, cur, cnt = [], [], 0
    i = 0
    while i < len(v):
        j = i
        while j + 1 < len(v) and v[j + 1] == v[j] + 1 and j - i < 2000:
            j += 1
        cur.append("%x-%x" % (v[i], v[j]))
        cnt += j - i + 1
        if cnt >= per:
            runs.append(",".join(cur))
            cur, cnt = [], 0
        i = j + 1
    if cur:
        runs.append(",".join(cur))
    return runs


def C06(c):
    g = G(S, "C06")
    c.model("MCLabel", "mixed", label_alphabet(), maxlen=n(3, 4), op=lambda i: ["L " + hexc(i)])
    c.model("MCLabel", "bidi", bidi_alphabet(), maxlen=n(4, 5), op=lambda i: ["L " + hexc(i)])
    c.model("MCLabel", "joiners", joiner_alphabet(), maxlen=n(4, 6), op=lambda i: ["L " + hexc(i)])
    c.templates = label_templates()
    for r in valid_runs():
        c.add("SV " + r)
    c.run(limit_s=120)
    c.templates = []
    bad = ucd.current()
    for _ in range(n(26000, 300000)):
        x = g.r.random()
        l = g.joiners() if x < 0.25 else g.zwnj_ok() if x < 0.4 else g.rtl() if x < 0.65 else g.bidimix() if x < 0.8 else g.validmix()
        if any(u in bad for u in l) and g.r.random() < 0.8:
            l = [u for u in l if u not in bad] or [0x61]
        if g.r.random() < 0.15:
            l = l + g.r.choice([g.rtl, g.joiners, g.zwnj_ok])()
        c.add("L " + hexc(l))
        if g.r.random() < 0.2:
            c.add("A " + hexb(enc(l)))
    for v in gen.VIRAMA:
        for k in ([0x915, v, 0x200D], [0x915, v, 0x200C], [v, 0x200D], [0x915, v, 0x200D, 0x915, 0x200D], [0x628, v, 0x200C, 0x61], [0x5D0, v, 0x200D, 0x61], [0x915, v, 0x301, 0x200D]):
            c.add("L " + hexc(k))
    # long labels: the deciding element far from either end
    for m in (10, 40, 63, 64, 65, 120):
        for pos in (0, 1, m // 2, m - 2, m - 1):
            for filler, odd in ((0x61, 0x5D0), (0x5D0, 0x61), (0x5D0, 0x31), (0x61, 0x200D), (0x628, 0x200C), (0x627, 0x200C), (0x5D0, 0x300), (0x5D0, 0x660), (0x627, 0x24)):
                l = [filler] * m
                l[pos] = odd
                c.add("L " + hexc(l))
                l2 = list(l)
                l2[g.r.randrange(m)] = g.r.choice([0x31, 0x660, 0x300, 0x200C, 0x61])
                c.add("L " + hexc(l2))
    for k in long.lengths(g, n(8192, 65536), n(4, 12)) + [65536 + g.r.randint(1, 9)] * 3:
        c.add("L " + hexc(long.labels(g, k)))
    for k in (n([30, 99, 101, 200, 300, 1100, 5000], [30, 60, 99, 101, 127, 129, 200, 255, 257, 300, 511, 513, 1023, 1100, 2100, 5000, 9000, 17000, 33000, 66000])):
        for s in long.deciding(k + g.r.randrange(3)):
            c.add("L " + hexc(s))
    c.run()


# ------------------------------------------------------------------ C07
def long_domains(g, k):
    out = []
    for _ in range(k):
        x = g.r.randrange(6)
        if x == 0:
            d = b".".join(g.label() for _ in range(g.r.randint(6, 30)))
        elif x == 1:
            d = enc([g.anyvalid() for _ in range(g.r.randint(30, 120))])
        elif x == 2:
            d = enc(g.latin() * g.r.randint(3, 15)) + b"." + enc(g.cjk() * 5)
        elif x == 3:
            d = b"." * g.r.randint(1, 4) + enc(g.ulabel()) + b"." * g.r.randint(0, 4) + enc(g.latin())
        elif x == 4:
            d = b"a" * g.r.randint(50, 300) + "\u00e9".encode() + b"." + bytes(g.ascii_word(60, 200))
        else:
            d = b".".join([bytes(g.ascii_any(1, 30)).replace(b".", b"")] * g.r.randint(1, 8) + [enc(g.latin() + [0xFC])])
        out.append(d)
    return out


def domain_requests(c, g, k, ops=("A",)):
    bad = ucd.current()
    for _ in range(k):
        d = g.nonascii_domain()
        try:
            if any(ord(u) in bad for u in d.decode()) and g.r.random() < 0.7:
                d = "".join(u for u in d.decode() if ord(u) not in bad).encode()
        except UnicodeDecodeError:
            pass
        for o in ops:
            c.add(o + " " + hexb(d))


def C07(c):
    g = G(S, "C07")
    c.model("Pipeline", "stages", domain_alphabet(), maxlen=n(2, 3), op=lambda i: ["A " + hexb(bytes(i))])
    c.model("MCDomain", "mixed", domain_alphabet(), maxlen=n(3, 4), op=lambda i: ["A " + hexb(enc(i))])
    c.model("MCDomain", "labels", [[0x2E], [0xE9], [0x61], [0x5D0], [0x627, 0x31], list(b"xn--4db"), list(b"xn--a"), [0x200C], [0x300]],
            contexts=[[[], []], [[0xFC, 0x2E], []], [[], [0x2E, 0xFC]]], maxlen=n(3, 5), op=lambda i: ["A " + hexb(enc(i))])
    # every code point of the standard, as a label and inside one
    ctx = [("", ""), ("61", "62"), ("c3a92e", "2e61")]
    if vf.QUICK:
        v = set(rot(sorted(ucd.valid()), 24000)) | set(ucd.mapped())
        runs = sorted(v | {u for u in ucd.valid() if ucd.attr(u)[1] or ucd.attr(u)[4] or ucd.attr(u)[2] not in (0,)})
        for u in runs:
            p, q = ctx[g.r.randrange(3)]
            c.add("A %s%s%s" % (p, enc([u]).hex(), q))
        for lo, hi in spread(0x80, 0x10FFFF, 96):
            if hi - lo > 64:
                a = g.r.randrange(lo, hi - 40)
                c.add("SA %s %s %x %x" % ("61", "-", a, a + 40))
    else:
        for p, q in ctx:
            for lo, hi in spread(0x80, 0x10FFFF, 512):
                c.add("SA %s %s %x %x" % (p or "-", q or "-", lo, hi))
    domain_requests(c, g, n(30000, 400000))
    for d in long_domains(g, n(300, 4000)):
        c.add("A " + hexb(d))
    for k in long.lengths(g, 16384, n(2, 12)):
        c.add(*long.domains(g, k))
    for k in n([300, 1100, 5000, 16200], [130, 300, 600, 1100, 2100, 5000, 9000, 16200]):
        for w in long.filled(k, [b"a", b".", b"A", b"a.", b"xn--tda.", "\u00e9".encode(), "\u00c9.".encode(), "e\u0301".encode(), "\u00ad".encode()],
                             ["\u00e9".encode(), b".xn--tda", "E\u0301".encode(), b".xn--TDA"]):
            if len(w) < 4000 or not vf.QUICK or g.r.random() < 0.3:
                c.add("A " + hexb(w))
        for x in long.refused():
            if k < 9000 or not vf.QUICK or g.r.random() < 0.3:
                w = g.pick([b"a.", b"xn--tda.", b"a", "\u00e9.".encode(), b"."])
                c.add("A " + hexb(w * (k // len(w)) + b"\xc3\xa9." + x))
    c.run(limit_s=120)


# ------------------------------------------------------------------ C08
def C08(c):
    g = G(S, "C08")
    r = g.r
    c.model("MCDomain", "ace", ace_alphabet(), contexts=[[[0xE9, 0x2E], []], [[], [0x2E, 0xE9]]], maxlen=n(3, 4), op=lambda i: ["A " + hexb(enc(i))])
    host = ["\u00e9.".encode(), "\u4e00.".encode(), "\u05d0.".encode()]

    def add(ace, spelled=False):
        a = enc(g.upper(list(ace))) if spelled else ace
        h = host[0] if g.r.random() < 0.8 else g.pick(host)
        x = g.r.randrange(4)
        d = h + a if x == 0 else a + b"." + h[:-1] if x == 1 else h + a + b"." + bytes(g.ascii_word(1, 4)) if x == 2 else bytes(g.ascii_word(1, 4)) + b"." + a + b"." + h
        c.add("A " + hexb(d))

    # nothing else in the domain is left of what was not ASCII: it is ignored, or maps to ASCII
    gone = [u for u in ucd.mapped() if all(x < 128 for x in ucd.mapping(u))]
    for u in gone + [u for u in gone if not ucd.mapping(u)] * n(2, 10) + [0xAD, 0x200B, 0x3002, 0xFF0E, 0x212A, 0x17F, 0xFE0F] * n(20, 200):
        a = list(r.choice([b"xn--a", b"xn--tda", b"xn--zz", b"xn--a-", b"xn--e-xbb", b"xn--9ca", g.ace()]))
        w = r.choice([a + [u], [u] + a, a + [0x2E, u], [u, 0x2E] + a, [0x61, u, 0x2E] + a, a + [0x2E, 0x61, u], a[:2] + [u] + a[2:], a[:4] + [u] + a[4:], a + [u, 0x2E] + a])
        c.add("A " + hexb(enc(w)))

    # one offending code point at a time, exhaustively for the interesting classes
    for u in ucd.mapped():
        add(b"xn--" + puny([u, 0xE9] if g.r.random() < 0.5 else [0x61, u, 0xE9]))
    for u in ucd.decomposable():
        add(b"xn--" + puny([u, 0xE9]))
        add(b"xn--" + puny(ucd.decomp(u) + [0xE9]))
    for u in [v for v in ucd.valid() if ucd.attr(v)[4]]:
        add(b"xn--" + puny([u, 0x61]))
        add(b"xn--" + puny([0x61, u]))
    for u in rot([v for v in ucd.valid() if ucd.attr(v)[2] != 0], n(5000, 100000)):
        add(b"xn--" + puny([u, 0xE9]))
        add(b"xn--" + puny([0x5D0, u]))
    for u in rot([v for v in ucd.valid() if v > 0x7F], n(6000, 200000)) + rot([v for v in ucd.disallowed() if not 0xD800 <= v < 0xE000], n(3000, 60000)):
        add(b"xn--" + puny([u]))
    for _ in range(n(16000, 200000)):
        add(g.ace(), g.r.random() < 0.25)
    # several ACE labels in one domain, one of them broken
    for _ in range(n(4000, 40000)):
        ls = [g.r.choice([b"xn--tda", b"xn--4db", b"xn--4gbrim", b"a", b""]) for _ in range(g.r.randint(1, 5))]
        ls.insert(g.r.randint(0, len(ls)), g.ace())
        ls.insert(g.r.randint(0, len(ls)), enc(g.latin() + [0xE9]))
        c.add("A " + hexb(b".".join(ls)))
    c.run()


# ------------------------------------------------------------------ C09
def C09(c):
    g = G(S, "C09")
    c.model("MCDomain", "canonical", domain_alphabet(), maxlen=3, op=lambda i: ["X " + hexb(enc(i))])

    def q(a, b):
        c.add("Q %s %s" % (hexb(enc(a)), hexb(enc(b))))
    for u in ucd.mapped():
        m = ucd.mapping(u)
        pre, post = g.r.choice([([], [0xE9]), ([0xE9], []), ([0x61], [0xFC, 0x62]), ([0xE9, 0x2E], [0x61])])
        q(pre + [u] + post, pre + m + post)
    for u in ucd.decomposable():
        if u not in (0x345,):
            q([u, 0x2E, 0xE9], ucd.decomp(u) + [0x2E, 0xE9])
            q([0x61, u, 0x62], [0x61] + ucd.decomp(u) + [0x62])
    for u in range(0xAC00, 0xD7A4, n(7, 1)):
        i = u - 0xAC00
        q([u, 0x61], [0x1100 + i // 588, 0x1161 + i % 588 // 28] + ([0x11A7 + i % 28] if i % 28 else []) + [0x61])
    for _ in range(n(9000, 120000)):
        d = g.nonascii_domain(3)
        try:
            cps = [ord(x) for x in d.decode()]
        except UnicodeDecodeError:
            continue
        a, b = g.spelling(cps), g.spelling(cps)
        if all(x < 128 for x in a):
            a = a + [0xAD]
        if all(x < 128 for x in b):
            b = b + [0xAD]
        q(a, b)
    domain_requests(c, g, n(10000, 120000), ("X",))
    c.run()


# ------------------------------------------------------------------ C10
def unicode_inputs(g, k):
    for _ in range(k):
        x = g.r.random()
        if x < 0.6:
            ls = [g.r.choice([g.ace, g.ace, g.ace, g.label, lambda: bytes(g.ascii_any())])() for _ in range(g.r.choice([1, 1, 2, 3, 5]))]
            if g.r.random() < 0.15:
                ls = [l.replace(b"xn--", g.r.choice([b"XN--", b"Xn--", b"xN--", b"xn-", b"xn---", b"n--", b"xxn--"])) for l in ls]
            d = b".".join(ls)
        elif x < 0.85:
            d = g.domain()
        else:
            d = bytes(g.r.randrange(256) for _ in range(g.r.randint(0, 40)))
        if g.r.random() < 0.1 and d:
            b = bytearray(d)
            g.corrupt(b)
            d = bytes(b)
        if g.r.random() < 0.1:
            d = g.r.choice([b".", b"..", b""]) + d + g.r.choice([b".", b"..", b""])
        yield d


def C10(c):
    g = G(S, "C10")
    c.model("MCDomain", "ace", ace_alphabet(), maxlen=n(3, 4), op=lambda i: ["U " + hexb(enc(i))])
    c.model("MCDomain", "decode", [list(b"xn--"), list(b"tda"), list(b"4db"), list(b"a-"), [0x2E], [0xE9], list(b"0"), list(b"-"), [0x41]], maxlen=n(4, 5), op=lambda i: ["U " + hexb(enc(i))])

    def add(l):
        x = g.r.randrange(4)
        c.add("U " + hexb([l, b"a." + l, l + b".xn--tda", "\u00e9.".encode() + l + b"."][x]))
    for u in ucd.mapped():
        add(b"xn--" + puny([u, 0xE9] if g.r.random() < 0.5 else [0x61, u, 0xE9]))
    for u in ucd.decomposable():
        add(b"xn--" + puny([u, 0xE9]))
        add(b"xn--" + puny(ucd.decomp(u) + [0xE9]))
    for u in [v for v in ucd.valid() if ucd.attr(v)[4]]:
        add(b"xn--" + puny([u, 0x61]))
        add(b"xn--" + puny([0x61, u]))
    for u in rot([v for v in ucd.valid() if ucd.attr(v)[2] != 0], n(4000, 100000)):
        add(b"xn--" + puny([u, 0xE9]))
        add(b"xn--" + puny([0x5D0, u]))
    for u in rot([v for v in ucd.valid() if v > 0x7F], n(12000, 200000)) + rot([v for v in ucd.disallowed() if not 0xD800 <= v < 0xE000], n(3000, 60000)):
        add(b"xn--" + puny([u]))
    for d in unicode_inputs(g, n(24000, 300000)):
        c.add("U " + hexb(d))
    for d in long_domains(g, n(200, 2000)):
        c.add("U " + hexb(d), "U " + hexb(d.lower().replace(b"a", b"xn--tda.")[:400]))
    for k in long.lengths(g, 16384, n(3, 16)):
        c.add(*long.unicodes(g, k))
    for k in n([300, 1100, 5000, 16200], [130, 300, 600, 1100, 2100, 5000, 9000, 16200]):
        for w in long.filled(k, [b"a", b".", b"A", b"xn--tda.", b"xn--a.", "\u00e9".encode()], [b".xn--tda", b".xn--TDA.a", b".XN--tda.xn--a.xn--tda"] + [b"." + x for x in long.refused()[k % 3::3]]):
            c.add("U " + hexb(w))
    c.run()


# ------------------------------------------------------------------ C11
def C11(c):
    g = G(S, "C11")
    c.model("MCDomain", "round-trip", domain_alphabet(), maxlen=3, op=lambda i: ["X " + hexb(enc(i))])
    c.model("MCDomain", "round-trip-scripts", [[rep(bidi=ucd.BL, mark=0)], [rep(bidi=ucd.BR, mark=0)], [0x2E], [0xE9], [0x4E00], [rep(mark=1, bidi=ucd.BNSM)], [0x1F600], [0x31], [0x2D], list(b"xn--tda")],
            maxlen=n(3, 4), op=lambda i: ["X " + hexb(enc(i))])
    sp = [v for v in ucd.valid() if v > 0x7F and (ucd.attr(v)[2] not in (0, 98) or ucd.attr(v)[1] or ucd.attr(v)[3])]
    for u in rot(sp, n(7000, 10 ** 6)) + rot([v for v in ucd.valid() if v > 0x7F], n(14000, 10 ** 6)):
        w = g.r.choice([[u], [0x61, u], [u, 0x62], [0xE9, 0x2E, u], [u, u], [0x5D0, u, 0x5D0]])
        c.add("X " + hexb(enc(w)))
    for _ in range(n(14000, 200000)):
        ls = []
        for _ in range(g.r.choice([1, 1, 2, 3, 4])):
            x = g.r.random()
            ls.append(enc(g.latin() + [0xE9]) if x < 0.2 else enc(g.cjk()) if x < 0.35 else enc(g.rtl(1.0)) if x < 0.5 else enc(g.zwnj_ok()) if x < 0.6 else
                      enc(g.hangul()) if x < 0.65 else enc(g.decomposed()) if x < 0.75 else bytes(g.ascii_word()) if x < 0.85 else g.r.choice([b"xn--tda", b"xn--4db", b"xn--mgbh0fb", g.ace()]))
        c.add("X " + hexb(b".".join(ls)))
    for d in long_domains(g, n(150, 2000)):
        c.add("X " + hexb(d))
    c.run()


# ------------------------------------------------------------------ C12
def C12(c):
    g = G(S, "C12")
    c.model("Pipeline", "fail-closed", domain_alphabet(), maxlen=2, op=lambda i: ["A " + hexb(bytes(i)), "U " + hexb(bytes(i))])
    c.add("LIM")
    tails = ["-", "2e", "2e786e2d2d746461"]
    for u in ("61", "41", "2e", "c3a9", "e4b8ad", "f09f9880", "c3a92e", "786e2d2d7464612e", "612e", "7f", "cc81", "ff", "d790"):
        for k in (0, 1, 100, 16380, 16381, 16382, 16383, 16384, 16385, 16386, 16387, 16388, 16400, 20000, 32768, 65535, 65536, 100000):
            for t in tails if k < 20000 else ["-"]:
                c.add("UL %s %d %s" % (u, k, t))
                if k <= 16384 and not (int(u[:2], 16) < 128):
                    continue
                c.add("AL %s %d %s" % (u, k, t))
    # non-ASCII at the limit: short output, so cheap to specify in full
    for ln in (16383, 16384, 16385):
        for core in ("\u00e9", "\u05d0", "\u4e2d") if not vf.QUICK else rot(["\u00e9", "\u05d0", "\u4e2d"], 1):
            b = core.encode()
            c.add("A " + hexb(b + b"a" * (ln - len(b))))
            c.add("A " + hexb(b"a" * (ln - len(b)) + b))
            c.add("A " + hexb(b + b"." + b"a" * (ln - len(b) - 1)))
            c.add("U " + hexb(b"xn--tda." + b"a" * (ln - len(b) - 8) + b))
            c.add("A " + hexb(("\u00ad" * (ln // 2)).encode() + b"a" * (ln % 2)))
            c.add("A " + hexb(b + "\u2060".encode() * ((ln - len(b)) // 3) + b"a" * ((ln - len(b)) % 3)))
    # long labels whose delta is the greatest number, or one more
    for k in range(n(2, 12)):
        pts = g.r.randrange(10600, 16300)
        for t in ((1 << 31) - 1, 1 << 31):
            cps, e = gen.delta_edge(pts, t)
            if cps:
                c.add("A " + hexb(enc(cps)))
            c.add("U " + hexb(b"xn--" + e))
    # failures on every path, with stale outputs of several shapes
    for i, d in enumerate(unicode_inputs(g, n(9000, 90000))):
        c.add("A " + hexb(d))
        c.add("U " + hexb(d))
    domain_requests(c, g, n(9000, 90000))
    for _ in range(n(3000, 30000)):  # first label good, a later one refused: partial output must not show
        good = enc(g.latin() + [0xE9])
        c.add("A " + hexb(good + b"." + g.r.choice([g.ace(), enc(g.joiners()), enc([g.sel(mark=1)]), enc(g.rtl(0.0)), b"xn--a", b"xn--" + good])))
    for k in long.lengths(g, 16384, n(2, 12)):
        c.add(*long.domains(g, k))
    c.run(chunk=150)


# ------------------------------------------------------------------ C15
def C15(c):
    g = G(S, "C15")
    c.model("MCIdent", "law", [[0x24], [0x5F], [0x61], [0x30], [0xE9], [0x300], [0x200C], [0x20], [0xD800], [0x110000], [rep(mark=1)], [0xB7]], maxlen=2, op=lambda i: ["I " + hexc(i)])
    for lo, hi in spread(0, 0x10FFFF, 256) + [(0x110000, 0x12FFFF), (0x1FFF00, 0x2000FF), (0x7FFFFF00, 0x7FFFFFFF), (0x80000000, 0x800000FF), (0xFFFFFF00, 0xFFFFFFFF)]:
        c.add("SI %x %x" % (lo, hi))
    for _ in range(n(4000, 60000)):
        c.add("I " + hexc([g.r.choice([g.r.randrange(128), g.anyvalid(), g.anycp(), g.r.randrange(1 << 32)]) for _ in range(8)]))
    c.run()


# ------------------------------------------------------------------ C18
def C18(c):
    g = G(S, "C18")
    forb = [0, 9, 10, 13, 32, 35, 37, 47, 58, 60, 62, 63, 64, 91, 92, 93, 94, 124, 127, 128, 255]
    near = [33, 34, 36, 38, 45, 46, 48, 57, 59, 61, 65, 90, 95, 96, 97, 122, 123, 125, 126]
    c.model("MCForbidden", "edges", [[x] for x in forb[:1] + forb[4:20:2] + near[::3]], maxlen=n(3, 4), op=lambda i: ["F " + hexb(bytes(i))])
    for x in range(256):
        for ln in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 100]:
            for pos in ({0, ln - 1, g.r.randrange(ln), g.r.randrange(ln)} if vf.QUICK else range(ln)):
                b = bytearray(g.r.choice(b"abcXYZ019-._~!") for _ in range(ln))
                b[pos] = x
                c.add("F " + hexb(bytes(b)))
    c.add("F -")
    for _ in range(n(10000, 100000)):
        c.add("F " + hexb(bytes(g.r.choice(near + ([g.r.choice(forb)] if g.r.random() < 0.2 else [])) for _ in range(g.r.randint(0, 60)))))
    c.add("F " + hexb(b"a" * 5000 + b"%"), "F " + hexb(b"a" * 5000), "F " + hexb(b"a\x00b"), "F " + hexb(b"abc\x00%"))
    for k in long.lengths(g, 65536, n(2, 12)):
        c.add("F " + hexb(b"a" * k + g.r.choice([b"%", b"", b"\x7f", b"\xc3", b" "]) + b"a" * g.r.randrange(9)))
    for k in (130, 300, 600, 1100, 2100, 4200, 9000, 17000, 33000, 66000, n(66001, 140000)):
        for x in (0x25, 0x7F, 0xC3, 0x61):
            c.add("F " + hexb(b"a" * (k + g.r.randrange(16)) + bytes([x]) + b"a" * g.r.randrange(17)))
    c.run()


# ------------------------------------------------------------------ C16
def C16(c):
    import defl
    g = G(S, "C16")
    r = g.r
    z = lambda b, cap: c.add("Z %s %d" % (hexb(b), cap))  # noqa
    c.model("MCInflate", "pieces", defl.alphabet(), maxlen=n(3, 4), op=lambda i: ["Z %s %d" % (hexb(bytes(i)), r.choice([0, 1, 2, 3, 4, 64, 600]))])
    c.model("MCInflate", "block-bodies", defl.alphabet()[6:13] + [[1] + defl.lsb(1, 2)], contexts=[[[1] + defl.lsb(1, 2), defl.FIXL[256]], [[0] + defl.lsb(1, 2) + defl.FIXL[0x41], defl.FIXL[256] + [1] + defl.lsb(1, 2) + defl.FIXL[256]]],
            maxlen=n(3, 5), op=lambda i: ["Z %s %d" % (hexb(bytes(i)), r.choice([3, 5, 64, 600]))])
    pcs, ctx = defl.code_length_pieces()
    c.model("MCInflate", "code-lengths", pcs, contexts=ctx, maxlen=n(4, 6), op=lambda i: ["Z %s %d" % (hexb(bytes(i)), 600)])
    # valid streams, at and around the capacity; every truncation of some
    for i in range(n(1100, 30000)):
        s, l = defl.stream(r, r.choice([3, 10, 40, 40, 120]) if i % 9 == 0 or not vf.QUICK else r.choice([3, 10, 20]))
        caps = {l, l + 1, max(0, l - 1), l + r.randrange(64)} if i % 2 else {l}
        if i % 5 == 0:
            caps |= {0, l // 2, max(0, l - r.randrange(1 + l))}
        for cap in caps:
            z(s, cap)
        if i % 24 == 0:
            for k in range(0, len(s), 1 if len(s) < 60 else 7):
                z(s[:k], l)
        if i % 3 == 0:
            z(s[:r.randrange(len(s) + 1)], l)
            z(s + bytes(r.randrange(256) for _ in range(r.randint(1, 4))), l)
        for _ in range(2):
            b = bytearray(s)
            for _ in range(r.choice([1, 1, 2])):
                if b:
                    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            z(bytes(b), r.choice([l, l + 300, l]))
    for bug in defl.BUGS:
        for i in range(n(60, 2000)):
            s, l = defl.stream(r, r.choice([3, 20]), bug)
            z(s, l + r.choice([0, 3, 300]))
    # streams made by zlib: every strategy, block splits by flushing
    for _ in range(n(240, 6000)):
        k = r.choice([0, 1, 20, 200, 600, n(1200, 6000)])
        mode = r.randrange(4)
        data = bytes(r.randrange(256) for _ in range(k)) if mode == 0 else bytes(r.choice(b"abc") for _ in range(k)) if mode == 1 else \
            (b"the tables are prepared once " * (k // 28 + 1))[:k] if mode == 2 else bytes((i * i >> 5) & 255 for i in range(k))
        s = defl.zstream(r, data)
        z(s, len(data))
        if k:
            z(s, len(data) - 1)
        if r.random() < 0.3 and s:
            z(s[:-1], len(data))
    # matches over the whole distance range, lengths at the table edges
    base = bytes(r.randrange(256) for _ in range(300))
    for d in sorted({x + e for x in defl.DISTB for e in (-1, 0, 1)} | {32768}):
        if 1 <= d <= n(5000, 32768):
            bits = [0] + defl.lsb(0, 2) + [0] * 5 + defl.lsb(d, 16) + defl.lsb(d ^ 0xFFFF, 16)
            for i in range(d):
                bits += defl.lsb(base[i % 300], 8)
            for ln in {r.choice(defl.LENB), 258, 3}:
                b2 = bits + [1] + defl.lsb(1, 2) + defl.match(defl.FIXL, defl.FIXD, ln, d, r) + defl.FIXL[256]
                z(defl.pack(b2), d + ln)
                if d < 600:
                    z(defl.pack(b2), d + ln - 1)
                    b3 = bits + [1] + defl.lsb(1, 2) + defl.match(defl.FIXL, defl.FIXD, ln, d + 1, r) + defl.FIXL[256]
                    z(defl.pack(b3), d + ln)
    # garbage
    for _ in range(n(5000, 100000)):
        b = bytearray(r.randrange(256) for _ in range(r.choice([r.randint(0, 8), r.randint(0, 60), r.randint(60, 300)])))
        if b:
            b[0] = b[0] & 0xF8 | r.choice([1, 3, 5, 5, 4, 2])
        z(bytes(b), r.choice([0, 1, 10, 100, 5000]))
    # a dynamic header with every code length spelled, then garbage
    for _ in range(n(1600, 40000)):
        hl = r.choice([0, 0, 29, 30, 31, r.randrange(32)])
        hd = r.choice([0, 29, 30, 31, r.randrange(32)])
        bits = [1] + defl.lsb(2, 2) + defl.lsb(hl, 5) + defl.lsb(hd, 5)
        used = r.sample(range(19), r.choice([2, 3, 4, 8]))
        if r.random() < 0.6:
            used[0] = r.choice([16, 17, 18])
        cl = [0] * 19
        for s_, l_ in zip(used, defl.limit_lens(len(used), r, 7)):
            cl[s_] = l_
        bits += defl.lsb(15, 4)
        for i in range(19):
            bits += defl.lsb(cl[defl.ORDER[i]], 3)
        bits += [r.randrange(2) for _ in range(r.randint(0, 900))]
        z(defl.pack(bits), r.choice([10, 1000]))
    c.run(exe=vf.build_driver("asan", inflate=True), chunk=250)
    c.assumptions = ["RFC 1951 is what 'DEFLATE' means; sets of code lengths it rules out (over-subscribed, more than 286/30 codes) may be refused or decoded, incomplete ones may be refused",
                     "TLC evaluates the specification correctly", "ASan reports every access outside the exact-size source and destination blocks"]


# ------------------------------------------------------------------ C17
def similar(g, line):
    """a request that differs little from this one"""
    op, rest = line.split(" ", 1)
    a = rest.split(" ")
    h = a[0]
    if op in "AUXDTF":
        b = bytearray(bytes.fromhex(h) if h != "-" else b"")
        if b:
            i = g.r.randrange(len(b))
            if b[i] < 128:
                b[i] = (b[i] + g.r.choice([1, 32, 2, 127])) & 127
            else:
                b[i] = 0x80 | (b[i] + 1) & 0x3F if b[i] < 0xC0 else b[i]
        a[0] = hexb(bytes(b))
    elif h != "-":
        u = [int(x, 16) for x in h.split(",")]
        i = g.r.randrange(len(u))
        u[i] = g.r.choice([u[i] ^ 1, u[i] ^ 0x100, u[i] + 0x10000 & 0x1FFFFF, u[i] & 0xFFFF, u[i] ^ 0x40])
        a[0] = hexc(u)
    return op + " " + " ".join(a)


def history_pool(g):
    """calls of every kind: table users and not, successes, refusals at every stage"""
    e = lambda s: hexb(s.encode())  # noqa
    return ["A " + e("Stra\u00dfe.De"), "A " + e("straSSe.de"), "A " + e("xn--4db.\u00e9"), "A " + e("xn--a.\u00e9"), "A " + e("\u0301a"), "A " + hexb(b"\xff\xfe"), "A " + e("PLAIN.ascii"),
            "A " + e("\u05d0\u05d1.\u0627\u0628"), "A " + e("e\u0301\u0327.A\u030a"), "A " + e("\u0915\u094d\u200d.\u0628\u200c\u0628"), "A " + e("\u0628\u200ca"),
            "U " + e("xn--tda.xn--4db"), "U " + e("xn--a.B\u00c9"), "U " + e("a.b"), "D " + e("tda"), "D " + e("99999999"), "E e9 -", "E 61,d800 786e", "M c5,df,ad", "M 61,e000",
            "N 65,301", "N 1100,1161,11a8", "L 5d0,31", "L 300,61", "L 915,94d,200d", "T " + hexb("\u00e9\u4e00".encode()), "T c080", "R 41,10ffff", "R d800", "F " + e("a b"), "F " + e("ab"),
            "I 61,aa,300,200c", "A " + e("\u00e9" * 90), "U " + e(("xn--tda." * 40))]


def C17(c):
    g = G(S, "C17")
    r = g.r
    pool = history_pool(g)
    needs = [1 if p[0] in "AUMNLI" else 0 for p in pool]
    d = vf.scratch("gen-")
    f = os.path.join(d, "gen.json")
    # all histories of three calls over a pool of every kind of call
    sub = sorted(set(rot(list(range(len(pool))), n(24, 34))))
    json.dump({"pool": len(sub), "needs": [needs[i] for i in sub], "max": 3, "faults": False, "emit": True}, open(f, "w"))
    out, gen_, dis = vf.model("Session", os.path.join(vf.SPEC, "Session.cfg"), env={"GEN": f})
    hs = [h["h"] for h in vf.parse_lines(out, "G")]
    c.models["Session/histories"] = {"states": dis, "transitions": gen_, "calls": len(sub), "depth": 3, "vectors": len(hs)}
    c.gen += gen_
    c.dis += dis
    c.vectors += len(hs)
    r.shuffle(hs)
    reqs = []
    for h in hs:
        reqs += [pool[sub[i - 1]] for i in h]
    # one process per eighth of the histories, calls in order
    k = (len(reqs) // vf.NCPU // 3 + 1) * 3
    parts = [reqs[i:i + k] for i in range(0, len(reqs), k)]
    # long random histories: near-equal arguments next to each other, repeats, refused calls between
    for _ in range(vf.NCPU):
        seq = []
        base = []
        for _ in range(n(60, 400)):
            base.append(r.choice(pool) if r.random() < 0.4 else
                        r.choice([lambda: "A " + hexb(g.domain()), lambda: "A " + hexb(g.nonascii_domain()), lambda: "U " + hexb(next(unicode_inputs(g, 1))), lambda: "N " + hexc(g.decomposed()),
                                  lambda: "M " + hexc([g.anycp() for _ in range(r.randint(1, 8))]), lambda: "L " + hexc(g.ulabel()), lambda: "D " + hexb(puny([u for u in g.ulabel() if not 0xD800 <= u < 0xE000])),
                                  lambda: "E %s -" % hexc(g.ulabel()), lambda: "A " + hexb(enc(g.latin() * 8)), lambda: "I " + hexc([g.anycp() for _ in range(4)])])())
        for _ in range(n(2200, 30000)):
            q = r.choice(base)
            x = r.random()
            if x < 0.35:
                q2 = similar(g, q)
                seq += r.choice([[q, q2, q], [q2, q, q2], [q, q2]])
            elif x < 0.45:
                seq += [q, q]
            else:
                seq.append(q)
        parts.append(seq)
    # where a property of code points changes: both sides, asked in turns, forwards and backwards
    k = ucd.cls_of()
    edges = [x for x in range(1, len(k)) if k[x] != k[x - 1]]
    for i in range(vf.NCPU):
        mine = edges[i * len(edges) // vf.NCPU:(i + 1) * len(edges) // vf.NCPU]
        seq = []
        for x in mine + mine[::-1]:
            y = x - 1
            if seq and r.random() < 0.5:
                x, y = y, x
            seq += ["I %x,%x,%x,%x" % (x, y, x, y), "L 5d0,%x" % x, "L 5d0,%x" % y] + \
                   r.choice([["M %x" % x, "M %x,%x" % (y, x), "M %x" % y], ["L %x,5d0" % y, "L %x" % x, "L 61,%x" % y], ["N %x,301" % x, "N %x,301" % y, "N 61,%x,%x" % (x, y)]])
        parts.append(seq)
    c.extra = {"histories": len(parts), "edges": len(edges)}
    evs = conform_histories(parts)
    c.tally.add(evs)
    c.violations = []
    lifetimes(c, g)


# owners and set-up times under which some call would be answered wrongly
MORTAL = [{"owner": "static"}, {"owner": "thread"}, {"setup": "initialiser"}, {"owner": "static", "setup": "initialiser"}, {"scratch": "static"}, {"scratch": "thread"}]


def lifetimes(c, g):
    """calls at every point of a process's life, from the first initialiser to the last destructor"""
    r = g.r
    d = vf.scratch("gen-")

    def conf(name, **kw):
        q = {"pool": 2, "needs": [1, 0], "max": 3, "owner": "process", "setup": "lazy", "scratch": "none", "emit": False}
        q.update(kw)
        f = os.path.join(d, name + ".json")
        json.dump(q, open(f, "w"))
        return {"GEN": f}
    cfg = os.path.join(vf.SPEC, "Lifetime.cfg")
    out, gen_, dis = vf.model("Lifetime", cfg, env=conf("shipped", emit=True, max=n(3, 4)))
    hs = list(vf.parse_lines(out, "G"))
    c.models["Lifetime/shipped"] = {"states": dis, "transitions": gen_, "positions": 10, "calls": n(3, 4), "vectors": len(hs)}
    c.gen += gen_
    c.dis += dis
    c.vectors += len(hs)
    for i, kw in enumerate(MORTAL):
        q = vf.tlc("Lifetime", cfg=cfg, env=conf("mortal%d" % i, max=2, **kw))
        if q.returncode != 12 or "Invariant Right is violated" not in q.stdout:
            raise vf.CheckError("Lifetime %s: some call should be answered wrongly, rc %d" % (kw, q.returncode))
    pool = fault_pool()
    wide = wide_pool(g, n(200, 1200))
    idle = [pool[2], pool[5], pool[13], pool[14], pool[15], pool[16], "A " + hexb(b"Example.ORG"), "U " + hexb(b"example.org"), "E 5d0,e9", "D " + hexb(b"4db"), "D " + hexb(b"xn--a-"), "D " + hexb(b"A")]
    idle += ["I %x" % u for u in (0x24, 0x5F, 0x41, 0x7A, 0x30, 0x39, 0x2D, 0x7F, 0xD800, 0x110000)] + ["F " + hexb(bytes(x)) for x in (b"a%b", b"a\x7f", b"\xc3\xa9", b"ab", b"[1]", b"-_~", b"a|b", b"")]
    idle += ["A " + hexb(bytes(g.ascii_any())) for _ in range(8)] + ["A " + hexb(b"a" * 16385), "U " + hexb(b"xn--\x80"), "E " + hexc(g.ulabel())]
    first = [x for x in pool + wide if x not in idle and x[0] not in "DEF"]

    def one(h):
        cs = [r.choice(first if k == 1 else idle) for _, k in h]
        if r.random() < 0.3:   # one call at all of its positions
            x = r.choice(first)
            cs = [x if k == 1 else y for (_, k), y in zip(h, cs)]
        return " | ".join("%d %s" % (p, x) for (p, _), x in zip(h, cs))
    r.shuffle(hs)
    scs = [one(h) for h in hs]
    # long lives
    for _ in range(n(60, 600)):
        scs.append(one(sorted([[r.randint(1, 10), r.choice([1, 1, 0])] for _ in range(r.randint(6, 20))])))
    scs += ["1 G 0", "3 %s | 10 G 0" % first[0], "4 %s | 10 G 0" % first[0], "2 %s | 6 G 0 | 10 %s" % (first[0], first[1]), "5 G 0", "7 G 0", "3 %s | 8 G 0" % first[0]]
    per = {}
    for v, ss in (("gcc-O2", scs), ("asan", scs[::n(3, 1)] + scs[-7:])):
        exe = vf.build_phases(v)
        ev, _ = vf.run_scenarios(exe, ["3 G 0"], "-")
        ref = json.loads(open(ev[0]).read())["events"][0]
        if ref["op"] != "G":
            c.violations.append("a call from main: %s" % ref)
            continue

        def once(ss):
            ev, _ = vf.run_scenarios(exe, ss, "-", 60)
            return vf.validate_scenarios(ev, ref["d"])
        res = once(ss)
        bad = res["bad"]
        if bad:
            again = once([ss[b["sid"] - 1] for b, _ in bad])
            ids = {b["sid"] for b, _ in again["bad"]}
            bad = [x for i, x in enumerate(bad) if i + 1 in ids]
        for b, i in bad[:20]:
            e = b["events"][i] if i < len(b["events"]) else None
            s = ss[b["sid"] - 1]
            c.violations.append("%s: a process calls (position request) %s: call %d answers %s" % (v, s[:300], i + 1, vf.describe(e)[:300]))
        c.gen += res["tr"]
        c.dis += res["st"]
        c.traces = getattr(c, "traces", 0) + res["events"]
        per[v] = {"processes": res["scenarios"], "events": res["events"], "outcomes": res["br"]}
    c.extra["lifetimes"] = per


def conform_histories(parts, exe=None):
    """every part is one process; its calls run in order; every other one in a plain build, where memory is used again at once"""
    exes = [exe] if exe else [vf.build_driver("asan"), vf.build_driver("gcc-O2")]

    def once():
        from concurrent.futures import ThreadPoolExecutor

        def one(p):
            return vf.run_requests(exes[p[0] % len(exes)], p[1], ordered=True)
        with ThreadPoolExecutor(vf.NCPU) as ex:
            rs = list(ex.map(one, enumerate(parts)))
        # ids are per part; make them global
        d = vf.scratch("hist-")
        files, lines, crashes = [], [], []
        for i, (_, evs, ls, cr) in enumerate(rs):
            off = len(lines)
            for e in evs:
                f = os.path.join(d, "%d.ev" % i)
                with open(e) as a, open(f, "w") as b:
                    for l in a:
                        j = l.index(",")
                        b.write('{"id":%d%s' % (int(l[6:j]) + off, l[j:]))
                files.append(f)
            lines += ["%d %s" % (off + int(x.split(" ", 1)[0]), x.split(" ", 1)[1]) for x in ls]
            crashes += cr
        t = vf.validate(files, lines)
        t.crashes, t.requests = crashes, len(lines)
        return t
    t = once()
    if t.rejected:
        u = once()
        ids = {e["id"] for e, _ in u.rejected}
        t.rejected = [x for x in t.rejected if x[0]["id"] in ids] or u.rejected
    return t


# ------------------------------------------------------------------ C19
def garbage(g, k):
    r = g.r
    words = [0, 1, 0x2D, 0x2E, 0x41, 0x61, 0x7F, 0x80, 0xAD, 0xE9, 0x300, 0x323, 0x5D0, 0x628, 0x94D, 0x200C, 0x200D, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xD7A3, 0xD800, 0xDFFF, 0xFFFF, 0x10000,
             0x10FFFF, 0x110000, 0x1FFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xE0100, 0xE01EF, 0xE01F0, 0x2FA1D, 0x323AF, 0x3FFFF]
    for _ in range(k):
        m = r.choice([0, 1, 2, r.randint(0, 8), r.randint(0, 40), r.randint(0, 200)])
        x = r.random()
        bs = bytes(r.randrange(256) for _ in range(m)) if x < 0.2 else bytes(r.choice(b"xn-.a9A\xc3\xa9\xe2\x80\x8d\xf0\x00") for _ in range(m)) if x < 0.4 else \
            b"xn--" + bytes(r.choice(b"abcz0189-") for _ in range(m)) if x < 0.7 else g.domain() if x < 0.9 else b".".join([g.ace() for _ in range(m % 9)])
        if bs and r.random() < 0.2:
            bs = bytearray(bs)
            g.corrupt(bs)
            bs = bytes(bs)
        for op in r.sample(["A", "U", "D", "T", "F", "X", "P"], 3):
            if op == "P" and len(bs) > 3:
                continue
            yield op + " " + hexb(bs)
        yield "a %s %d" % (hexb(bytes(b & 127 for b in bs)), r.choice([0, 0, 1, 7]))
        yield "D " + hexb(g.overflow())
        y = r.random()
        us = [r.choice(words) for _ in range(m)] if y < 0.4 else [r.randrange(1 << 32) for _ in range(m)] if y < 0.5 else [r.randrange(0x110000) for _ in range(m)] if y < 0.7 else \
            [r.choice(words[10:24]) for _ in range(m)] if y < 0.9 else [g.anycp() for _ in range(m)]
        for op in r.sample(["M", "N", "L", "E", "R", "I"], 3):
            yield op + " " + hexc(us if op != "I" else us[:8]) + (" -" if op == "E" else "")


def big_requests(g, full):
    r = g.r
    N = 16384
    out = []
    bu = ["61", "2e", "ff", "c3a9", "e0a5cd", "e4b8ad", "f09f9880", "d790", "cc81", "cc81cca7", "e2808d", "e2808c", "d8a8e2808c", "e0a495e0a58de2808d", "786e2d2d", "786e2d2d74646122e".replace("22e", "2e"), "78", "2d", "39", "7a", "efbfbd",
          "ea b080".replace(" ", ""), "e1848ae185a1", "efb7ba", "c2ad", "00"]
    for u in bu:
        k = N // (len(u) // 2)
        for kind in ("A", "U", "D", "T", "F"):
            for t in (["-"] if not full else ["-", "2e", "ff"]):
                out.append("BIG %s %s %d %s" % (kind, u, k - (1 if t != "-" else 0), t))
    out += ["BIG A 61 %d c3a9" % (N - 2), "BIG A %s %d 2ec3a9" % ("786e2d2d7464612e", N // 8 - 1), "BIG U %s %d -" % ("786e2d2d7464612e", N // 8),
            "BIG U %s 1 %s" % ("786e2d2d", puny([r.randrange(0x4E00, 0x9FFF) for _ in range(5000)]).hex()[: 2 * (N - 4)]),
            "BIG D %s 1 -" % puny([r.randrange(0x80, 0xD800) for _ in range(6000)]).hex()[: 2 * N],
            "BIG A %s 1 2e%s" % ("c3a9", (b"xn--" + puny([0x301 + i % 9 for i in range(9000)])).hex()[: 2 * (N - 3)])]
    cu = ["61", "e9", "4e00", "10ffff", "301", "301,327", "327,301", "345", "200d", "200c", "628,200c", "628,64b,200c", "64b", "5d0", "5d0,31,660", "1100,1161,11a8", "ac00,11a8", "fdfa", "ad", "d800", "110000", "ffffffff", "915,94d,200d", "0", "41,30a,323", "1d15e",
          "f71,f72,f74", "334,5b0,94d,316,301,345"]
    for u in cu:
        k = N // (u.count(",") + 1)
        for kind in ("M", "N", "L", "E", "R"):
            out.append("BIG %s %s %d %s" % (kind, u, k, r.choice(["-", "61", "5d0", "200c", "e9"])))
    for kind in ("E", "N", "L", "M", "R"):
        out.append("BIG %s %s 1 -" % (kind, hexc([0x10000 + 37 * i % 0xF0000 for i in range(N if kind in "MR" or full else 6000)])))
        out.append("BIG %s %s 1 -" % (kind, hexc([r.choice([0x628, 0x200C, 0x64B, 0x94D, 0x200D, 0x5D0, 0x300]) for _ in range(N)])))
        out.append("BIG %s %s 1 -" % (kind, hexc([0x628] + [0x64B] * 5000 + [0x200C] + [0x64B] * 5000 + [0x628])))
        out.append("BIG %s %s 1 -" % (kind, hexc([0x61] + [[0x301, 0x327, 0x315, 0x334][i % 4] for i in range(N - 1)])))
    return out


def C19(c):
    g = G(S, "C19")
    edge = [list(b"xn--"), [0x2E], [0xE9], [0x200C], [0x300], [0x5D0], list(b"-"), list(b"a"), list(b"9"), [0x1100]]
    c.model("Pipeline", "terminates", edge[:8], maxlen=2, op=lambda i: ["A " + hexb(bytes(i)), "U " + hexb(bytes(i))])
    big = big_requests(g, not vf.QUICK)
    rest = list(garbage(g, n(4500, 60000)))
    c.reqs = rest[::2] + big
    c.run(limit_s=100, wrap=["bash", "-c", 'ulimit -s 1024; exec "$@"', "_"])
    c.reqs = rest[1::2]
    c.run(exe=vf.build_driver("clang-asan"), limit_s=100)
    # little stack, as threads have on some platforms: depth must not grow with the input
    c.reqs = list(big)
    for u in ("61", "e9", "4e00", "10ffff", "301", "301,327", "64b", "200c", "5d0", "915,94d,200d", "ac00", "1100,1161,11a8", "ad", "fdfa", "ffffffff"):
        k = 300000 // (u.count(",") + 1)
        c.reqs += ["BIG %s %s %d %s" % (kind, u, k, r_) for kind, r_ in (("M", "-"), ("R", "-"), ("L", "5d0"))]
        c.reqs += ["BIG N %s %d -" % (u, k)] if u not in ("301,327",) else []
    for u in ("61", "c3a9", "f09f9880", "ff"):
        c.reqs += ["BIG %s %s 300000 -" % (kind, u) for kind in ("T", "F", "A", "U")]
    c.run(exe=vf.build_driver("gcc-O0"), wrap=["bash", "-c", 'ulimit -s 256; exec "$@"', "_"], limit_s=100, branches=False)
    # reads of uninitialised memory: Memcheck over a smaller mix
    sub = [q for q in rest if len(q) < 400][:: max(1, len(rest) // n(1600, 12000))]
    c.reqs = sub
    c.run(exe=vf.build_driver("memcheck"), wrap=["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no"], limit_s=200, branches=False)
    c.extra = {"big_inputs": len(big), "memcheck_requests": len(sub)}


# ------------------------------------------------------------------ C20
def single_header():
    """amalgamate /repo into a scratch folder"""
    import re
    import subprocess
    d = vf.scratch("single-")
    e = dict(os.environ)
    e["AMALGAMATE_OUTPUT_PATH"] = d
    p = subprocess.run(["python3", "-B", os.path.join(vf.REPO, "singleheader", "amalgamate.py")], env=e, capture_output=True, text=True, cwd=d)
    for f in ("ada_idna.h", "ada_idna.cpp"):
        q = os.path.join(d, f)
        if not os.path.exists(q):
            return d, "amalgamate.py: " + (p.stderr or p.stdout)[-600:]
        t = open(q).read()
        open(q, "w").write(re.sub(r"\A/\* auto-generated on [^\n]*\n", "/* auto-generated */\n", t))
    return d, None


def mixture(g, k):
    """requests to every operation"""
    r = g.r
    out = []
    for d in unicode_inputs(g, k // 6):
        out.append("U " + hexb(d))
    for _ in range(k // 3):
        out.append(r.choice(["A ", "A ", "X "]) + hexb(g.nonascii_domain()))
    for _ in range(k // 12):
        out += ["M " + hexc([g.anycp() for _ in range(r.randint(0, 12))]), "N " + hexc(g.decomposed()), "L " + hexc(r.choice([g.rtl, g.joiners, g.zwnj_ok, g.bidimix, g.validmix])()),
                "I " + hexc([g.anyvalid(), g.r.randrange(0x110000)]), "F " + hexb(bytes(g.ascii_any())), "R " + hexc([g.anycp() for _ in range(5)])]
        b = bytearray(enc([g.anycp() for _ in range(r.randint(1, 20))]))
        if r.random() < 0.5:
            g.corrupt(b)
        out += ["T " + hexb(bytes(b)), "F " + hexb(bytes(b)), "a %s %d" % (hexb(bytes(x & 127 for x in b)), r.randrange(9)), "A " + hexb(bytes(x & 127 for x in b))]
        u = [v for v in g.ulabel() if not 0xD800 <= v < 0xE000]
        out += ["D " + hexb(puny(u)), "E %s -" % hexc(u), "D " + hexb(bytes(r.choice(b"abz019-") for _ in range(r.randint(0, 9))))]
        out += ["D " + hexb(g.overflow()) for _ in range(4)]
        o = b"xn--" + g.overflow()
        out += ["U " + hexb(o), "A " + hexb(o + b".\xc3\xa9")]
    return out


def C20(c):
    g = G(S, "C20")
    inputs = []
    c.model("MCDomain", "mixed", domain_alphabet(), maxlen=n(2, 3), op=lambda i: inputs.append("A " + hexb(enc(i))) or [])
    base = inputs + ["A %02x" % x for x in range(128)] + ["F %02x" % x for x in range(256)]
    for lo, hi in spread(0, 0x10FFFF, 16):
        base += ["SM %x %x" % (lo, hi), "SI %x %x" % (lo, hi), "SN %x %x" % (lo, hi)]
    base += ["AL 41 16384 -", "UL 61 16385 -", "AL 61 16385 -", "LIM"]
    d, err = single_header()
    c.violations = []
    builds = {}
    if err:
        c.violations.append(err)
    vf.build_driver("asan")   # if this fails, the check cannot be carried out
    todo = [("gcc-O0", {}), ("gcc-O2", {}), ("gcc-O3", {}), ("clang-O0", {}), ("clang-O2", {}), ("gcc-uchar", {}), ("clang-O3-17", {}), ("asan", {"simd": True})]
    if not err:
        todo += [("gcc-O2", {"single": d}), ("clang-O2", {"single": d}), ("gcc-O1", {"single": d, "alone": True})]
    from concurrent.futures import ThreadPoolExecutor

    def mk(t):
        try:
            return vf.build_driver(t[0], **t[1]), None
        except vf.CheckError as e:
            return None, str(e)
    with ThreadPoolExecutor(vf.NCPU) as ex:
        exes = list(ex.map(mk, todo))
    for (v, kw), (exe, e) in zip(todo, exes):
        name = v + ("-single" if kw.get("single") else "") + ("-alone" if kw.get("alone") else "") + ("-simdutf" if kw.get("simd") else "")
        if e and kw.get("simd"):   # it may use more of that library than the stand-in has
            c.assumptions = getattr(c, "assumptions", []) + ["not built in the ADA_USE_SIMDUTF configuration: " + e[-600:]]
            continue
        if e:
            c.violations.append("build %s: %s" % (name, e[-1500:]))
            continue
        before = c.tally.events
        c.reqs = base + mixture(g, n(3600, 60000))
        c.run(exe=exe, branches=False)
        builds[name] = c.tally.events - before
    # a 32-bit big-endian machine
    for opt in (["-O2"] if vf.QUICK else ["-O2", "-O0"]):
        exe, why = vf.build_machine(opt)
        if exe is None:
            c.assumptions = getattr(c, "assumptions", []) + ["the library could not be linked for the big-endian machine (%s)" % why]
            continue
        before = c.tally.events
        c.reqs = base + mixture(g, n(3600, 60000))
        c.run(exe=exe, branches=False, limit_s=150)
        builds["mips32-be" + opt] = c.tally.events - before
    c.extra = {"events_per_build": builds}


# ------------------------------------------------------------------ C14
def fault_pool():
    e = lambda s: hexb(s.encode())  # noqa
    return ["A " + e("Stra\u00dfe.de"), "A " + e("xn--4db.\u00e9"), "A " + e("PLAIN.ascii"), "A " + e("e\u0301\u0327.\u05d0"), "U " + e("xn--tda.xn--4db.x"), "U " + e("a.b"), "M c5,df", "M 4e00", "N 65,301",
            "NN e9", "L 5d0,31", "L e9", "I e9", "I 61", "D tda".replace("tda", hexb(b"tda")), "E e9", "F " + e("a b")]


def wide_pool(g, k):
    """calls of every kind a process may make, for histories too many to enumerate"""
    r = g.r
    mixed = lambda: [r.choice(g.ascii_word(1, 2) + [0x2D, 0x31]), g.anycp()] + g.ascii_word(0, 3)  # noqa
    # ASCII first, and the fault of the label behind it
    out = ["L " + hexc(x) for x in ([0x61, 0x5D0], [0x61, 0x200D], [0x61, 0x301], [0x31, 0x627], [0x61, 0x2D, 0x2D, 0xE9], [0x61, 0x378], [0x61, 0xE9], [0x2D, 0xE9], [0x61, 0x30FB], [0x5D0, 0x61])]
    out += ["N 61,327,301", "N e9", "NN 61,327,301", "NN 65,301", "M ad", "M 41,c9", "M 41,378", "I 378", "I 200c", "I 301", "I 10ffff"]
    while len(out) < k:
        x = r.randrange(12)
        d = g.nonascii_domain()
        l = r.choice([g.ulabel, g.validmix, g.bidimix, g.joiners, mixed])()
        out.append(["A " + hexb(d), "A " + hexb(g.domain()), "U " + hexb(g.domain()), "U " + hexb(b"xn--" + puny(l)), "M " + hexc(g.upper(l)), "M " + hexc(g.decomposed()), "N " + hexc(g.decomposed()),
                    "NN " + hexc(l), "L " + hexc(l), "L " + hexc(mixed()), "I %x" % g.anycp(), "E " + hexc(l)][x])
    return out


def damages(g, k, d):
    """replacement data whose decoded content differs from the shipped one, as (kind, file)"""
    import binascii
    import zlib
    blob = vf.blob_bytes()
    out = []
    if len(blob) < 4096:
        return blob, out
    try:
        pay = zlib.decompress(blob, -15)
    except zlib.error:
        return blob, out
    crc = binascii.crc32(pay)

    def put(kind, p):
        z = None
        if bytes(p) == pay:
            return
        for mem in (9, 8):
            for lvl in (9, 8, 7):
                o = zlib.compressobj(lvl, zlib.DEFLATED, -15, mem)
                s = o.compress(bytes(p)) + o.flush()
                if len(s) <= len(blob):
                    z = s
                    break
            if z:
                break
        if z is None:
            return
        f = os.path.join(d, "%d.bin" % len(out))
        open(f, "wb").write(z + bytes(len(blob) - len(z)))
        out.append((kind, f))
    r = g.r
    for i in range(k):
        p = bytearray(pay)
        x = i % 10
        a = r.randrange(len(p))
        if x == 0:
            p[r.choice([0, 1, len(p) - 1, len(p) - 2])] ^= 1 << r.randrange(8)
            put("edge", p)
        elif x in (1, 2):
            p[a] ^= 1 << r.randrange(8)
            put("bit", p)
        elif x == 3:  # same sum of bytes
            b = r.randrange(len(p))
            if p[a] < 255 and p[b] > 0 and a != b:
                p[a] += 1
                p[b] -= 1
                put("same-sum", p)
        elif x == 4:  # same exclusive-or, byte-wise and word-wise
            b = (a + 8 * r.randint(1, 50)) % len(p)
            m = 1 << r.randrange(8)
            p[a] ^= m
            p[b] ^= m
            put("same-xor", p)
        elif x == 5:  # two blocks exchanged
            a &= ~15
            b = r.randrange(len(p)) & ~15
            if p[a:a + 16] != p[b:b + 16] and a + 16 <= len(p) and b + 16 <= len(p):
                p[a:a + 16], p[b:b + 16] = p[b:b + 16], p[a:a + 16]
                put("swapped", p)
        elif x == 6:
            put("shorter", p[:len(p) - r.choice([1, 2, 4, 1000])])
        elif x == 7:
            put("longer", p + bytes(r.choice([1, 4, 100])))
        elif x == 8:
            put("zero-tail", p[:-r.choice([1, 64, 4096])].ljust(len(p), b"\0"))
        else:  # a short burst
            for j in range(r.randint(2, 9)):
                p[(a + j) % len(p)] ^= r.randrange(1, 256)
            put("burst", p)
    # partial collisions of the checksum: equal in half of its bits
    want = {"low16": 0xFFFF, "high16": 0xFFFF0000, "low8": 0xFF}
    base = bytearray(pay)
    tail = binascii.crc32(base[:-4])
    found = set()
    for v in range(1 << 18):
        w = (r.randrange(1 << 32)).to_bytes(4, "little")
        cc = binascii.crc32(w, tail)
        for nme, m in want.items():
            if nme not in found and (cc ^ crc) & m == 0 and w != bytes(base[-4:]):
                found.add(nme)
                put("crc-" + nme, base[:-4] + w)
        if len(found) == 3:
            break
    # not even a stream of data
    for kind, s in (("empty", b"\x03\x00"), ("stored-empty", b"\x01\x00\x00\xff\xff"), ("zeros", b""), ("ones", b"\xff" * len(blob)), ("reserved", b"\x07" + blob[1:]),
                    ("cut", blob[:len(blob) // 2]), ("cut1", blob[:-1]), ("cut2", blob[:-2]), ("rot", blob[1:] + blob[:1])):
        f = os.path.join(d, "x%d.bin" % len(out))
        open(f, "wb").write(s + bytes(max(0, len(blob) - len(s))))
        out.append((kind, f))
    return blob, out


def C14(c):
    g = G(S, "C14")
    r = g.r
    pool = fault_pool()
    needs = [1 if p[0] in "AUMNLI" and p not in (pool[2], pool[5], pool[13]) else 0 for p in pool]
    d = vf.scratch("gen-")
    f = os.path.join(d, "gen.json")
    json.dump({"pool": len(pool), "needs": needs, "max": 2 if vf.QUICK else 3, "faults": True, "emit": True}, open(f, "w"))
    out, gen_, dis = vf.model("Session", os.path.join(vf.SPEC, "Session.cfg"), env={"GEN": f})
    hs = list(vf.parse_lines(out, "G"))
    c.models["Session/faults"] = {"states": dis, "transitions": gen_, "calls": len(pool), "depth": 2 if vf.QUICK else 3, "vectors": len(hs)}
    c.gen += gen_
    c.dis += dis
    c.vectors += len(hs)
    scs = []

    wide = wide_pool(g, n(250, 1500))

    def hist(k):
        return " | ".join(r.choice(pool if r.random() < 0.4 else wide) for _ in range(k))
    for h in hs:
        b = " | ".join(pool[i - 1] for i in h["h"])
        if h["b"]:
            scs.append("%s %d | %s" % (r.choice(["oom", "oom", "oom1"]), r.randrange(2), b))
        elif r.random() < 0.3:
            scs.append("none %d | %s" % (r.randrange(2), b))
    for _ in range(n(300, 4000)):
        scs.append("%s %d | %s" % (r.choice(["oom", "oom1", "none"]), r.randrange(2), hist(r.randint(4, 10))))
    scs += ["oom 0 | G 0 | " + hist(3), "oom1 0 | " + hist(2) + " | G 0", "oom1 1 | G 0", "none 0 | G 0", "none 1 | " + hist(3) + " | G 0"]
    # the k-th allocation of a history fails, for every k
    for p in pool:
        for q in [r.choice(pool), p]:
            for k in range(1, n(14, 40)):
                scs.append("alloc:%d %d | %s | %s | %s" % (k, r.randrange(2), p, q, hist(2)))
    # every call of the wide pool as the first one that needs the tables, and as the one behind it
    for p in wide:
        scs.append("%s %d | %s | %s" % (r.choice(["oom", "oom1"]), r.randrange(2), p, hist(2)))
        scs.append("oom %d | %s | %s | %s" % (r.randrange(2), r.choice(pool), p, p))
    blob, dam = damages(g, n(120, 2500), d)
    bf = os.path.join(d, "blob.bin")
    open(bf, "wb").write(blob)
    import zlib
    pay = zlib.decompress(blob, -15) if blob and dam else b""

    def same(o, m):   # does the altered stream still say what it should?
        b = bytearray(blob)
        b[o] ^= m
        try:
            return zlib.decompressobj(-15).decompress(bytes(b)) == pay
        except zlib.error:
            return False
    if blob:
        for kind, df in dam:
            scs.append("%s:%s %d | %s | %s | G 0" % ("data" if df.rsplit("/", 1)[1].startswith("x") else "dmg", df, r.randrange(2), r.choice(pool), hist(2)))
        offs = set(range(0, min(len(blob), 160))) | set(range(len(blob) - 12, len(blob))) | {r.randrange(len(blob)) for _ in range(n(2200, len(blob)))}
        for o in sorted(offs):
            for m in ([1 << r.randrange(8)] if vf.QUICK else [1 << b for b in range(8)]):
                scs.append("%s:%d:%d %d | %s | G 0" % ("flip" if same(o, m) else "dflip", o, m, int(r.random() < 0.1), hist(1)))
    r.shuffle(scs)
    c.violations = []
    exes = {"gcc-O2": scs, "asan": [s for s in scs if "flip" not in s[:5]][::3] + [s for s in scs if "flip" in s[:5]][::n(4, 12)]}
    br, per = {}, {}
    for v, ss in exes.items():
        exe = vf.build_fault(v)
        ev, _ = vf.run_scenarios(exe, ["none 0 | G 0"], bf)
        ref = json.loads(open(ev[0]).read())["events"][0]
        if ref["op"] != "G":
            c.violations.append("a process without fault: %s" % ref)
            continue

        def once(ss):
            ev, copies = vf.run_scenarios(exe, ss, bf, 60)
            return vf.validate_scenarios(ev, ref["d"]), copies
        res, copies = once(ss)
        bad = res["bad"]
        if bad:
            again, _ = once([ss[b["sid"] - 1] for b, _ in bad])
            ids = {b["sid"] for b, _ in again["bad"]}
            bad = [x for i, x in enumerate(bad) if i + 1 in ids]
        for b, i in bad[:20]:
            e = b["events"][i] if i < len(b["events"]) else None
            c.violations.append("%s: %s: call %d answers %s" % (v, ss[b["sid"] - 1][:300], i + 1, vf.describe(e)[:300]))
        c.gen += res["tr"]
        c.dis += res["st"]
        c.traces = getattr(c, "traces", 0) + res["events"]
        per[v] = {"processes": res["scenarios"], "events": res["events"], "outcomes": res["br"], "copies_of_data": copies}
    c.samples = [{"scenario": s[:200]} for s in scs[:3]]
    c.extra = {"faults": per, "damaged_payloads": len(dam)}
    c.assumptions = ["damage that keeps length and CRC-32 of the decoded data cannot be detected and is not generated", "the driver finds the embedded data in its own image by content",
                     "TLC evaluates the specification correctly"]


SHIPPED = {"load": "acq", "claim": "acqrel", "lost": "acq", "store": "rel", "spin": "acq", "cas": True, "fastptr": False, "early": False,
           "readyfirst": False, "failstore": True, "retry": False, "impatient": False}
# every weakening of the protocol must break a property, and these must not
WEAKER = [({"load": "rlx"}, "safe"), ({"store": "rlx"}, "safe"), ({"spin": "rlx"}, "safe"), ({"cas": False}, "safe"), ({"fastptr": True}, "safe"),
          ({"fastptr": True, "early": True}, "safe"), ({"readyfirst": True}, "safe"), ({"retry": True}, "safe"), ({"impatient": True}, "safe"), ({"failstore": False}, "live"),
          ({"claim": "rlx"}, "fine"), ({"lost": "rlx"}, "fine"), ({"early": True}, "fine"), ({"claim": "rlx", "lost": "rlx"}, "fine")]


def table_init(c, d, name, cfg, expect="fine", emit=False, proto=None, **kw):
    p = dict(SHIPPED)
    p.update(proto or {})
    q = {"threads": 2, "calls": 1, "faults": True, "sc": False, "emit": emit, "spins": 0, "ticks": 9, "proto": p}
    q.update(kw)
    f = os.path.join(d, name + ".json")
    json.dump(q, open(f, "w"))
    r = vf.tlc("TableInit", cfg=os.path.join(vf.SPEC, cfg + ".cfg"), env={"GEN": f})
    g_, d_ = vf.states(r.stdout)
    if expect == "fine" and r.returncode != 0:
        raise vf.CheckError("TableInit %s: rc %d %s" % (name, r.returncode, vf.tidy(r.stdout)[-2000:]))
    if expect == "safe" and not (r.returncode in (12, 13) and ("Invariant Safe is violated" in r.stdout or "property Final" in r.stdout)):
        raise vf.CheckError("TableInit %s: the weakened protocol should break a property, rc %d" % (name, r.returncode))
    if expect == "live" and not (r.returncode == 13 and "Returns was violated" in r.stdout):
        raise vf.CheckError("TableInit %s: the weakened protocol should not terminate, rc %d" % (name, r.returncode))
    c.models["TableInit/" + name] = {"states": d_, "transitions": g_, "threads": q["threads"], "calls_each": q["calls"], "memory": "sequential" if q["sc"] else "C++ acquire/release/relaxed",
                                     "result": "every property holds" if expect == "fine" else "violated, as it must be"}
    c.gen += g_
    c.dis += d_
    return [x for x in vf.parse_lines(r.stdout, "G")] if emit else []


def C13(c):
    g = G(S, "C13")
    r = g.r
    d = vf.scratch("gen-")
    for name, kw in [("2x2", {"threads": 2, "calls": 2}), ("3x1", {"threads": 3, "ticks": 7})] + ([] if vf.QUICK else [("3x2", {"threads": 3, "calls": 2}), ("4x1", {"threads": 4, "ticks": 7}), ("2x4", {"calls": 4, "ticks": 14})]):
        table_init(c, d, name, "TableInit", **kw)
    for name, kw in [("live-2x2", {"calls": 2}), ("live-3x1", {"threads": 3})] + ([] if vf.QUICK else [("live-3x2", {"threads": 3, "calls": 2})]):
        table_init(c, d, name, "TableInitLive", sc=True, ticks=0, **kw)
    for m, ex in WEAKER:
        nm = "weak-" + "-".join(sorted(m))
        table_init(c, d, nm, "TableInitLive" if ex == "live" else "TableInit", expect=ex, proto=m, **({"sc": True, "ticks": 0} if ex == "live" else {"calls": 2}))
    sch = table_init(c, d, "schedules-2x1", "TableInitGen", sc=True, emit=True, spins=n(2, 4))
    sch += table_init(c, d, "schedules-2x2", "TableInitGen", sc=True, emit=True, spins=n(2, 3), calls=2)
    s3 = table_init(c, d, "schedules-3x1", "TableInitGen", sc=True, emit=True, spins=1, threads=3)
    sch = [x for x in sch if x["env"] != "bad"]
    s3 = sorted((x for x in s3 if x["env"] != "bad"), key=lambda x: (x["env"], x["s"]))
    c.vectors += len(sch) + len(s3)
    sch += rot(s3, n(500, 6000))
    pool = [p for p in fault_pool() if not p.startswith("G")]
    needy = [p for p in pool if p[0] in "AUMNLI" and p not in (pool[2], pool[5], pool[13])]
    # longer calls, that read much of the tables and would meet in any remembered state
    more = []
    for q in mixture(g, n(260, 2000)):
        if q.split(" ", 1)[0] in ("A", "U", "M", "N", "L", "I", "D", "E", "F") and len(q) < 400:
            more.append(q)

    def calls(k):
        x = r.random()
        if x < 0.25:
            return [r.choice(needy)] * k
        if x < 0.4:
            return [r.choice(pool) for _ in range(k)]
        if x < 0.6:
            q = r.choice(more)
            return [q] * k
        return [r.choice(more if r.random() < 0.6 else pool) for _ in range(k)]

    def threads(t, k):
        x = r.random()
        if x < 0.45:      # all the same
            one = calls(k)
            return " # ".join([" | ".join(one)] * t)
        return " # ".join(" | ".join(calls(k)) for _ in range(t))
    scs = []
    for x in sch:
        t = max(x["s"])
        scs.append("%s %s %d %d 0 - %d %s # %s" % ({"ok": "none"}.get(x["env"], x["env"]), r.choice(["pre", "post"]), r.randrange(2), r.choice([3, 3, 2000]),
                                                    r.randrange(1 << 30), ",".join(map(str, x["s"])), threads(t, r.choice([1, 1, 2]))))
    # every pair of calls as the first two of the process
    firsts = [(a, b) for i, a in enumerate(pool) for b in pool[i:]]
    for a, b in firsts:
        scs.append("none %s %d 3 %d - %d - # %s # %s" % (r.choice(["pre", "post"]), r.randrange(2), r.choice([0, 30]), r.randrange(1 << 30), a, b))
    for q in more:    # the same call by two threads, twice: whatever a call remembers is written by both
        scs.append("none %s 0 3 0 - %d - # %s | %s # %s | %s" % (r.choice(["pre", "post"]), r.randrange(1 << 30), q, r.choice(needy), q, r.choice(more)))
    for _ in range(n(900, 15000)):
        t = r.choice([2, 2, 2, 3, 3, 4, 6, 8])
        cut = "-" if r.random() < 0.5 else "%d:%d" % (r.randint(1, t), r.choice([r.randint(1, 400), r.randint(1, 20000), r.randint(1, 1500000)]))
        scs.append("%s %s %d %d %d %s %d - # %s" % (r.choice(["none", "none", "none", "oom", "oom1"]), r.choice(["pre", "post"]), r.randrange(2), r.choice([3, 3, 50, 2000, 20000]),
                                                     r.choice([0, 20, 60]), cut, r.randrange(1 << 30), threads(t, r.choice([1, 1, 2, 3]))))
    # crowds: state shared by some of the threads only (slots, pools) needs more threads than slots
    crowd = [needy, more, pool, [q for q in pool + more if q[0] in "IL"], [q for q in pool + more if q[0] in "DEFAN"]]
    for i in range(n(60, 600)):
        t = r.choice([10, 14, 18, 20, 28, 28])
        qs = [r.choice(crowd[i % len(crowd)]) for _ in range(r.choice([1, 1, 2]))]
        scs.append("none %s %d %d 0 - %d - # %s" % (r.choice(["pre", "post"]), r.randrange(2), r.choice([3, 50, 2000]), r.randrange(1 << 30), " # ".join([" | ".join(qs)] * t)))
    r.shuffle(scs)
    c.violations = []
    hold = []
    for i in range(n(4, 24)):
        t = r.choice([2, 4, 7])
        hold.append("%s %d 1 # %s" % (r.choice(["none", "none", "oom"]), 700, threads(t, 2)))
    quick_st = ["none 0 %d # %s" % (r.choice([1, 3]), threads(r.choice([2, 4, 8]), 3)) for _ in range(n(400, 6000))]
    quick_st += ["none 0 %d # %s" % (r.choice([1, 3]), threads(r.choice([12, 20, 28]), 3)) for _ in range(n(24, 240))]
    kinds = [("scheduled", vf.build_sched, scs, 60, None), ("free-running", lambda: vf.build_stress("gcc-O2"), quick_st, 60, 2), ("preparing thread held", lambda: vf.build_stress("gcc-O2"), hold, 60, 2)]
    if not vf.QUICK:
        kinds.append(("free-running O3", lambda: vf.build_stress("clang-O3-17"), quick_st[::2], 60, 2))
    per = {}
    for name, mk, ss, lim, procs in kinds:
        try:
            exe = mk()
        except vf.CheckError as e:
            if name != "scheduled":
                raise
            per[name] = {"not_run": "the code synchronises by means the scheduler does not know: " + str(e)[-300:]}
            continue

        def once(ss):
            return vf.validate_threads(vf.run_threads(exe, ss, lim, procs))
        res = once(ss)
        bad = res["bad"]
        if bad:
            again = once([ss[b["sid"] - 1] for b, _ in bad])
            rep_ = {b["sid"] for b, _ in again["bad"]}
            bad = [x for i, x in enumerate(bad) if i + 1 in rep_]
        for b, what in bad[:20]:
            c.violations.append("%s: %s in: %s" % (name, what, ss[b["sid"] - 1][:400]))
        c.gen += res["tr"]
        c.dis += res["st"]
        c.traces = getattr(c, "traces", 0) + res["events"]
        per[name] = {"processes": res["runs"], "events": res["events"], "classes_of_shared_bytes": res["classes"], "distinct_synchronisation_orders": res["distinct"], "outcomes": dict(sorted(res["br"].items()))}
    c.samples = [{"scenario": s[:300]} for s in scs[:4]]
    c.extra = {"executions": per}
    c.assumptions = ["the instrumentation of clang's thread sanitizer reports every access of the library to memory that is not its own stack",
                     "preparation is recognised by an allocation of at least 60000 bytes", "waiting is counted in reads (20000 at most under the scheduler) and in time (0.7 s on the real clock)",
                     "TLC evaluates the specification correctly"]


# ---------------------------------------------------------------- C21
def tool_scenarios(r):
    """(name, steps) from the specification's files and histories"""
    import tables as T
    out, g, d = vf.model("Tables", os.path.join(vf.SPEC, "Tables.cfg"))
    files = list(vf.parse_lines(out, "G"))
    w = vf.tlc("Tables", cfg=os.path.join(vf.SPEC, "TablesWeak.cfg"))
    if w.returncode != 12 or "Lossless is violated" not in w.stdout:
        raise vf.CheckError("the model without the capacity check should lose code points")
    out, g2, d2 = vf.model("Toolchain", os.path.join(vf.SPEC, "Toolchain.cfg"))
    hists = list(vf.parse_lines(out, "G"))
    sc = []
    r.shuffle(files)
    per = n(1500, 600)
    for i in range(0, len(files), per):
        T.CUT[:] = r.choice([[1, 63], [32, 31], [1, 1], [63, 2], [33, 62]])
        sc.append(("files", [("M", T.place(files[i:i + per], r), r.randrange(3))]))
    for i in range(n(8, 60)):
        sc.append(("wild", [("M", T.wild(r, r.choice([5, 60, 150])), r.randrange(3))]))
    for k in (100, 400, 511, 512, 513, 514, 600, 1100):
        sc.append(("crowded%d" % k, [("M", T.crowded(r, k), 0)]))
    sc.append(("unicode", [("M", T.unicode_rows(), 0), ("I", *map(list, (lambda s, c: (T.ASCII_S + s, T.ASCII_C + c))(*T.unicode_ids())))]))
    for k in (0, 1, 40, n(200, 2000)):
        sc.append(("ids", [("I", *T.ids(r, k))]))
    cmd = {"M1": ("M", T.wild(r, 20), 0), "M2": ("M", T.wild(r, 40), 1), "MX": ("M", T.crowded(r, 600), 0), "I1": ("I", *T.ids(r, 30)), "P": ("P",)}
    cmd["M1s"] = ("M", T.sibling(cmd["M1"][1], r), 0)
    cmd["I1s"] = ("I", *T.sibling_ids(*cmd["I1"][1:]))
    for k in range(n(2, 10)):
        a, b = T.wild(r, 60), T.ids(r, 40)
        sc.append(("siblings", [("M", a, 0), ("M", T.sibling(a, r), 0), ("I", *b), ("I", *T.sibling_ids(*b))]))
    twins = lambda h: {"M1", "M1s"} <= set(h) or {"I1", "I1s"} <= set(h)
    short = [h for h in hists if len(h) == 1 or len(h) == 2 and twins(h)]
    long_ = [h for h in hists if h not in short and h]
    r.shuffle(long_)
    for h in short + long_[:n(24, len(long_))]:
        sc.append((" ".join(h), [cmd[x] for x in h]))
    return sc, {"Tables": (g, d), "Toolchain": (g2, d2)}, len(files) + len(hists)


def C21(c):
    import random
    from concurrent.futures import ThreadPoolExecutor
    import tables as T
    r = random.Random("C21-%s" % S)
    g = G(S, "C21")
    sc, models, vec = tool_scenarios(r)
    for k, (a, b) in models.items():
        c.models[k] = {"states": b, "transitions": a}
        c.gen += a
        c.dis += b
    c.vectors = vec
    obj = T.driver_object()
    extra = ["SN 0 10ffff"] + ["L " + hexc(f()) for f in (g.rtl, g.joiners, g.zwnj_ok, g.bidimix, g.validmix) for _ in range(n(20, 200))]
    extra += ["N " + hexc(g.decomposed()) for _ in range(n(60, 600))]
    ref = T.copy_tree()
    exe, err = T.build(ref, obj)
    if not exe:
        raise vf.CheckError("cannot build the tree: " + err)
    sm, sf, ss, other, cr = T.observe(ref, exe, extra)
    shipped = {"map": sm, "first": sf, "rest": ss}
    lines = {l for l in other}

    def one(t):
        name, steps, seed = t
        d, rec, msgs = T.history(steps, random.Random(seed))
        exe, err = T.build(d, obj)
        o = {"name": name, "steps": rec, "built": int(bool(exe)), "map": [], "first": [], "rest": []}
        oth, crash = [], []
        if exe:
            o["map"], o["first"], o["rest"], oth, crash = T.observe(d, exe, extra)
            if crash:
                o["built"] = 2
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        return o, oth, msgs + [err] + [str(x[:4]) for x in crash]
    with ThreadPoolExecutor(vf.NCPU) as ex:
        res = list(ex.map(one, [(a, b, "%s-%d" % (S, i)) for i, (a, b) in enumerate(sc)]))
    c.violations = []
    d = vf.scratch("tools-")
    ev = os.path.join(d, "sc.ndjson")
    with open(ev, "w") as f:
        for o, oth, _ in res:
            f.write(json.dumps(o) + "\n")
            lines.update(oth)
    v = vf.validate_scenarios([ev], "", chunk=2, module="TableTrace", meta={"shipped": shipped})
    for s, _ in v["bad"]:
        i = [o for o, _, _ in res].index(s)
        c.violations.append("tools [%s]: built %d, %s; differences: %s" % (s["name"], s["built"], "; ".join(m for m in res[i][2] if m)[-700:], v["where"][:4]))
    c.traces = v["scenarios"]
    # the other tables: every observation made anywhere, once
    q = os.path.join(d, "other.ev")
    with open(q, "w") as f:
        f.writelines(sorted(lines))
    c.tally.add(vf.validate([q]))
    c.extra = {"scenarios": v["scenarios"], "observations": v["events"], "histories": sorted({o["name"] for o, _, _ in res if o["name"].isupper() or " " in o["name"]})[:60],
               "refused": sum(1 for o, _, _ in res for e in o["steps"] if e["refused"])}
    c.assumptions = ["a data file lists its rows in ascending order, in the layout Unicode has published; ASCII and what is above U+E0000 are as Unicode has them (upper case mapped, one range of ignored code points)",
                     "a file whose mapped and ignored code points touch more than 450 blocks of 64 may be refused (Unicode 17: 179)", "the tools run with a stand-in for the download module"]
