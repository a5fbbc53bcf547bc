"""Seeded input generators for the code -> specification direction."""
import random
import ucd

DOTS = ["."] * 12 + ["\u3002", "\uff0e", "\uff61"]
IGN = ["\u00ad", "\u200b", "\u2060", "\ufeff", "\ufe0f", "\u034f", "\u180b", "\u2064"]
VIRAMA = [0x94D, 0x9CD, 0xA4D, 0xACD, 0xB4D, 0xBCD, 0xC4D, 0xCCD, 0xD4D, 0xDCA, 0xE3A, 0xF84, 0x1039, 0x103A, 0x1714, 0x1715,
          0x1734, 0x17D2, 0x1A60, 0x1B44, 0x1BAA, 0x1BAB, 0x1BF2, 0x1BF3, 0x2D7F, 0xA806, 0xA82C, 0xA8C4, 0xA953, 0xA9C0, 0xAAF6,
          0xABED, 0x10A3F, 0x11046, 0x11070, 0x1107F, 0x110B9, 0x11133, 0x11134, 0x111C0, 0x11235, 0x112EA, 0x1134D, 0x113CE,
          0x113CF, 0x113D0, 0x11442, 0x114C2, 0x115BF, 0x1163F, 0x116B6, 0x1172B, 0x11839, 0x1193D, 0x1193E, 0x119E0, 0x11A34,
          0x11A47, 0x11A99, 0x11C3F, 0x11D44, 0x11D45, 0x11D97, 0x11F41, 0x11F42, 0x1612F]


def hexb(b):
    return b.hex() or "-"


def hexc(cps):
    return ",".join("%x" % c for c in cps) or "-"


def enc(cps):
    out = bytearray()
    for c in cps:
        if 0xD800 <= c < 0xE000:
            out += bytes([0xE0 | c >> 12, 0x80 | (c >> 6) & 63, 0x80 | c & 63])
        else:
            out += chr(c).encode()
    return bytes(out)


def puny(cps):
    """Punycode of a code point list (generation only)"""
    return "".join(map(chr, cps)).encode("punycode")


def number(v, bias):
    """a generalised variable-length integer of RFC 3492, of any size"""
    out, k = bytearray(), 36
    while True:
        t = 1 if k <= bias else 26 if k >= bias + 26 else k - bias
        d = v if v < t else t + (v - t) % (36 - t)
        out.append(d + 97 if d < 26 else d + 22)
        if v < t:
            return bytes(out)
        v = (v - t) // (36 - t)
        k += 36


def adapt(d, points, first):
    d = d // 700 if first else d // 2
    d += d // points
    k = 0
    while d > 455:
        d //= 35
        k += 36
    return k + 36 * d // (d + 38)


def delta_edge(points, total):
    """a label of `points` ASCII letters and one code point whose single delta is `total`: (code points or None, its Punycode)"""
    m, p = 128 + total // (points + 1), total % (points + 1)
    enc = b"a" * points + (b"-" if points else b"") + number(total, 72)
    ok = m < 0x110000 and not 0xD800 <= m < 0xE000
    return ([0x61] * p + [m] + [0x61] * (points - p) if ok else None), enc


def near_prefix():
    """texts that nearly begin with xn--"""
    out = []
    for i, alts in enumerate(([0x77, 0x79, 0x58, 0xE9], [0x6D, 0x6F, 0x4E, 0xE9], [0x2C, 0x2E, 0x61, 0xE9], [0x2C, 0x2E, 0x61, 0xE9])):
        for a in alts:
            w = [0x78, 0x6E, 0x2D, 0x2D]
            w[i] = a
            out += [w, w + [0xE9], w + [0x61, 0xE9]]
    for w in ([0x78, 0x6E, 0x2D], [0x78, 0x6E], [0x78], [0x78, 0x6E, 0x2D, 0x2D], [0x78, 0x6E, 0x2D, 0x2D, 0x61], [0x78, 0x2D, 0x6E, 0x2D], [0x6E, 0x78, 0x2D, 0x2D]):
        for k in range(len(w) + 1):
            out += [w[:k] + [0xE9] + w[k:], w[:k] + [0xE9, 0x5D0] + w[k:], w[:k] + [0xE9] + w[k:] + [0x4E00]]
        out += [w + [0xE9] * 2, w + [0x61] * 4 + [0xE9]]
    return out


class G:
    def overflow(self):
        """a Punycode payload with a number at the edge of, or far beyond, 31 or 32 bits; numbers
        that a wrapping sum would take for an innocent one in particular"""
        r = self.r
        pre = bytes(self.ascii_word(1, 4)).replace(b"-", b"a") if r.random() < 0.5 else b""
        out = pre + b"-" if pre else b""
        n_, bias, first, i, cp = len(pre), 72, True, 0, 128
        for _ in range(r.choice([0, 0, 1, 2])):     # some honest code points first
            target = max(cp, r.choice([0xE9, 0x3B1, 0x5D0, 0x4E00, 0x1F600, cp + r.randrange(300)]))
            d = (target - cp) * (n_ + 1) + r.randrange(n_ + 1 - (i if target == cp else 0)) - (i if target != cp else 0)
            d = max(d, 0)
            out += number(d, bias)
            bias = adapt(d, n_ + 1, first)
            first = False
            cp += (i + d) // (n_ + 1)
            i = (i + d) % (n_ + 1) + 1
            n_ += 1
        small = r.choice([0, 1, (r.choice([0xE9, 0x4E00, 0x20AC, 0x10FFFF]) - 128) * (n_ + 1), r.randrange(1 << 20)])
        v = r.choice([(1 << 31) - 1 - i + r.randint(-3, 3), (1 << 31) + r.randint(-2, 2), (1 << 31) + small, (1 << 32) + small, (1 << 32) * r.randint(1, 40) + small,
                      (1 << 31) * r.randint(1, 40) + small, (0x110000 - cp) * (n_ + 1) - i + r.randint(-2, 2), (0x10FFFF - cp) * (n_ + 1), (1 << 16) * (n_ + 1), (1 << 33) + small, r.randrange(1 << 36)])
        v = max(v, 0)
        out += number(v, bias)
        if r.random() < 0.3:
            out += bytes(r.choice(b"ab09z") for _ in range(r.randint(1, 3)))
        return out

    def __init__(self, seed, tag=""):
        self.r = random.Random("%s/%s" % (seed, tag))

    # -- code points -------------------------------------------------------
    def pick(self, l):
        return l[self.r.randrange(len(l))]

    def anyvalid(self):
        # uniform over classes first: rare classes matter as much as CJK
        if self.r.random() < 0.7:
            return self.pick(self.pick(ucd.valid_classes()))
        return self.pick(ucd.valid())

    def sel(self, **kw):
        return self.pick(ucd.select(st=1, **kw))

    def anycp(self):
        x = self.r.random()
        if x < 0.55:
            return self.anyvalid()
        if x < 0.85:
            return self.pick(ucd.mapped())
        if x < 0.93:
            return self.pick(ucd.disallowed())
        return self.r.randrange(0x110000)

    # -- labels (lists of code points) -------------------------------------
    def ascii_word(self, lo=1, hi=12):
        return [ord(self.pick("abcdefghijklmnopqrstuvwxyz0123456789-")) for _ in range(self.r.randint(lo, hi))]

    def ascii_any(self, lo=1, hi=20):
        return [self.r.randrange(128) if self.r.random() < 0.3 else ord(self.pick("ABCXYZabcxyz019-_")) for _ in range(self.r.randint(lo, hi))]

    def latin(self):
        return [self.pick([0xE0, 0xE9, 0xF6, 0xFC, 0xDF, 0x131, 0x101, 0x17E, 0x3B1, 0x3C2, 0x434, 0x4E00, 0x5B57, 0xAC00, 0x3042])
                if self.r.random() < 0.6 else ord(self.pick("abcxyz0-")) for _ in range(self.r.randint(1, 8))]

    def cjk(self):
        return [self.r.randrange(0x4E00, 0x9FFF) for _ in range(self.r.randint(1, 10))]

    def validmix(self, n=None):
        return [self.anyvalid() for _ in range(n or self.r.randint(1, 6))]

    def decomposed(self):
        out = []
        for _ in range(self.r.randint(1, 5)):
            x = self.r.random()
            if x < 0.35:
                c = self.pick(ucd.decomposable())
                out += ucd.decomp(c) if self.r.random() < 0.6 else [c]
            elif x < 0.6:
                a, b, c, _s = self.pick(ucd.comp_pairs())
                out.append(a)
                k = self.r.randint(0, 3)
                marks = [self.pick(self.marks()) for _ in range(k)]
                marks.insert(self.r.randint(0, k), b)
                out += marks
            elif x < 0.8:
                out += self.hangul()
            else:
                out.append(self.anyvalid())
        return out

    _marks = None

    def marks(self):
        if G._marks is None:
            byccc = {}
            for c in ucd.valid():
                a = ucd.attr(c)
                if a[1]:
                    byccc.setdefault(a[1], []).append(c)
            G._marks = [c for v in byccc.values() for c in v[:6]]
        return G._marks

    def hangul(self):
        r = self.r
        x = r.randrange(7)
        L, V, T = r.randrange(0x1100, 0x1113), r.randrange(0x1161, 0x1176), r.randrange(0x11A7, 0x11C3)
        S = 0xAC00 + r.randrange(19 * 21) * 28
        return [[L, V], [L, V, T], [S], [S, T], [S + r.randrange(1, 28)], [S + r.randrange(1, 28), T], [V, T, L]][x]

    def rtl(self, valid_bias=0.75):
        r = self.r
        al = ucd.BAL if r.random() < 0.5 else ucd.BR
        out = [self.sel(bidi=al, mark=0)]
        digits = ucd.BEN if r.random() < 0.5 else ucd.BAN
        for _ in range(r.randint(0, 6)):
            x = r.random()
            if x < 0.5:
                out.append(self.sel(bidi=self.pick([ucd.BR, ucd.BAL]), mark=0))
            elif x < 0.65:
                out.append(self.sel(bidi=digits))
            elif x < 0.75:
                out.append(self.sel(bidi=self.pick([ucd.BES, ucd.BCS, ucd.BET, ucd.BON])))
            elif x < 0.9:
                out.append(self.sel(bidi=ucd.BNSM))
            elif r.random() > valid_bias:
                out.append(self.sel(bidi=self.pick([ucd.BL, ucd.BEN, ucd.BAN])))
        if r.random() < 0.6:
            out.append(self.sel(bidi=self.pick([ucd.BR, ucd.BAL, digits]), mark=0))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            out.append(self.sel(bidi=ucd.BNSM))
        return out

    def bidimix(self):
        ks = [ucd.BL, ucd.BR, ucd.BEN, ucd.BES, ucd.BET, ucd.BAN, ucd.BCS, ucd.BON, ucd.BBN, ucd.BNSM, ucd.BAL]
        return [self.sel(bidi=self.pick(ks)) for _ in range(self.r.randint(1, 7))]

    def joiners(self):
        r = self.r

        def filler():
            x = r.random()
            if x < 0.22:
                return [self.sel(join=ucd.JD)]
            if x < 0.3:
                return [self.sel(join=ucd.JL)]
            if x < 0.4:
                return [self.sel(join=ucd.JR)]
            if x < 0.5:
                return [self.sel(join=ucd.JT) for _ in range(r.randint(1, 3))]
            if x < 0.65:
                return [self.pick([0x915, 0x995, 0xD95, 0x1000, 0x628]), self.pick(VIRAMA)]
            if x < 0.75:
                return [self.pick(VIRAMA)]
            if x < 0.85:
                return [self.sel(mark=1)]
            return [self.anyvalid()]
        out = []
        for _ in range(r.randint(1, 3)):
            for _ in range(r.randint(0, 3)):
                out += filler()
            out.append(r.choice([0x200C, 0x200C, 0x200D]))
        for _ in range(r.randint(0, 3)):
            out += filler()
        return out

    def zwnj_ok(self):
        """L|D T* ZWNJ T* R|D, mostly in one script direction"""
        r = self.r
        l = [self.sel(join=r.choice([ucd.JD, ucd.JD, ucd.JL]))]
        l += [self.sel(join=ucd.JT, mark=1) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        l.append(0x200C)
        l += [self.sel(join=ucd.JT, mark=1) for _ in range(r.choice([0, 0, 1, 3]))]
        l.append(self.sel(join=r.choice([ucd.JD, ucd.JR])))
        if r.random() < 0.4:
            l = [self.sel(bidi=ucd.BAL, mark=0)] + l
        if r.random() < 0.4:
            l += [self.sel(bidi=r.choice([ucd.BAL, ucd.BAL, ucd.BEN, ucd.BL]), mark=0)]
        return l

    def upper(self, l):
        """another spelling of the same label: case, width, ignorables"""
        out = []
        for c in l:
            x = self.r.random()
            if x < 0.3 and 0x61 <= c <= 0x7A:
                out.append(c - 32)
            elif x < 0.5 and 0x21 <= c <= 0x7E and c != 0x2E:
                out.append(c + 0xFEE0)
            else:
                out.append(c)
            if self.r.random() < 0.08:
                out.append(ord(self.pick(IGN)))
        return out

    def ulabel(self):
        x = self.r.random()
        if x < 0.25:
            return self.latin()
        if x < 0.35:
            return self.cjk()
        if x < 0.5:
            return self.rtl()
        if x < 0.6:
            return self.zwnj_ok()
        if x < 0.7:
            return self.joiners()
        if x < 0.8:
            return self.decomposed()
        if x < 0.85:
            return self.bidimix()
        return self.validmix()

    def ace(self):
        """an ACE label, genuine or broken in one specific way"""
        r = self.r
        x = r.random()
        l = self.latin() if r.random() < 0.5 else self.ulabel()
        if x < 0.35:
            pass
        elif x < 0.41:  # not stable under mapping
            l = list(l)
            l.insert(r.randint(0, len(l)), self.pick(ucd.mapped()))
        elif x < 0.47:  # not NFC
            l = list(l)
            c = self.pick(ucd.decomposable())
            l[r.randint(0, len(l)):0] = ucd.decomp(c)
        elif x < 0.52:  # leading mark
            l = [self.sel(mark=1)] + l
        elif x < 0.57:
            l = self.rtl(0.1)
        elif x < 0.62:
            l = self.joiners()
        elif x < 0.66:  # disallowed or surrogate
            l = list(l)
            l.insert(r.randint(0, len(l)), self.pick(ucd.disallowed()))
        elif x < 0.70:  # pure ASCII behind the prefix
            return b"xn--" + bytes(self.ascii_word()) + r.choice([b"-", b""])
        elif x < 0.73:
            return b"xn--" + r.choice([b"", b"-", b"--", b"a-", b"-a", b"0", self.overflow(), self.overflow(), b"99999999", b"a-99999999", b"zzzzzz", b"xn--a", b"x-n--a"])
        elif x < 0.76:  # nested prefix
            l = [0x78, 0x6E, 0x2D, 0x2D] + l
        elif x < 0.79:  # contains a dot or other ASCII oddity once decoded
            l = list(l)
            l.insert(r.randint(0, len(l)), r.choice([0x2E, 0x20, 0x00, 0x41, 0x5A, 0x25, 0x3002]))
        try:
            p = bytearray(b"xn--" + puny(l))
        except Exception:
            p = bytearray(b"xn--a-0")
        if x >= 0.79 and len(p) > 4:
            k = r.randrange(5)
            i = r.randrange(4, len(p))
            if k == 0:
                p[i] = r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789-")
            elif k == 1:
                del p[i]
            elif k == 2:
                p.insert(i, r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789-"))
            elif k == 3:
                p[i] = p[i] - 32 if 97 <= p[i] <= 122 else r.randrange(128)
            else:
                p = p[:i]
        return bytes(p)

    def label(self):
        """UTF-8 bytes of one label"""
        r = self.r
        x = r.random()
        if x < 0.15:
            return bytes(self.ascii_word())
        if x < 0.20:
            return bytes(c for c in self.ascii_any() if c != 46)
        if x < 0.42:
            a = self.ace()
            if r.random() < 0.25:
                return enc(self.upper(list(a)))
            return a
        if x < 0.45:
            return b""
        if x < 0.5:
            return enc([self.anycp() for _ in range(r.randint(1, 5))])
        l = self.ulabel()
        if r.random() < 0.25:
            l = self.upper(l)
        return enc(l)

    def domain(self, maxlabels=5):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3, 3, maxlabels])
        out = bytearray()
        for i in range(n):
            if i:
                out += self.pick(DOTS).encode()
            out += self.label()
        x = r.random()
        if x < 0.08:
            out += b"."
        if x > 0.97 and out:
            self.corrupt(out)
        return bytes(out)

    def nonascii_domain(self, maxlabels=5):
        d = self.domain(maxlabels)
        if all(b < 128 for b in d):
            extra = enc(self.latin() + [0xE9])
            d = (d + b"." + extra) if self.r.random() < 0.5 else (extra + b"." + d)
        return d

    def corrupt(self, out):
        r = self.r
        k = r.randrange(4)
        i = r.randrange(len(out))
        if k == 0:
            out[i] = r.randrange(256)
        elif k == 1:
            del out[i]
        elif k == 2:
            out.insert(i, r.randrange(128, 256))
        else:
            del out[i:]

    def spelling(self, data):
        """a different spelling of a domain given as code points"""
        out = []
        for c in data:
            x = self.r.random()
            if c == 0x2E and x < 0.5:
                out.append(self.pick([0x3002, 0xFF0E, 0xFF61]))
            elif 0x61 <= c <= 0x7A and x < 0.25:
                out.append(c - 32)
            elif 0x21 <= c <= 0x7E and c != 0x2E and x < 0.4:
                out.append(c + 0xFEE0)
            elif ucd.decomp(c) and x < 0.7:
                out += ucd.decomp(c)
            elif 0xAC00 <= c < 0xD7A4 and x < 0.7:
                s = c - 0xAC00
                out += [0x1100 + s // 588, 0x1161 + s % 588 // 28] + ([0x11A7 + s % 28] if s % 28 else [])
            elif x < 0.6 and c in inverse():
                out += self.pick(inverse()[c])
            else:
                out.append(c)
            if self.r.random() < 0.06:
                out.append(ord(self.pick(IGN)))
        return out


_inv = None


def inverse():
    """code points that map to a single given code point"""
    global _inv
    if _inv is None:
        _inv = {}
        for c in ucd.mapped():
            m = ucd.mapping(c)
            if len(m) == 1:
                _inv.setdefault(m[0], []).append([c])
    return _inv
