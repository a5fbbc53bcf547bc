"""Raw DEFLATE streams for the inflater: pieces as bits, whole streams built
piece by piece, and streams made by zlib.  Generation only."""
import random, zlib


def lsb(v, n):
    return [(v >> i) & 1 for i in range(n)]


def msb(v, n):
    return [(v >> (n - 1 - i)) & 1 for i in range(n)]


LENB = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LENX = [0] * 8 + [1] * 4 + [2] * 4 + [3] * 4 + [4] * 4 + [5] * 4 + [0]
DISTB = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577]
DISTX = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13]
ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]


def codes(lens):
    cnt = [0] * 17
    for l in lens:
        cnt[l] += 1
    cnt[0] = 0
    code, nxt = 0, [0] * 17
    for b in range(1, 17):
        code = (code + cnt[b - 1]) << 1
        nxt[b] = code
    out = {}
    for s, l in enumerate(lens):
        if l:
            out[s] = msb(nxt[l], l)
            nxt[l] += 1
    return out


FIXL = codes([8] * 144 + [9] * 112 + [7] * 24 + [8] * 8)
FIXD = codes([5] * 32)


def pack(bits):
    out = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        out[i >> 3] |= b << (i & 7)
    return bytes(out)


def match(lit, dist, length, d, r):
    """bits of a match, one of the encodings of this length"""
    i = max(k for k in range(29) if LENB[k] <= length and (k == 28 or length - LENB[k] < (1 << LENX[k])))
    if length == 258 and r.random() < 0.3:
        i = 27
    j = max(k for k in range(30) if DISTB[k] <= d)
    if 257 + i not in lit or j not in dist:
        return []
    return lit[257 + i] + lsb(length - LENB[i], LENX[i]) + dist[j] + lsb(d - DISTB[j], DISTX[j])


def limit_lens(n, r, maxbits=15):
    """a complete code over n symbols, lengths at most maxbits, random shape"""
    if n == 1:
        return [1]
    lens = [0]
    # split leaves until n leaves
    leaves = [0]
    while len(leaves) < n:
        c = [i for i, l in enumerate(leaves) if l < maxbits]
        i = r.choice(c) if r.random() < 0.6 else max(c, key=lambda k: leaves[k])
        l = leaves.pop(i)
        leaves += [l + 1, l + 1]
    r.shuffle(leaves)
    return leaves


def dynamic_header(litlens, distlens, r, bug=None):
    hlit, hdist = len(litlens), len(distlens)
    seq = list(litlens) + list(distlens)
    toks, i = [], 0
    while i < len(seq):
        v, k = seq[i], 1
        while i + k < len(seq) and seq[i + k] == v:
            k += 1
        if v and i and seq[i - 1] == v and k >= 3 and r.random() < (0.9 if i == hlit else 0.5):
            m = r.choice([min(k, 6), r.randint(3, min(k, 6))])  # a repeat directly at the first distance code, or behind another
            toks.append((16, m - 3, 2))
            i += m
        elif v == 0 and i and seq[i - 1] == 0 and 3 <= k and r.random() < 0.15:
            m = r.randint(3, min(k, 6))     # zeros by repeating
            toks.append((16, m - 3, 2))
            i += m
        elif v and i < hlit < i + k and k >= 4 and r.random() < 0.5:
            for _ in range(hlit - i):       # spell up to the boundary
                toks.append((v, 0, 0))
            i = hlit
        elif v == 0 and k >= 3 and r.random() < 0.9:
            m = min(k, 138)
            if m >= 11:
                m = r.choice([m, m, r.randint(11, m)])
                toks.append((18, m - 11, 7))
            else:
                m = r.choice([m, r.randint(3, m)])
                toks.append((17, m - 3, 3))
            i += m
        elif k >= 4 and r.random() < 0.9:
            toks.append((v, 0, 0))
            m = min(k - 1, 6)
            m = r.choice([m, r.randint(3, m)])
            toks.append((16, m - 3, 2))
            i += m + 1
        else:
            toks.append((v, 0, 0))
            i += 1
    if bug == "overrun":   # a repeat that runs past the announced lengths
        t = r.choice([(16, 3, 2), (17, 7, 3), (18, 127, 7)])
        toks[-1:] = [t]
    if bug == "first16":
        toks.insert(0, (16, 0, 2))
    used = sorted({t[0] for t in toks})
    if len(used) == 1:
        used = sorted(set(used) | {0 if used[0] else 1})
    cl = limit_lens(len(used), r, 7)
    clens = [0] * 19
    for s, l in zip(used, cl):
        clens[s] = l
    hclen = max(i for i in range(19) if clens[ORDER[i]]) + 1
    hclen = max(4, hclen)
    if r.random() < 0.2:
        hclen = r.randint(hclen, 19)
    cc = codes(clens)
    bits = lsb(hlit - 257, 5) + lsb(hdist - 1, 5) + lsb(hclen - 4, 4)
    for i in range(hclen):
        bits += lsb(clens[ORDER[i]], 3)
    for s, x, nb in toks:
        bits += cc[s] + lsb(x, nb)
    return bits


def block(r, out, final, kind=None, size=40, bug=None):
    """bits of one block (stored blocks need alignment: returned as a function of the position)"""
    kind = kind or r.choice(["fixed", "dyn", "dyn", "stored"])
    if kind == "stored":
        n = r.choice([0, 1, r.randint(0, size), r.randint(0, 3 * size)])
        data = bytes(r.randrange(256) for _ in range(n))
        out += data
        nlen = n ^ 0xFFFF
        if bug == "nlen":
            nlen ^= 1 << r.randrange(16)
        if bug == "shortstored":
            n, nlen = n + 1 + r.randrange(4), 0
            nlen = n ^ 0xFFFF

        def emit(bits):
            bits += [final] + lsb(0, 2)
            while len(bits) % 8:
                bits.append(r.randrange(2))
            bits += lsb(n, 16) + lsb(nlen, 16)
            for b in data:
                bits += lsb(b, 8)
        return emit
    # tokens
    toks = []
    nl = r.randint(0, size)
    alpha = [r.randrange(256) for _ in range(r.choice([1, 2, 8, 40]))]
    for _ in range(nl):
        if len(out) and r.random() < 0.35:
            d = r.choice([1, r.randint(1, min(len(out), 8)), r.randint(1, len(out)), len(out)])
            ln = r.choice([3, 4, r.randint(3, 20), r.randint(3, 258), 258, 257, 10, 11])
            toks.append((ln, d))
            for _ in range(ln):
                out.append(out[-d])
        else:
            b = r.choice(alpha)
            toks.append(b)
            out.append(b)
    if kind == "fixed":
        head, L, D = [], FIXL, FIXD
    else:
        need = {t for t in toks if isinstance(t, int)} | {256}
        dn = set()
        for t in toks:
            if not isinstance(t, int):
                need |= {257 + k for k in range(29) if LENB[k] <= t[0] and t[0] - LENB[k] < (1 << LENX[k]) or (t[0] == 258 and k >= 27)}
                dn.add(max(k for k in range(30) if DISTB[k] <= t[1]))
        while len(need) < 2 or r.random() < 0.3:
            need.add(r.randrange(286))
        need = sorted(need)
        hlit = max(257, max(need) + 1)
        if r.random() < 0.2:
            hlit = r.randint(hlit, 286)
        ll = [0] * hlit
        for s, l in zip(need, limit_lens(len(need), r)):
            ll[s] = l
        if r.random() < 0.3:
            dn.add(r.randrange(30))
        dl = sorted(dn)
        hdist = max(1, (max(dl) + 1) if dl else 1)
        if r.random() < 0.2:
            hdist = r.randint(hdist, 30)
        dd = [0] * hdist
        if dl:
            for s, l in zip(dl, limit_lens(len(dl), r)):
                dd[s] = l
        if dl and max(dl) < 4 and r.random() < 0.4:   # four distance codes as long as the last literal's
            hdist, dd = 4, [2, 2, 2, 2]
            ls, pos = limit_lens(len(need), r), None
            for x in range(len(ls)):
                if ls[x] == 2:
                    pos = x
            if pos is not None:
                ls[-1], ls[pos] = ls[pos], ls[-1]
                hlit = max(257, max(need) + 1)
                ll = [0] * hlit
                for s, l in zip(need, ls):
                    ll[s] = l
        head = dynamic_header(ll, dd, r, bug)
        L, D = codes(ll), codes(dd)
    body = []
    for t in toks:
        body += L[t] if isinstance(t, int) else match(L, D, t[0], t[1], r)
    if bug == "far":
        body += match(L, D, 3, len(out) + 1 + r.randrange(3), r)
    if bug == "sym" and kind == "fixed":
        body += L[r.choice([286, 287])]
    if bug == "dsym" and kind == "fixed":
        body += L[257] + D[r.choice([30, 31])]
    if bug != "noeob":
        body += L[256]

    def emit(bits):
        bits += [final] + lsb(1 if kind == "fixed" else 2, 2) + head + body
    return emit


BUGS = ["nlen", "shortstored", "overrun", "first16", "far", "sym", "dsym", "noeob", "reserved"]


def stream(r, size=40, bug=None):
    """(bytes, decoded length) of a random stream, broken in one way if bug is given"""
    out, bits = bytearray(), []
    n = r.choice([1, 1, 2, 3, 4])
    bad = r.randrange(n) if bug else -1
    for i in range(n):
        kind = None
        if i == bad:
            kind = {"nlen": "stored", "shortstored": "stored", "overrun": "dyn", "first16": "dyn", "sym": "fixed", "dsym": "fixed"}.get(bug)
        if i == bad and bug == "reserved":
            bits += [int(i == n - 1), 1, 1] + [r.randrange(2) for _ in range(40)]
            break
        block(r, out, int(i == n - 1), kind, size, bug if i == bad else None)(bits)
    return pack(bits), len(out)


def zstream(r, data):
    strat = r.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FILTERED])
    o = zlib.compressobj(r.randrange(10), zlib.DEFLATED, -r.randint(9, 15), r.randint(1, 9), strat)
    out = b""
    i = 0
    while i < len(data):
        k = r.randint(1, max(1, len(data)))
        out += o.compress(data[i:i + k])
        i += k
        if r.random() < 0.4:
            out += o.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH, zlib.Z_BLOCK]))
    return out + o.flush()


def alphabet():
    """pieces for the bounded enumeration (spec/MCInflate.tla)"""
    lit = FIXL
    return [[1] + lsb(1, 2), [0] + lsb(1, 2), [1] + lsb(0, 2), [0] + lsb(0, 2), [1] + lsb(2, 2), [1] + lsb(3, 2),
            lit[0x61], lit[200], lit[256], lit[257] + FIXD[0], lit[265] + [1] + FIXD[4] + [0], lit[286], lit[258] + FIXD[30],
            lsb(1, 16) + lsb(0xFFFE, 16), lsb(0, 16) + lsb(0xFFFF, 16), lsb(0x41, 8), [0]]


def code_length_pieces():
    """tokens of the code-length alphabet behind a header, for every way they can meet the
    boundary between the two codes: (pieces, contexts)"""
    cl = {0: 3, 1: 3, 2: 2, 16: 2, 17: 3, 18: 3}
    clens = [cl.get(s, 0) for s in range(19)]
    cc = codes(clens)
    pieces = [cc[0], cc[1], cc[2], cc[16] + lsb(0, 2), cc[16] + lsb(1, 2), cc[17] + lsb(0, 3)]
    ctx = []
    for nlit, nd in ((258, 2), (258, 4), (259, 3)):
        h = [1] + lsb(2, 2) + lsb(nlit - 257, 5) + lsb(nd - 1, 5) + lsb(15, 4)
        for o in ORDER:
            h += lsb(clens[o], 3)
        h += cc[18] + lsb(97 - 11, 7) + cc[1] + cc[18] + lsb(138 - 11, 7) + cc[18] + lsb(20 - 11, 7)   # 97 has length 1, up to 255 nothing
        ctx.append([h, [0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 1, 1, 1, 0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1, 0]])
        ctx.append([h, [0, 1, 0, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 1]])
    return pieces, ctx
