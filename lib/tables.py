"""Data files in the format Unicode publishes, from what the specification
generated; runs the table tools of /repo on them in scratch copies of the tree,
builds the library there and records what it then means.  Records only."""
import json, os, random, shutil, subprocess

import ucd
import vf

LAST = 0x1100FF
STUB = "def get(*a, **k):\n    raise SystemExit('no network')\n"
NAMES = ["SPACE", "NUMBER SIGN #", "SEMICOLON ;", "LATIN SMALL LETTER A..Z", "disallowed ; 0041"]
ASCII = [(0, 0x40, 1, []), *[(c, c, 3, [c + 32]) for c in range(0x41, 0x5B)], (0x5B, 0x7F, 1, [])]


def mapping_text(rows, r, style=0):
    """rows: (lo, hi, status, text); published layout, with the variations it has had"""
    out = ["# IdnaMappingTable-17.0.0.txt", "# Date: 2025-07-24, 16:43:08 GMT", "# © 2025 Unicode®, Inc.", "#",
           "# Unicode IDNA Compatible Preprocessing for UTS #46", "# Version: 17.0.0", "#",
           "# For documentation, see https://www.unicode.org/reports/tr46/ ; status ; mapping", ""]
    for lo, hi, st, text in rows:
        cps = "%04X" % lo if lo == hi else "%04X..%04X" % (lo, hi)
        name = {0: "ignored", 1: "valid", 2: "disallowed", 3: "mapped"}[st]
        m = " ".join("%04X" % x for x in text)
        tail = ""
        if st == 1 and lo == hi and text:
            name, m = "deviation", m
        elif style == 1 and st == 1 and hi < 128:
            name = "disallowed_STD3_valid"
        elif style == 1 and st == 3 and text and text[0] == 0x20:
            name = "disallowed_STD3_mapped"
        elif st == 1 and r.random() < 0.3:
            tail = " ;      ; " + r.choice(["NV8", "XV8"])
        if st == 2 and style == 1 and r.random() < 0.5:
            continue    # not listed at all: disallowed
        com = "# %s  %s" % (r.choice(["1.1", "4.1", "17.0", "NA "]), r.choice(NAMES))
        if style == 2:
            out.append("%s;%s%s%s#%s" % (cps, name, (";" + m) if m else "", tail.replace(" ", ""), com[1:]))
        else:
            out.append("%-14s; %-22s%s%s %s" % (cps, name, (" ; %-14s" % m) if m else "", tail, com))
        if r.random() < 0.01:
            out.append(r.choice(["", "# end of block ; valid", "#"]))
    out += ["", "# Total code points: 1114112", "# EOF", ""]
    return "\n".join(out)


def ident_text(start, cont, r):
    def sec(name, ranges):
        out = ["# ================================================", "", "# Derived Property: %s" % name,
               "#  Characters that can %s an identifier ; see UAX31" % ("start" if "S" in name else "continue"), ""]
        for lo, hi in ranges:
            cps = "%04X" % lo if lo == hi else "%04X..%04X" % (lo, hi)
            out.append("%-14s; %s # %s %s" % (cps, name, "L&" if lo == hi else "Lo  [%d]" % (hi - lo + 1), r.choice(NAMES)))
        return out + ["", "# Total code points: %d" % sum(h - l + 1 for l, h in ranges), ""]
    return "\n".join(["# DerivedCoreProperties-17.0.0.txt", "# Date: 2025-07-30, 23:55:08 GMT", "#", ""]
                     + sec("Grapheme_Base", [(0x20, 0x7E)]) + sec("ID_Start", start) + sec("ID_Continue", cont)
                     + sec("XID_Start", start[:1] + start[2:]) + sec("XID_Continue", cont[1:]) + ["# EOF", ""])


# ---------------------------------------------------------------- files
def texts(r):
    pool = [0x61, 0x7A, 0x20, 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0x3B1, 0x4E2D, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1D7CB, 0x10FFFF, 0x110, 0x2F8]
    return lambda k: [r.choice(pool) for _ in range(k)]


def high(r):
    return r.choice([[], [(0xE0100, 0xE01EF)], [(0xE0100, 0xE01EF)], [(0xE0000, 0xE0FFF)], [(0xE0FFF, 0xE0FFF)], [(0xE0000, 0xE0000)], [(0x10FFFE, 0x10FFFF)]])


def finish(rows, r):
    """complete to a whole file: ASCII, high part, everything else disallowed, adjacent equal rows joined or not"""
    rows = ASCII + sorted(rows) + [(a, b, 0, []) for a, b in high(r)]
    out, nxt = [], 0
    for lo, hi, st, t in rows:
        if lo > nxt:
            out.append((nxt, lo - 1, 2, []))
        assert lo >= nxt, (hex(lo), hex(nxt))
        out.append((lo, hi, st, t))
        nxt = hi + 1
    if nxt <= 0x10FFFF:
        out.append((nxt, 0x10FFFF, 2, []))
    # surrogates stay disallowed in every file
    return out


def place(models, r):
    """model files (statuses of 6 model code points, 2 per block) onto runs of three real blocks"""
    spots = [b for b in range(0xC0, 0x35D, 3)] + [b for b in range(0x400, 0x37FD, 3)]
    spots = sorted(r.sample(spots[:222], min(120, len(models) // 4 + 1)) + r.sample(spots[222:], len(models)))[:len(models)]
    tx, rows = texts(r), []
    t = tx(1), None
    for b, m in zip(spots, models):
        if t[1] is None or r.random() < 0.003:
            a = tx(r.choice([1, 1, 1, 2, 3, 18]))
            t = a, a + tx(r.choice([1, 1, 2]))
        for i, st in enumerate(m):
            k = CUT[i // 2 % 2]
            lo = (b + i // 2) * 64 + (k if i % 2 else 0)
            hi = (b + i // 2) * 64 + (63 if i % 2 else k - 1)
            if st == "d":
                continue
            rows.append((lo, hi, {"v": 1, "i": 0}.get(st, 3), {"a": t[0], "ab": t[1]}.get(st, [])))
    return finish(rows, r)


CUT = [1, 63]


def wild(r, blocks=150):
    """rows of random extent, at random places, crossing blocks and planes"""
    tx, rows, known = texts(r), [], [[0x61]]
    anchors = sorted(r.sample(range(0x80, 0xD000), blocks) + r.sample(range(0xE000, 0xE0000), blocks) + [0xFFF0, 0x1FFE0, 0xFFC0 + 63, 0x10000 - 64])
    nxt = 0x80
    for a in anchors:
        lo = max(a, nxt)
        while r.random() < 0.8:
            st = r.choice([0, 1, 1, 2, 3, 3, 3])
            n = r.choice([1, 1, 1, 2, 3, 5, 60, 64, 65, 130]) if st in (1, 2) else r.choice([1, 1, 1, 1, 2, 3, 16])
            hi = lo + n - 1
            if hi >= 0xD800 > lo or hi >= 0xE0000 or 0xD800 <= lo < 0xE000:
                break
            if r.random() < 0.5:
                t = r.choice(known)
            else:
                t = r.choice([tx(r.choice([1, 1, 2, 3, 18, 300])), r.choice(known)[1:] or tx(1), r.choice(known)[:1] + tx(1)])
                known.append(t)
                if len(known) > 60:
                    known.pop(0)
            if st != 2:
                rows.append((lo, hi, st, t if st == 3 else [0x73, 0x73] if st == 1 and n == 1 and r.random() < 0.2 else []))
            lo = hi + 1
        nxt = lo
    if r.random() < 0.5:   # the last block that is in use ends or begins exactly at the last code point in use
        e = r.choice([0xDFFC0, 0xDFFC0 + 63])
        if e >= nxt:
            rows.append((e, e, 1, []))
    return finish(rows, r)


def sibling(rows, r):
    """another meaning with tables of the same sizes: texts exchanged for others as long, lone code points moved"""
    def other(c):
        a, b = [(a, b) for a, b in ((1, 0x7F), (0x80, 0x7FF), (0x800, 0xD7FF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF)) if a <= c <= b][0]
        return a if c == b else c + 1
    how = r.randrange(3)
    out = []
    for i, (lo, hi, st, t) in enumerate(rows):
        if lo < 0x80 or st == 0 or how == 0 and st != 3:
            out.append((lo, hi, st, t))
        elif st == 3 and how != 1:
            out.append((lo, hi, st, [other(c) for c in t]))
        elif st == 1 and lo == hi and lo & 63 not in (0, 62, 63) and rows[i - 1][2] == 2 and out[-1][1] == lo - 1 \
                and i + 1 < len(rows) and rows[i + 1][2] == 2 and rows[i + 1][0] == lo + 1 < rows[i + 1][1]:
            out[-1] = (out[-1][0], lo, 2, [])
            out.append((lo + 1, lo + 1, 1, t))
        elif out and out[-1][1] >= lo:
            out.append((lo + 1, hi, st, t))
        else:
            out.append((lo, hi, st, t))
    return out


def sibling_ids(start, cont):
    def f(rs):
        out = list(rs)
        for i in range(len(out) - 1, -1, -1):
            lo, hi = out[i]
            if lo >= 0x80 and lo > out[i - 1][1] + 2:
                out[i] = (lo - 1, hi)
                return out
        return out
    return f(start), f(cont)


def crowded(r, n):
    """n blocks, all different, that need mappings: n > 512 does not fit"""
    return finish([((0x400 + i) * 64 + j, (0x400 + i) * 64 + j, 3, [0x61 + i % 26, 0x100 + i]) for i in range(n) for j in (i % 64,)], r)


def unicode_rows():
    u, cls = ucd.load(), ucd.cls_of()
    rows = []
    for c in range(0x110000):
        st = u["cls"][cls[c] - 1][0]
        m = ucd.mapping(c) if st == 2 else []
        k = {0: (2, []), 1: (1, []), 2: (3, list(m)) if m else (0, [])}[st]
        if c in (0xDF, 0x3C2, 0x200C, 0x200D):
            k = (1, {0xDF: [0x73, 0x73], 0x3C2: [0x3C3]}.get(c, []))
            rows.append((c, c, *k))
        elif rows and rows[-1][2:] == k and rows[-1][1] == c - 1 and rows[-1][0] not in (0xDF, 0x3C2) and k[0] != 3:
            rows[-1] = (rows[-1][0], c, *k)
        else:
            rows.append((c, c, *k))
    return rows


def unicode_ids():
    def runs(a):
        out = []
        for c in range(0x80, 0x110000):
            if ucd.attr(c)[a]:
                if out and out[-1][1] == c - 1:
                    out[-1] = (out[-1][0], c)
                else:
                    out.append((c, c))
        return out
    return runs(5), runs(6)


ASCII_S = [(0x41, 0x5A), (0x61, 0x7A)]
ASCII_C = [(0x30, 0x39), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A)]


def ids(r, n):
    def rs():
        out, p = [], 0x80
        for _ in range(n):
            p += r.choice([1, 1, 2, 3, 17, 255, 1000, 5000])
            q = p + r.choice([0, 0, 1, 2, 63, 300])
            if p < 0xE000 and q >= 0xD800:
                p = 0xE000
                q = p
            if q > 0x10FFFF:
                break
            out.append((p, q))
            p = q + r.choice([1, 1, 2])
        if r.random() < 0.5 and (not out or out[-1][1] < 0x10FFFF):
            out.append((0x10FFFF, 0x10FFFF))
        return out
    return ASCII_S + rs(), ASCII_C + rs()


# ---------------------------------------------------------------- the tree
def copy_tree():
    d = vf.scratch("tables-")
    for f in ("src", "include", "scripts"):
        shutil.copytree(os.path.join(vf.REPO, f), os.path.join(d, f))
    os.makedirs(os.path.join(d, "stub"))
    open(os.path.join(d, "stub", "requests.py"), "w").write(STUB)
    return d


def tool(d, script, args, cwd):
    """run a tool where the user would: from the folder that holds the data file"""
    e = dict(os.environ, PYTHONPATH=os.path.join(d, "stub"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        p = subprocess.run(["python3", os.path.join(d, "scripts", script), *args], cwd=cwd, env=e, capture_output=True, text=True, timeout=150)
        return p.returncode, (p.stderr or p.stdout)[-800:]
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def history(steps, r, keep=None):
    """steps: ("M", rows, style) / ("I", start, cont) / ("P",); returns (tree, recorded steps, tool messages)"""
    d = copy_tree()
    rec, msgs = [], []
    for s in steps:
        cwd = d if r.random() < 0.7 else os.path.join(d, "scripts")
        if s[0] == "M":
            open(os.path.join(cwd, "IdnaMappingTable.txt"), "w").write(mapping_text(s[1], r, s[2]))
            rc, m = tool(d, "idna_table.py", [r.choice(["--write", "-w"])], cwd)
            rec.append({"op": "M", "rows": [[a, b, c, list(t)] for a, b, c, t in s[1]], "refused": int(rc != 0)})
        elif s[0] == "I":
            open(os.path.join(cwd, "DerivedCoreProperties.txt"), "w").write(ident_text(s[1], s[2], r))
            rc, m = tool(d, "derived_table.py", [r.choice(["--write", "-w"])], cwd)
            rec.append({"op": "I", "start": [list(x) for x in s[1]], "cont": [list(x) for x in s[2]], "refused": int(rc != 0)})
        else:
            rc, m = tool(d, "pack_tables.py", [], cwd)
            rec.append({"op": "P", "refused": int(rc != 0)})
        msgs.append("%s: rc %d %s" % (s[0], rc, m.strip()))
        for f in ("IdnaMappingTable.txt", "DerivedCoreProperties.txt"):
            q = os.path.join(cwd, f)
            if os.path.exists(q):
                os.unlink(q)
    return d, rec, msgs


def driver_object():
    """the driver compiled once, against /repo's headers"""
    return vf.build("driver-object", os.path.join(vf.VERIF, "harness", "driver.cpp"),
                    ["g++", "-std=c++20", "-O1", "-w", "-c", "-I" + os.path.join(vf.REPO, "include")])


def build(d, obj):
    exe = os.path.join(d, "exe")
    p = subprocess.run(["g++", "-std=c++20", "-O1", "-w", "-I" + os.path.join(d, "include"), os.path.join(d, "src", "idna.cpp"), obj, "-o", exe],
                       capture_output=True, text=True)
    return (exe, "") if p.returncode == 0 else (None, p.stderr[-800:])


def observe(d, exe, extra):
    """what the library means now, as runs; and the events of the extra requests"""
    lines = ["1 SM 0 %x" % LAST, "2 SI 0 %x" % LAST] + ["%d %s" % (i + 3, q) for i, q in enumerate(extra)]
    ev, crashes = vf.run_shard(exe, lines, os.path.join(d, "obs"))
    m, f, s, other = [], [], [], []

    def put(l, lo, hi, *k):
        if l and l[-1][1] + 1 == lo and l[-1][2:] == list(k):
            l[-1][1] = hi
        else:
            l.append([lo, hi, *k])
    for line in open(ev):
        e = json.loads(line)
        if e["op"] == "SM":
            put(m, e["lo"], e["hi"], e["kind"], e["out"])
        elif e["op"] == "SI":
            if e["k"] & 1:
                put(f, e["lo"], e["hi"])
            if e["k"] & 2:
                put(s, e["lo"], e["hi"])
        else:
            other.append(line)
    return m, f, s, other, crashes
