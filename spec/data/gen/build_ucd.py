#!/usr/bin/env python3
"""Builds ../ucd.json from three dumps:
   argv[1]  Go 1.27 dump (main.go): UTS #46 status and mapping, joining type,
            Bidi class, ccc, canonical decomposition, \\p{M}
   argv[2]  Node 22 dump (ids.js): ID_Start, ID_Continue
   argv[3]  as-built dump (asbuilt_dump.cpp): the library's own Bidi and
            combining-mark tables; argv[4]: /repo/src/validity.cpp at the pinned
            commit, for the joining-type lists.
The first two know nothing about ada-url/idna: they are the oracle.  The third
only records, per code point, where the shipped table lags (known findings)."""
import json, re, sys, unicodedata
N = 0x110000
go = {}
for l in open(sys.argv[1]):
    a = l.split(' ', 1); cp = int(a[0], 16)
    if a[1].startswith('sur'): continue
    go[cp] = {k: v for k, v in re.findall(r'(\w+)=(\[[^\]]*\]|\S+)', a[1])}
ids = {}
for l in open(sys.argv[2]):
    a = l.split(); ids[int(a[0], 16)] = (int(a[1]), int(a[2]))
asb = {}
DIR = dict(zip(range(24), [98, 11, 6, 3, 10, 2, 0, 1, 12, 13, 5, 4, 9] + [14] * 8 + [7, 8, 14]))
for l in open(sys.argv[3]):
    a = l.split(); asb[int(a[0], 16)] = (DIR[int(a[1])], int(a[2]))
src = open(sys.argv[4]).read()
def lst(name):
    m = re.search(r'uint32_t ' + name + r'\[\] = \{(.*?)\}', src, re.S)
    return {int(x, 16) for x in re.findall(r'0x[0-9A-Fa-f]+', m.group(1))}
RL, LL, DL = lst('R'), lst('L'), lst('D')
hx = lambda s: [int(x, 16) for x in s[1:-1].split()]
cls, clsid, cls_of = [], {}, [0] * N
maps, mapid, map_of = [[]], {(): 1}, [0] * N
decs, dec_of = [], [0] * N
stats = {}
for cp in range(N):
    if 0xd800 <= cp < 0xe000:
        t = (0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
    else:
        d = go[cp]; cat = int(d['cat'])
        if cat in (8, 24, 40, 128, 3): st = 1
        elif cat in (1, 2, 192): st = 2
        else: st = 0
        if st == 2:
            m = tuple(hx(d['map'])) if cat != 192 else ()
            if m not in mapid: maps.append(list(m)); mapid[m] = len(maps)
            map_of[cp] = mapid[m]
        ccc = int(d['ccc']); bidi = int(d['bidi']); join = int(d['join']) if st == 1 else 0
        mark = int(d['M']); s, c = ids[cp]
        dec = hx(d['dec'])
        if 0xac00 <= cp < 0xd7a4: dec = []
        ch = chr(cp)
        stale = 0 if 0xac00 <= cp < 0xd7a4 else int(unicodedata.combining(ch) != ccc or
              ([ord(x) for x in unicodedata.normalize('NFD', ch)] != (dec or [cp])))
        if dec: decs.append([stale, dec]); dec_of[cp] = len(decs)
        # as-built joining: 1 L, 2 D, 3 T (taken from the Bidi NSM class), 4 R
        bb, mm = asb[cp]
        jj = 1 if cp in LL else 2 if cp in DL else 4 if cp in RL else 3 if bb == 12 else 0
        if cp in (0x200c, 0x200d): jj = join
        t = (st, ccc, bidi, join, mark, s, c, 0 if stale else ccc, bb, jj, mm)
        if st == 1:
            for k, a, b in (('ccc', t[1], t[7]), ('bidi', t[2], t[8]), ('join', t[3], t[9]), ('mark', t[4], t[10])):
                if a != b: stats.setdefault(k, []).append(cp)
    if t not in clsid: cls.append(list(t)); clsid[t] = len(cls)
    cls_of[cp] = clsid[t]
def two(v):
    idx, blocks, seen = [], [], {}
    for i in range(0, N, 256):
        b = tuple(v[i:i + 256])
        if b not in seen: blocks.append(list(b)); seen[b] = len(blocks)
        idx.append(seen[b])
    return idx, blocks
# primary composites: canonical pair (first, second) -> composite, from the
# composition of the full decomposition (exclusions are the ones whose own
# NFC differs from themselves in the Go dump)
nfc = {cp: hx(go[cp]['nfc']) for cp in go}
comp = {}
full = {cp: hx(go[cp]['dec']) for cp in go if hx(go[cp]['dec']) and not 0xac00 <= cp < 0xd7a4}
byfull = {tuple(v): k for k, v in full.items() if nfc[k] == [k]}
pairs = []
for cp, v in full.items():
    if nfc[cp] != [cp]: continue
    last = v[-1]; head = v[:-1]
    # the first element is the composite (or single) whose full decomposition is the rest;
    # a composite's last constituent may itself decompose (e.g. U+1611E pairs), try all splits
    ok = False
    for k in range(len(v) - 1, 0, -1):
        h = [v[0]] if k == 1 else ([byfull[tuple(v[:k])]] if tuple(v[:k]) in byfull else None)
        t = [v[k]] if k == len(v) - 1 else ([byfull[tuple(v[k:])]] if tuple(v[k:]) in byfull else None)
        if h and t:
            # accept the split the algorithm performs: left fold
            if k == len(v) - 1:
                pairs.append((h[0], t[0], cp, decs[dec_of[cp] - 1][0])); ok = True; break
    if not ok: print('no left-fold split', hex(cp), [hex(x) for x in v])
first = {}
for a, b, c, s in pairs: first.setdefault(a, []).append([b, c, s])
comps, comp_of = [], [0] * N
for a in sorted(first): comps.append(sorted(first[a])); comp_of[a] = len(comps)
out = {}
out['clsIdx'], out['clsBlk'] = two(cls_of); out['cls'] = cls
out['mapIdx'], out['mapBlk'] = two(map_of); out['maps'] = [m for m in maps]
out['decIdx'], out['decBlk'] = two(dec_of); out['decs'] = [{'stale': s, 'd': d} for s, d in decs]
out['compIdx'], out['compBlk'] = two(comp_of); out['comps'] = comps
json.dump(out, open('../ucd.json', 'w'), separators=(',', ':'))
def runs(v):
    r = []
    for x in v:
        if r and r[-1][1] == x - 1: r[-1][1] = x
        else: r.append([x, x])
    return r
json.dump({k: runs(v) for k, v in stats.items()}, open('../stale.json', 'w'))
print({k: len(v) for k, v in out.items()}, {k: len(v) for k, v in stats.items()}, len(pairs))
