"""Writes src/nfkd.bin: what each character of planes 0 and 1 stands for, from Python's Unicode data."""
import os, struct, unicodedata as u
# Added after Unicode 13, which the implementation knows: left out.
NEW = '''
61d 870-88e 890-891 898-89f 8b5 8c8-8d2 c3c c5d cdd cf3 ece 170d 1715 171f 180f 1ac1-1ace 1b4c 1b7d-1b7e 1dfa 20c0 2c2f 2c5f 2e53-2e5d 9ffd-9fff
a7c0-a7c1 a7d0-a7d1 a7d3 a7d5-a7d9 a7f2-a7f4 fbc2 fd40-fd4f fdcf fdfe-fdff 10570-1057a 1057c-1058a 1058c-10592 10594-10595 10597-105a1 105a3-105b1
105b3-105b9 105bb-105bc 10780-10785 10787-107b0 107b2-107ba 10efd-10eff 10f70-10f89 11070-11075 110c2 1123f-11241 116b9 11740-11746 11ab0-11abf
11b00-11b09 11f00-11f10 11f12-11f3a 11f3e-11f59 12f90-12ff2 1342f 13439-13455 16a70-16abe 16ac0-16ac9 1aff0-1aff3 1aff5-1affb 1affd-1affe 1b11f-1b122
1b132 1b155 1cf00-1cf2d 1cf30-1cf46 1cf50-1cfc3 1d1e9-1d1ea 1d2c0-1d2d3 1df00-1df1e 1df25-1df2a 1e030-1e06d 1e08f 1e290-1e2ae 1e4d0-1e4f9 1e7e0-1e7e6
1e7e8-1e7eb 1e7ed-1e7ee 1e7f0-1e7fe 1f6dc-1f6df 1f774-1f776 1f77b-1f77f 1f7d9 1f7f0 1f979 1f9cc 1fa75-1fa77 1fa7b-1fa7c 1fa87-1fa88 1faa9-1faaf
1fab7-1fabd 1fabf 1fac3-1fac5 1face-1facf 1fad7-1fadb 1fae0-1fae8 1faf0-1faf8'''
late = set()
for r in NEW.split():
    a, _, b = r.partition('-'); late |= set(range(int(a, 16), int(b or a, 16) + 1))
def cls(c):
    r = []
    for x in u.normalize('NFKD', c):
        if u.category(x)[0] == 'M': continue
        for y in {'æ': 'ae', 'Æ': 'AE', 'œ': 'oe', 'Œ': 'OE'}.get(x, x).lower().upper().lower():
            r.append(ord(y) - 97 if 'a' <= y <= 'z' else 27 if y in ' _' else 26)
    return bytes([len(r)] + r)
off, data, seen = [], bytearray(), {}
for cp in range(0x20000):
    c = chr(cp)
    if u.category(c) in ('Cs', 'Cn') or cp in late: off.append(0xffff); continue
    e = cls(c)
    if e not in seen: seen[e] = len(data); data += e
    off.append(seen[e])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'src', 'nfkd.bin'), 'wb') as f: f.write(b''.join(struct.pack('<H', o) for o in off) + bytes(data))
