#!/usr/bin/env python3
"""Writes harness/bch_codes.hh: BCH codes with their minimal polynomials, from cyclotomic cosets."""
import os
POLY = {3: 0xb, 4: 0x13, 5: 0x25, 6: 0x43, 7: 0x89, 8: 0x11d, 9: 0x211, 10: 0x409, 11: 0x805, 12: 0x1053, 13: 0x201b, 14: 0x402b, 15: 0x8003, 16: 0x1002d}
POLY2 = {4: 0x19, 5: 0x3d, 6: 0x5b}
def code(m, poly, fcr, nr):
    n = 2**m - 1
    exp, log, a = [], {}, 1
    for i in range(n):
        exp.append(a); log[a] = i
        a <<= 1
        if a >> m: a ^= poly
    mul = lambda x, y: exp[(log[x] + log[y]) % n] if x and y else 0
    seen, mins = set(), []
    for r in range(fcr, fcr + nr):
        r %= n
        if r in seen: continue
        coset, c = [], r
        while c not in coset:
            coset.append(c); c = 2 * c % n
        seen |= set(coset)
        p = [1]                     # lowest coefficient first
        for c in coset:
            q = [0] * (len(p) + 1)
            for i, v in enumerate(p):
                q[i + 1] ^= v
                q[i] ^= mul(v, exp[c])
            p = q
        assert all(v in (0, 1) for v in p)
        mins.append(sum(v << i for i, v in enumerate(p)))
    k = n - len(seen)
    assert k > 0
    return k, mins
small = [(3, 0, 1, 2), (3, 0, 0, 3), (4, 0, 1, 2), (4, 0, 1, 4), (4, 0, 1, 6), (4, 1, 0, 3), (4, 0, 0, 5), (4, 0, 1, 14), (4, 1, 6, 4), (5, 0, 1, 2), (5, 0, 1, 4), (5, 1, 1, 6), (5, 0, 1, 10),
         (5, 1, 0, 7), (5, 0, 3, 4), (5, 0, 1, 14), (5, 0, 1, 3), (6, 0, 1, 4), (6, 1, 1, 6), (6, 0, 0, 9), (6, 0, 1, 20), (6, 0, 2, 7), (7, 0, 1, 4), (7, 0, 1, 20), (7, 0, 0, 11)]
large = [(8, 0, 1, 2), (8, 0, 1, 4), (8, 0, 1, 12), (8, 0, 1, 36), (8, 0, 0, 17), (8, 0, 5, 9), (10, 0, 1, 10), (14, 0, 1, 24), (16, 0, 1, 24), (16, 0, 1, 4)]
many = [(8, 0, 1, 58), (8, 0, 1, 126), (8, 0, 1, 254), (9, 0, 1, 60), (10, 0, 1, 150), (10, 0, 1000, 40), (11, 0, 1, 200), (11, 0, 0, 31), (12, 0, 1, 16), (13, 0, 1, 12), (13, 0, 8190, 9), (15, 0, 1, 8), (15, 0, 0, 13)]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "bch_codes.hh"), "w") as f:
    f.write("// written by tools/mkbch.py: code(degree, field polynomial, type, roots, first root, message bits, minimal polynomials)\n#pragma once\n")
    for name, codes in (("SMALL", small), ("LARGE", large), ("MANY", many)):
        f.write("#define BCH_%s(code) \\\n" % name)
        for i, (m, alt, fcr, nr) in enumerate(codes):
            poly = (POLY2 if alt else POLY)[m]
            k, mins = code(m, poly, fcr, nr)
            print(name, 2**m - 1, k, nr, fcr)
            f.write("\tcode(%d, %#x, %s, %d, %d, %d, %s)%s\n" % (m, poly, "uint8_t" if m <= 8 else "uint16_t", nr, fcr, k, ", ".join("%#x" % x for x in mins), " \\" if i + 1 < len(codes) else ""))
