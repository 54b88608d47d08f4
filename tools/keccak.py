#!/usr/bin/env python3
"""Writes the Keccak-f[1600] permutation as a Bristol Fashion circuit (the file the library
expects under circuits/files is not part of this checkout). Wire 8*(199-i/8)+i%8 is bit i of the
state in the order of FIPS 202, as SHA3_256_Calculator addresses it."""
import sys
def keccak():
    adr = lambda i: 8 * (199 - i // 8) + i % 8
    bit = lambda x, y, z: 64 * (5 * y + x) + z % 64
    gates = []; n = [1600]
    def g2(t, a, b):
        gates.append((t, a, b, n[0])); n[0] += 1; return n[0] - 1
    def inv(a):
        gates.append(("INV", a, None, n[0])); n[0] += 1; return n[0] - 1
    rc = []; lf = 1
    for r in range(24):
        c = 0
        for j in range(7):
            if lf & 1: c |= 1 << ((1 << j) - 1)
            lf = (lf << 1) ^ (0x171 if lf & 0x80 else 0)
        rc.append(c)
    rot = {(0, 0): 0}; x, y = 1, 0
    for t in range(24):
        rot[(x, y)] = (t + 1) * (t + 2) // 2 % 64; x, y = y, (2 * x + 3 * y) % 5
    s = [adr(i) for i in range(1600)]
    for r in range(24):
        C = {}
        for x in range(5):
            for z in range(64):
                v = s[bit(x, 0, z)]
                for y in range(1, 5): v = g2("XOR", v, s[bit(x, y, z)])
                C[x, z] = v
        D = {(x, z): g2("XOR", C[(x + 4) % 5, z], C[(x + 1) % 5, (z - 1) % 64]) for x in range(5) for z in range(64)}
        a = [None] * 1600
        for x in range(5):
            for y in range(5):
                for z in range(64): a[bit(x, y, z)] = g2("XOR", s[bit(x, y, z)], D[x, z])
        b = [None] * 1600
        for x in range(5):
            for y in range(5):
                for z in range(64): b[bit(y, (2 * x + 3 * y) % 5, z + rot[(x, y)])] = a[bit(x, y, z)]
        t = [None] * 1600
        for y in range(5):
            for z in range(64):
                for x in range(5):
                    p, q = b[bit((x + 1) % 5, y, z)], b[bit((x + 2) % 5, y, z)]
                    v = g2("XOR", b[bit(x, y, z)], g2("XOR", q, g2("AND", p, q)))
                    if x == 0 and y == 0 and rc[r] >> z & 1: v = inv(v)
                    t[bit(x, y, z)] = v
        s = t
    # the outputs are the last wires, in the order of the addresses: renumber
    outs = [None] * 1600
    for i in range(1600): outs[adr(i)] = s[i]
    m = {}; total = n[0]
    for k, w in enumerate(outs): m[w] = total - 1600 + k
    nxt = 0
    for w in range(total):
        if w not in m: m[w] = nxt; nxt += 1
    L = ["%d %d" % (len(gates), total), "1 1600", "1 1600", ""]
    for t, a, b, o in gates: L.append("1 1 %d %d INV" % (m[a], m[o]) if t == "INV" else "2 1 %d %d %d %s" % (m[a], m[b], m[o], t))
    return "\n".join(L) + "\n"
if __name__ == "__main__": open(sys.argv[1], "w").write(keccak())
