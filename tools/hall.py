"""Independent space-group reference: Hall symbols -> exact operations.

The symbols are the ITA standard settings (origin choice 1, hexagonal axes
for the R groups).  Nothing here is read from /repo.
"""
from fractions import Fraction as F
import itertools, re

HALL = """P 1|-P 1|P 2y|P 2yb|C 2y|P -2y|P -2yc|C -2y|C -2yc|-P 2y|-P 2yb|-C 2y|-P 2yc|-P 2ybc|-C 2yc
P 2 2|P 2c 2|P 2 2ab|P 2ac 2ab|C 2c 2|C 2 2|F 2 2|I 2 2|I 2b 2c|P 2 -2|P 2c -2|P 2 -2c|P 2 -2a|P 2c -2ac|P 2 -2bc
P 2ac -2|P 2 -2ab|P 2c -2n|P 2 -2n|C 2 -2|C 2c -2|C 2 -2c|A 2 -2|A 2 -2b|A 2 -2a|A 2 -2ab|F 2 -2|F 2 -2d|I 2 -2|I 2 -2c
I 2 -2a|-P 2 2|P 2 2 -1n|-P 2 2c|P 2 2 -1ab|-P 2a 2a|-P 2a 2bc|-P 2ac 2|-P 2a 2ac|-P 2 2ab|-P 2ab 2ac|-P 2c 2b|-P 2 2n|P 2 2ab -1ab|-P 2n 2ab
-P 2ac 2ab|-P 2ac 2n|-C 2c 2|-C 2ac 2|-C 2 2|-C 2 2c|-C 2a 2|C 2 2 -1ac|-F 2 2|F 2 2 -1d|-I 2 2|-I 2 2c|-I 2b 2c|-I 2b 2|P 4
P 4w|P 4c|P 4cw|I 4|I 4bw|P -4|I -4|-P 4|-P 4c|P 4ab -1ab|P 4n -1n|-I 4|I 4bw -1bw|P 4 2|P 4ab 2ab
P 4w 2c|P 4abw 2nw|P 4c 2|P 4n 2n|P 4cw 2c|P 4nw 2abw|I 4 2|I 4bw 2bw|P 4 -2|P 4 -2ab|P 4c -2c|P 4n -2n|P 4 -2c|P 4 -2n|P 4c -2
P 4c -2ab|I 4 -2|I 4 -2c|I 4bw -2|I 4bw -2c|P -4 2|P -4 2c|P -4 2ab|P -4 2n|P -4 -2|P -4 -2c|P -4 -2ab|P -4 -2n|I -4 -2|I -4 -2c
I -4 2|I -4 2bw|-P 4 2|-P 4 2c|P 4 2 -1ab|P 4 2 -1n|-P 4 2ab|-P 4 2n|P 4ab 2ab -1ab|P 4ab 2n -1ab|-P 4c 2|-P 4c 2c|P 4n 2c -1n|P 4n 2 -1n|-P 4c 2ab
-P 4n 2n|P 4n 2n -1n|P 4n 2ab -1n|-I 4 2|-I 4 2c|I 4bw 2bw -1bw|I 4bw 2aw -1bw|P 3|P 31|P 32|R 3|-P 3|-R 3|P 3 2|P 3 2"
P 31 2c (0 0 1)|P 31 2"|P 32 2c (0 0 -1)|P 32 2"|R 3 2"|P 3 -2"|P 3 -2|P 3 -2"c|P 3 -2c|R 3 -2"|R 3 -2"c|-P 3 2|-P 3 2c|-P 3 2"|-P 3 2"c
-R 3 2"|-R 3 2"c|P 6|P 61|P 65|P 62|P 64|P 6c|P -6|-P 6|-P 6c|P 6 2|P 61 2 (0 0 -1)|P 65 2 (0 0 1)|P 62 2c (0 0 1)
P 64 2c (0 0 -1)|P 6c 2c|P 6 -2|P 6 -2c|P 6c -2|P 6c -2c|P -6 2|P -6c 2|P -6 -2|P -6c -2c|-P 6 2|-P 6 2c|-P 6c 2|-P 6c 2c|P 2 2 3
F 2 2 3|I 2 2 3|P 2ac 2ab 3|I 2b 2c 3|-P 2 2 3|P 2 2 3 -1n|-F 2 2 3|F 2 2 3 -1d|-I 2 2 3|-P 2ac 2ab 3|-I 2b 2c 3|P 4 2 3|P 4n 2 3|F 4 2 3|F 4d 2 3
I 4 2 3|P 4acd 2ab 3|P 4bd 2ab 3|I 4bd 2c 3|P -4 2 3|F -4 2 3|I -4 2 3|P -4n 2 3|F -4a 2 3|I -4bd 2c 3|-P 4 2 3|P 4 2 3 -1n|-P 4n 2 3|P 4n 2 3 -1n|-F 4 2 3
-F 4a 2 3|F 4d 2 3 -1d|F 4d 2 3 -1ad|-I 4 2 3|-I 4bd 2c 3"""
HALL = [s for line in HALL.split("\n") for s in line.split("|")]
assert len(HALL) == 230

CENT = {
    "P": [(0, 0, 0)], "A": [(0, 0, 0), (0, F(1, 2), F(1, 2))],
    "B": [(0, 0, 0), (F(1, 2), 0, F(1, 2))], "C": [(0, 0, 0), (F(1, 2), F(1, 2), 0)],
    "I": [(0, 0, 0), (F(1, 2),) * 3],
    "R": [(0, 0, 0), (F(2, 3), F(1, 3), F(1, 3)), (F(1, 3), F(2, 3), F(2, 3))],
    "F": [(0, 0, 0), (0, F(1, 2), F(1, 2)), (F(1, 2), 0, F(1, 2)), (F(1, 2), F(1, 2), 0)],
}
TR = {"a": (F(1, 2), 0, 0), "b": (0, F(1, 2), 0), "c": (0, 0, F(1, 2)), "n": (F(1, 2),) * 3,
      "u": (F(1, 4), 0, 0), "v": (0, F(1, 4), 0), "w": (0, 0, F(1, 4)), "d": (F(1, 4),) * 3}
AX = {
    ("1", "z"): (1, 0, 0, 0, 1, 0, 0, 0, 1),
    ("2", "x"): (1, 0, 0, 0, -1, 0, 0, 0, -1), ("2", "y"): (-1, 0, 0, 0, 1, 0, 0, 0, -1), ("2", "z"): (-1, 0, 0, 0, -1, 0, 0, 0, 1),
    ("3", "z"): (0, -1, 0, 1, -1, 0, 0, 0, 1), ("4", "z"): (0, -1, 0, 1, 0, 0, 0, 0, 1), ("6", "z"): (1, -1, 0, 1, 0, 0, 0, 0, 1),
    # face-diagonal two-folds for the axis z that precedes
    ("2", "'"): (0, -1, 0, -1, 0, 0, 0, 0, -1), ("2", '"'): (0, 1, 0, 1, 0, 0, 0, 0, -1),
    ("3", "*"): (0, 0, 1, 1, 0, 0, 0, 1, 0),
}


def mmul(a, b):
    return tuple(sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3))


def mvec(a, v):
    return tuple(sum(a[3 * i + k] * v[k] for k in range(3)) for i in range(3))


def mod1(v):
    return tuple(F(x) % 1 for x in v)


def compose(s, t):
    return (mmul(s[0], t[0]), mod1(tuple(x + y for x, y in zip(mvec(s[0], t[1]), s[1]))))


ID = (1, 0, 0, 0, 1, 0, 0, 0, 1)


def closure(gens):
    ops = {(ID, (F(0),) * 3)}
    gens = [(r, mod1(t)) for r, t in gens]
    frontier = list(ops)
    while frontier:
        nxt = []
        for s in frontier:
            for g in gens:
                p = compose(g, s)
                if p not in ops:
                    ops.add(p)
                    nxt.append(p)
        frontier = nxt
        assert len(ops) <= 192
    return ops


def hall_ops(sym):
    shift = (0, 0, 0)
    m = re.search(r"\((-?\d) (-?\d) (-?\d)\)", sym)
    if m:
        shift = tuple(F(int(x), 12) for x in m.groups())
        sym = sym[:m.start()].strip()
    parts = sym.split()
    lat = parts[0]
    gens = [(ID, c) for c in CENT[lat[-1]]]
    if lat[0] == "-":
        gens.append((tuple(-x for x in ID), (0, 0, 0)))
    prev = None
    for i, p in enumerate(parts[1:]):
        neg = p.startswith("-")
        p = p.lstrip("-")
        n, rest = p[0], p[1:]
        axis, t, screw = None, [F(0)] * 3, 0
        for ch in rest:
            if ch in "xyz'\"*":
                axis = ch
            elif ch.isdigit():
                screw = int(ch)
            else:
                t = [x + y for x, y in zip(t, TR[ch])]
        if axis is None:
            if i == 0:
                axis = "z"
            elif n == "2" and i == 1:
                axis = "x" if prev in "24" else "'"
            elif n == "3":
                axis = "*"
            else:
                axis = "z"
        if screw:
            assert axis == "z"
            t[2] += F(screw, int(n))
        r = AX[(n, axis)]
        if neg:
            r = tuple(-x for x in r)
        gens.append((r, tuple(t)))
        prev = n
    ops = closure(gens)
    if shift != (0, 0, 0):
        # x' = x + v :  {R|t} -> {R| v + t - R v}
        ops = {(r, mod1(tuple(v + x - y for v, x, y in zip(shift, t, mvec(r, shift))))) for r, t in ops}
    return lat[-1], ops

# Hermann-Mauguin symbols of the standard settings (ITA, e-notation), written down independently of /repo.
HM = """P1 P-1 P121 P12_11 C121 P1m1 P1c1 C1m1 C1c1 P12/m1 P12_1/m1 C12/m1 P12/c1 P12_1/c1 C12/c1
P222 P222_1 P2_12_12 P2_12_12_1 C222_1 C222 F222 I222 I2_12_12_1
Pmm2 Pmc2_1 Pcc2 Pma2 Pca2_1 Pnc2 Pmn2_1 Pba2 Pna2_1 Pnn2 Cmm2 Cmc2_1 Ccc2 Amm2 Aem2 Ama2 Aea2 Fmm2 Fdd2 Imm2 Iba2 Ima2
Pmmm Pnnn Pccm Pban Pmma Pnna Pmna Pcca Pbam Pccn Pbcm Pnnm Pmmn Pbcn Pbca Pnma Cmcm Cmce Cmmm Cccm Cmme Ccce Fmmm Fddd Immm Ibam Ibca Imma
P4 P4_1 P4_2 P4_3 I4 I4_1 P-4 I-4 P4/m P4_2/m P4/n P4_2/n I4/m I4_1/a
P422 P42_12 P4_122 P4_12_12 P4_222 P4_22_12 P4_322 P4_32_12 I422 I4_122
P4mm P4bm P4_2cm P4_2nm P4cc P4nc P4_2mc P4_2bc I4mm I4cm I4_1md I4_1cd
P-42m P-42c P-42_1m P-42_1c P-4m2 P-4c2 P-4b2 P-4n2 I-4m2 I-4c2 I-42m I-42d
P4/mmm P4/mcc P4/nbm P4/nnc P4/mbm P4/mnc P4/nmm P4/ncc P4_2/mmc P4_2/mcm P4_2/nbc P4_2/nnm P4_2/mbc P4_2/mnm P4_2/nmc P4_2/ncm I4/mmm I4/mcm I4_1/amd I4_1/acd
P3 P3_1 P3_2 R3 P-3 R-3 P312 P321 P3_112 P3_121 P3_212 P3_221 R32 P3m1 P31m P3c1 P31c R3m R3c P-31m P-31c P-3m1 P-3c1 R-3m R-3c
P6 P6_1 P6_5 P6_2 P6_4 P6_3 P-6 P6/m P6_3/m P622 P6_122 P6_522 P6_222 P6_422 P6_322 P6mm P6cc P6_3cm P6_3mc P-6m2 P-6c2 P-62m P-62c P6/mmm P6/mcc P6_3/mcm P6_3/mmc
P23 F23 I23 P2_13 I2_13 Pm-3 Pn-3 Fm-3 Fd-3 Im-3 Pa-3 Ia-3 P432 P4_232 F432 F4_132 I432 P4_332 P4_132 I4_132
P-43m F-43m I-43m P-43n F-43c I-43d Pm-3m Pn-3n Pm-3n Pn-3m Fm-3m Fm-3c Fd-3m Fd-3c Im-3m Ia-3d""".split()
assert len(HM) == 230
