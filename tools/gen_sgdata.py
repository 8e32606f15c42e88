"""Writes harness/src/sgdata.rs: the 230 space-group types as exact operations in the conventional setting."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hall import HALL, HM, hall_ops
out = ["//! Generated by tools/gen_sgdata.py from Hall symbols; independent of /repo.",
       "/// (centering, operations: 9 rotation entries row-major + 3 translation numerators over 12)",
       "pub static SG: [(char, &[[i8; 12]]); 230] = ["]
for h in HALL:
    cent, ops = hall_ops(h)
    rows = []
    for r, t in sorted(ops, key=lambda o: (o[0] != (1, 0, 0, 0, 1, 0, 0, 0, 1), o[0], o[1])):
        num = [x * 12 for x in t]
        assert all(x.denominator == 1 for x in num)
        rows.append("[" + ",".join(str(int(x)) for x in list(r) + num) + "]")
    out.append("    ('%s', &[%s])," % (cent, ",".join(rows)))
out.append("];")
out.append("/// Hermann-Mauguin symbols of the standard settings\npub static HM: [&str; 230] = [" + ", ".join('"%s"' % h for h in HM) + "];")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "sgdata.rs"), "w").write("\n".join(out) + "\n")
