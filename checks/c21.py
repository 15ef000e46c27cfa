"""C21 iterator_facade."""
import big
import cursorgen

FW = ["inc", "pinc", "get", "arr", "eq", "ne", "copy"]
BI = FW + ["dec", "pdec"]
RA = BI + ["add", "sub", "uadd", "usub", "plus", "kplus", "minus", "at", "diff", "lt", "le", "gt", "ge"]


def run(c):
    exe = c.build("cursor.cc", flags=("-DKIND=2",))
    big.run(c, 21)
    c.model_check("Cursor", "CursorMC.cfg")
    S = ["set"]
    E = ["atend", "sdiff"]
    V = {0: (1, FW + S, [1], 1, 0, None), 1: (1, BI, [], 2, 0, None), 2: (1, RA + S, [1], 3, 0, None), 3: (1, RA, [], 3, 0, None),
         4: (1, ["inc", "vinc", "get", "arr", "copy", "set"] + E, [1], 0, 0, None), 5: (1, RA + S, [1], 3, 0, None), 6: (1, RA + E, [], 3, 0, None),
         7: (1, FW + S, [1], 1, 0, None), 8: (1, BI + S, [1], 2, 0, None), 9: (1, RA + S, [1], 3, 0, None), 10: (1, ["inc", "vinc", "get", "arr", "copy"] + E, [], 0, 0, None)}
    cs = cursorgen.cases(c, "fac", V, {})
    cs += cursorgen.long_cases(c, "fac", V)
    c.conform("facade", exe, cs, "CursorHist", "CursorHist.cfg", mutate=cursorgen.mutate, canaries=40)
    c.assumptions += ["primitives are total on valid positions; positions outside [begin, end] are not formed"]
