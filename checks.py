"""The checks: which harness source and builds decide each property, and how
many cases each tier explores."""


def check(src, quick, thorough, **kw):
    return dict(src=src, quick=quick, thorough=thorough, **kw)


def simple(n, quick, thorough, **kw):
    return check("c%02d.cpp" % n, [("asan", quick)], [("asan", thorough)], **kw)


QUICK = {
    2: 200000, 3: 200000, 4: 120000, 5: 110000, 6: 120000, 7: 200000, 8: 200000, 9: 200000,
    10: 200000, 11: 160000, 12: 110000, 13: 180000, 15: 120000, 16: 45000, 17: 150000,
    18: 150000, 19: 120000, 20: 160000, 21: 120000,
    22: 40000,  # a process for each case
    23: 100000, 24: 25000, 26: 20000,
}
THOROUGH = {16: 2000000, 22: 600000, 24: 500000}

CHECKS = {"C%02d" % n: simple(n, QUICK[n], THOROUGH.get(n, 3000000)) for n in QUICK}
CHECKS["C01"] = check("c01.cpp", [("asan", 30000), ("debug", 14000), ("memcheck", 2000)],
                      [("asan", 800000), ("debug", 300000), ("memcheck", 20000), ("fuzz", 400000)])
CHECKS["C14"] = check("c14.cpp", [("asan", 20000), ("tsan", 4000)],
                      [("asan", 600000), ("tsan", 120000)], setarch=True)
# The same cases with each build
CHECKS["C25"] = check("c25.cpp", [("asan", 40000), ("two", 40000), ("twocommitted", 40000)],
                      [("asan", 500000), ("two", 500000), ("twocommitted", 500000)], compare=("asan", "two"))
CHECKS["C27"] = simple(27, 12000, 200000, examples=True)

PROPERTY_IDS = sorted(CHECKS)
