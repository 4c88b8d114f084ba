"""What each check runs."""
import kv, unit


def replay(c, fn):
    lines = [l for l in open(fn).read().split("\n") if l and l[0] != "#"]
    if c.prop in UNITS:
        d = unit.make(c, *UNITS[c.prop])
        d.judge(d.replay(lines), "replay")
        return
    d = kv.make(c)
    d.judge(d.replay(lines), "replay")


# Component drivers: (source, trace specification[, sources run under the scheduler]).
UNITS = {
    "F01": ("u_fileops", "TraceFileOps"),
    "F03": ("u_codec", "TraceCodec"),
    "F04": ("u_hash", "TraceHash"),
    "F05": ("u_bloom", "TraceBloom"),
    "F06": ("u_buf", "TraceBuffers"),
    "F07": ("u_sets", "TraceOrderedSet"),
    "C11": ("u_conckv", "TraceConcKV", []),
    "C12": ("u_crash", "TraceCrash"),
    "F08": ("u_conc", "TraceConcSet", ["skiplist"]),
}


def _unit(quick, models=(), **kw):
    return lambda c: unit.check(c, UNITS[c.prop], quick, models=models, **kw)


def _kv(quick, thorough=None, length=150):
    def f(c):
        kv.check(c, quick, thorough or [(p, n * 8) for p, n in quick], length)
    return f


CHECKS = {
    "C01": _kv([("point", 1200), ("maint", 200), ("reopen", 200)]),
    "C02": _kv([("iter", 1600)]),
    "C03": _kv([("seqitr", 900), ("seq", 700)]),
    "C04": _kv([("snap", 1500)]),
    "C05": _kv([("near", 1600)]),
    "C06": _kv([("maint", 1600)]),
    "C07": _kv([("batch", 1300)]),
    "C08": _kv([("chk", 1500)]),
    "C09": _kv([("reopen", 1600)]),
    "C10": _kv([("log", 1800)]),
    "C11": _unit([(1800, 24), (160, 36)]),
    "C12": _unit([(400, 30)]),
    "F01": _unit([(400, 120)], ["MCFileOps"], scripts=["0|big 3000 0", "0|big 3000 1", "0|big 5000 1"]),
    "F03": _unit([(1500, 60)]),
    "F05": _unit([(800, 60)]),
    "F06": _unit([(1200, 60)]),
    "F07": _unit([(800, 80)]),
    "F08": _unit([(4000, 20), (400, 45)]),
    # Every entry of the CRC tables: eight times the same byte on an all-zero state.
    "F04": _unit([(160, 25)], scripts=["0|" + ";".join("crc 8 %d 4 %d 0 4294967295" % (b, b % 8) for b in range(k, k + 16)) for k in range(0, 256, 16)]),
}
