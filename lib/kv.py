"""Database-level checks: histories of the real library against JungleKV."""
import json
import conf, vf

ASAN = ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address"]


def make(c):
    lib = c.lib("asan", ASAN)
    return conf.Driver(c, c.exe("kvmain", ["kvmain.cc"], lib, ASAN), ["replay"], "TraceJungleKV")


def generate(c, d, plan, length, tag=""):
    """plan: [(profile, number of histories)]"""
    jobs = []
    for prof, n in plan:
        parts = max(1, min(vf.NCPU, n // 25))
        jobs += [(prof, k, n // parts + (1 if k < n % parts else 0)) for k in range(parts)]
    res = []
    for r in vf.pmap(lambda j: d.part(j[1], j[2], length, tag, [j[0]]), jobs):
        res += r
    return res


def check(c, quick, thorough, length=150):
    d = make(c)
    plan = thorough if c.thorough else quick
    c.extra["profiles"] = {p: n for p, n in plan}
    pairs = generate(c, d, plan, length)
    c.log("generated")
    d.judge(pairs, "history")
    if c.thorough:
        d.judge(generate(c, d, [(p, max(8, n // 20)) for p, n in plan], 900, tag="L"), "long_history", batch=100)
    d.findings()
    c.assumptions += ["The table file layer (ForestDB) is the in-memory/append-file stand-in of /verif/fdbmodel: its own correctness is assumed.",
                      "Small key universe (6-18 keys), histories of about %d events." % length]
