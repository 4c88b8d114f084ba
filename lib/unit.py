"""Component checks: drivers of single components judged by their specifications."""
import os
import conf, vf

ASAN = ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address"]
UBSAN = ["-fsanitize=undefined", "-fno-sanitize=alignment,vptr,function", "-fno-sanitize-recover=undefined"]


def driver(c, src, module, args=(), flags=ASAN, lib=None, tag="asan", env=None):
    lib = lib or c.lib(tag, flags)
    exe = c.exe(src, [src + ".cc"], lib, flags)
    return conf.Driver(c, exe, args, module, env=dict(env or {}, VF_DISK=c.disk))


def scheduled(c, src, module, sources=None, args=(), env=None):
    """A driver whose code under test runs under the deterministic scheduler (vsched.cc):
    instrumented by -fsanitize=thread, linked without the sanitizer."""
    flags = ["-O1", "-g1", "-DNDEBUG"]
    lib = c.lib("sched", flags + ["-fsanitize=thread"], sources=sources, with_fdb=sources is None)
    exe = c.exe(src, [src + ".cc", "vsched.cc"], lib, flags + ["-fno-threadsafe-statics"])
    return conf.Driver(c, exe, args, module, env=dict(env or {}, VF_DISK=c.disk))


def make(c, src, module, sched=None, **kw):
    return scheduled(c, src, module, sources=sched or None, **kw) if sched is not None else driver(c, src, module, **kw)


def check(c, unit, quick, thorough=None, models=(), env=None, scripts=(), args=()):
    """quick/thorough: [(runs, length)]"""
    d = make(c, *unit, env=env, args=args)
    for m in models:
        if isinstance(m, str):
            conf.model(c, m)
        else:
            conf.model(c, m[0], m[1])
    for n, length in (thorough or [(a * 10, b) for a, b in quick]) if c.thorough else quick:
        d.judge(d.generate(n, length, tag=str(length)), "run%d" % length)
    if scripts:
        d.judge(d.replay(list(scripts), "fixed"), "fixed")
    d.findings()
    return d
