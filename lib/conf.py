"""Conformance: runs of a driver judged by a trace specification."""
import json, os
import tlc, vf


def read(out):
    """[(trace line, script)] written by a driver."""
    scripts = {}
    if os.path.exists(out + ".scripts"):
        for l in open(out + ".scripts"):
            n, rest = l.rstrip("\n").split("|", 1)
            scripts[n] = rest
        os.unlink(out + ".scripts")
    res = []
    for l in open(out):
        l = l.rstrip("\n")
        if l:
            t = json.loads(l)
            s = scripts.get(t["name"], "")
            if t["ev"] and t["ev"][-1].get("op") == "crash":
                head, _, ops = t["ev"][-1]["script"].partition(";")
                s = head + "|" + ops
            res.append((l, s))
    os.unlink(out)
    return res


class Driver:
    """A driver executable: `exe ARGS SEED N LEN OUT [SCRIPT]`."""

    def __init__(self, c, exe, args=(), module=None, cfg=None, env=None, tenv=None):
        self.c, self.exe, self.args, self.module, self.cfg, self.env = c, exe, list(args), module, cfg or (module + ".cfg"), env or {}
        self.tenv = tenv

    def part(self, k, n, length, tag="", args=None):
        a = self.args if args is None else list(args)
        out = os.path.join(self.c.scratch, "t%s_%s_%d.ndjson" % (tag, "_".join(a), k))
        self.c.run([self.exe] + a + [str(self.c.seed * 1000 + k), str(n), str(length), out], timeout=800, env=self.env)
        return read(out)

    def generate(self, n, length, tag="", chunk=25):
        parts = max(1, min(vf.NCPU, n // chunk))
        res = []
        for r in vf.pmap(lambda k: self.part(k, n // parts + (1 if k < n % parts else 0), length, tag), range(parts)):
            res += r
        return res

    def replay(self, scripts, tag="r"):
        f = os.path.join(self.c.scratch, tag + ".txt")
        with open(f, "w") as g:
            g.write("\n".join(scripts) + "\n")
        out = os.path.join(self.c.scratch, tag + ".ndjson")
        self.c.run([self.exe] + self.args + ["1", str(len(scripts)), "0", out, f], timeout=800, env=self.env)
        return read(out)

    def validate(self, lines, workers=vf.NCPU, timeout=800):
        return tlc.validate(self.module, self.cfg, lines, self.c.scratch, workers=workers, timeout=timeout, heap="6g", env=self.tenv)

    def judge(self, pairs, what, batch=1500):
        """Validates traces with TLC; what is rejected twice is a violation."""
        c = self.c
        if c.violations and c.elapsed() > 150:
            return
        rej = []
        for k in range(0, len(pairs), batch):
            r = self.validate([p[0] for p in pairs[k:k + batch]])
            c.count(r)
            rej += r["rejected"]
        if pairs and len(c.samples) < 4:
            c.samples.append({"kind": what, "script": pairs[len(pairs) // 2][1][:600]})
        byline = dict(pairs)
        n = 0
        # Hangs last: each costs a time limit.
        for line, i in sorted(rej[:200], key=lambda x: ('"why":"hang' in x[0], len(x[0])))[:40]:
            if n >= 3 or n and c.elapsed() > 150:
                break
            s = byline[line]
            desc = describe(line, i)
            again = self.replay([s] * 2, "again")
            r2 = self.validate([p[0] for p in again], workers=2)
            if not r2["rejected"]:
                c.notes.append("not reproduced: " + desc[:300])
                c.log("rejected once, not reproduced:", desc[:300])
                continue
            p = c.replay_file("%s_%d.txt" % (what, n), "# rejected at: %s\n# replay: python3 check.py %s --replay THIS\n%s\n" % (desc, c.prop, s))
            c.violation("%s: no behaviour of the specification explains %s" % (what, desc[:400]), p)
            n += 1
        c.extra["events_validated"] = c.extra.get("events_validated", 0) + sum(l.count('{"op"') for l, _ in pairs)
        c.log("%s: %d runs, %d rejected" % (what, len(pairs), len(rej)))

    def findings(self):
        for kid, fn, text in vf.known_findings(self.c.prop):
            s = [l for l in open(fn).read().split("\n") if l and l[0] != "#"]
            r = self.validate([p[0] for p in self.replay(s, "kf")], workers=2)
            if r["rejected"]:
                self.c.known_finding("%s %s (%s)" % (kid, text, describe(*r["rejected"][0])[:200]))
            else:
                self.c.log("known finding %s did not reproduce" % kid)


def describe(line, i):
    t = json.loads(line)
    if i < len(t["ev"]):
        e = dict(t["ev"][i])
        e.pop("script", None)
        return "%s event %d of %d: %s" % (t["name"], i + 1, len(t["ev"]), json.dumps(e))
    return t["name"]


def model(c, module, cfg=None, workers=vf.NCPU, timeout=600, args=(), heap="6g"):
    """Exhaustive check of a model's invariants and properties."""
    rc, out = tlc.run(module, cfg or (module + ".cfg"), workers=workers, timeout=timeout, scratch=c.scratch, heap=heap, args=args)
    g, d = tlc.stats(out)
    c.states += d
    c.transitions += g
    c.extra.setdefault("models", {})[cfg or module] = {"distinct_states": d, "transitions": g}
    if "No error has been found" not in out:
        # The model itself is fixed: this says nothing about /repo.
        raise vf.HarnessError("model %s fails:\n%s" % (module, out[-4000:]))
    c.log("model %s: %d states" % (cfg or module, d))
