"""Running TLC on specifications and on recorded traces."""
import json, os, re, shutil, subprocess, tempfile

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


def run(module, cfg, env=None, workers=4, args=(), timeout=600, scratch=None, heap="3g"):
    """Runs TLC; returns (returncode, output)."""
    work = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", work,
           "-noGenerateSpecTE", "-cleanup", "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode(errors="replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT\n"
        rc = -1
    shutil.rmtree(work, ignore_errors=True)
    return rc, out


def stats(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if m:
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        return int(m[-1].replace(",", "")), 0
    return 0, 0


def validate(module, cfg, traces, scratch, workers=4, timeout=600, heap="3g", env=None):
    """Validates trace lines (JSON strings) against a trace specification.  A trace is accepted when some behaviour
    explains it to its end (the specification prints <<"ACC", trace>>).  Returns dict: rejected = [(trace, index of the
    first event no behaviour explains)], states, transitions, accepted."""
    if not traces:
        raise TlcError("no traces")

    def go(lines, progress):
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=scratch, delete=False)
        f.write("\n".join(lines) + "\n")
        f.close()
        e = dict(env or {})
        e.update(TRACE=f.name, PROGRESS="1" if progress else "0")
        try:
            rc, out = run(module, cfg, env=e, workers=workers, timeout=timeout, scratch=scratch, heap=heap)
        finally:
            os.unlink(f.name)
        if "Model checking completed. No error has been found" not in out:
            at = re.findall(r"^(?:/\\ )?(?:tr|i) = \d+", out, re.M)
            raise TlcError("TLC failed (%s):\n%s" % (at[-2:], out[-6000:]))
        return out

    out = go(traces, False)
    acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
    g, d = stats(out)
    bad = [x for x in range(len(traces)) if x + 1 not in acc]
    rejected = []
    if bad:
        lines = [traces[x] for x in bad]
        o2 = go(lines, True)
        acc2 = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', o2))
        top = {}
        for t, k in re.findall(r'<<"AT", (\d+), (\d+)>>', o2):
            top[int(t)] = max(top.get(int(t), 1), int(k))
        for n, x in enumerate(bad):
            if n + 1 not in acc2:
                rejected.append((traces[x], top.get(n + 1, 1) - 1))
    return dict(rejected=rejected, accepted=len(traces) - len(rejected), states=d, transitions=g, output=out)
