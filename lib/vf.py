"""Shared by the checks: scratch space, building from /repo's working tree, evidence, verdicts."""
import atexit, concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)


class HarnessError(Exception):
    """The check itself could not run: no verdict."""


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (3 << 30) else tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=base)
        atexit.register(shutil.rmtree, self.scratch, True)
        # Disk-backed scratch, for what needs a real file system.
        self.disk = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir="/var/tmp" if os.path.isdir("/var/tmp") else None)
        atexit.register(shutil.rmtree, self.disk, True)
        self.violations = []
        self.known = []
        self.notes = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, self.elapsed()), *a, flush=True)

    def replay_file(self, name, text):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s" % (self.prop, name))
        with open(p, "w") as f:
            f.write(text)
        return p

    def violation(self, what, replay):
        self.violations.append((what, replay))
        print("  " + what)
        print("VIOLATION property=%s replay=%s" % (self.prop, replay), flush=True)

    def known_finding(self, what):
        self.known.append(what)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)

    def count(self, r):
        self.states += r.get("states", 0)
        self.transitions += r.get("transitions", 0)
        self.traces += r.get("accepted", 0)

    def finish(self, level="model_checking"):
        cov = dict(self.extra)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples[:4])
        if self.notes:
            cov["notes"] = self.notes[:20]
        if self.known:
            cov["known_findings_reproduced"] = self.known
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                           wall_s=round(time.time() - self.t0, 1), violations=len(self.violations)), f, indent=1)
        self.log("states %d, transitions %d, traces %d, violations %d" % (self.states, self.transitions, self.traces, len(self.violations)))
        return 1 if self.violations else 0

    # ---- building -----------------------------------------------------------
    def flags(self, extra=()):
        inc = [REPO + "/src", REPO + "/include", REPO + "/tools", VERIF + "/fdbmodel", VERIF + "/harness"]
        return ["-std=c++17", "-w", "-pthread", "-DLOGGER_H=%s/src/logger.h" % REPO, "-D_FILE_OFFSET_BITS=64"] + ["-I" + i for i in inc] + list(extra)

    def compile_many(self, jobs):
        """jobs: [(source, object, flags)] compiled in parallel."""
        def one(j):
            src, obj, fl = j[:3]
            p = subprocess.run([j[3] if len(j) > 3 else "g++"] + fl + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return src, p.returncode, p.stdout.decode(errors="replace")
        # big ones first
        jobs = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for src, rc, out in ex.map(one, jobs):
                if rc:
                    raise HarnessError("compiling %s failed:\n%s" % (src, out[-4000:]))

    def lib(self, tag, flags, sources=None, compiler="g++", with_fdb=True):
        """Compiles /repo/src (or some of its files) into an archive."""
        d = os.path.join(self.scratch, "lib_" + tag)
        os.makedirs(d, exist_ok=True)
        srcs = sorted(os.listdir(REPO + "/src")) if sources is None else [s + ".cc" for s in sources]
        jobs = [(os.path.join(REPO, "src", s), os.path.join(d, s[:-3] + ".o"), self.flags(flags), compiler) for s in srcs if s.endswith(".cc")]
        if with_fdb:
            jobs.append((VERIF + "/fdbmodel/fdbmodel.cc", os.path.join(d, "fdbmodel.o"), self.flags([f for f in flags if not f.startswith("-fsanitize=thread")]), compiler))
        self.compile_many(jobs)
        a = os.path.join(d, "lib.a")
        subprocess.check_call(["ar", "rcs", a] + [j[1] for j in jobs])
        self.log("built %s (%d files)" % (tag, len(jobs)))
        return a

    def exe(self, name, sources, lib, flags, link=(), compiler="g++"):
        out = os.path.join(self.scratch, name)
        p = subprocess.run([compiler] + self.flags(flags) + [os.path.join(VERIF, "harness", s) for s in sources] + ([lib] if lib else []) +
                           ["-ldl", "-o", out] + list(link), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise HarnessError("building %s failed:\n%s" % (name, p.stdout.decode(errors="replace")[-4000:]))
        return out

    def run(self, cmd, timeout=300, env=None, cwd=None, check=True):
        e = dict(os.environ, VF_SCRATCH=self.scratch, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        e.update(env or {})
        try:
            p = subprocess.run(cmd, env=e, cwd=cwd or self.scratch, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            raise HarnessError("timeout: %s" % " ".join(cmd))
        if check and p.returncode:
            raise HarnessError("%s: exit %d\n%s" % (" ".join(cmd), p.returncode, p.stderr.decode(errors="replace")[-3000:]))
        return p


def pmap(f, xs, n=NCPU):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def known_findings(prop):
    """Entries of known_findings.txt for this property: [(id, file, text)]"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                _, rest = l.strip().split("property=%s " % prop, 1)
                kid, fn, text = rest.split(" ", 2)
                out.append((kid, os.path.join(VERIF, fn), text))
    return out
