"""Common machinery of the checks: running the sanitized program, collecting
what the monitors observed, known findings, evidence."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import build as _b

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:strict_string_checks=1:symbolize=1:hard_rss_limit_mb=3500",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:halt_on_error=1",
}
SAN_RE = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|Assertion [^\n]*failed[^\n]*|"
                    r"terminate called[^\n]*|AddressSanitizer:DEADLYSIGNAL)")


class Inconclusive(Exception):
    pass


class Res:
    __slots__ = ("rc", "out", "err", "timeout", "wall")

    def crashed(self):
        """A sanitizer report, a signal or an uncaught exception: text, or None."""
        if self.timeout:
            return "did not finish within the time limit (twice)"
        m = SAN_RE.search(self.err)
        if m:
            return m.group(1)[:300]
        if self.rc == 99:
            return "sanitizer exit"
        if self.rc < 0:
            return "killed by signal %d" % -self.rc
        return None


class Stop(Exception):
    """the check has its answer: a run that does not end"""


class Ctx:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.rule = ""
        self.samples = []
        self.obs = {}
        self.viol = []
        self.known_hit = {}
        self.assumptions = []
        self.build = _b.Build()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.nd = 0
        self.stopped = False
        self.live = set()
        self.lock = threading.Lock()
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(kf))["findings"]
                      if k["property"] == pid and k.get("status") == "open"] if os.path.exists(kf) else []
        self.replay_dir = os.path.join(VERIF, "replay", pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    def n(self, quick, thorough):
        quick *= 3
        return max(thorough, 4 * quick) if self.tier == "thorough" else quick

    # ---- bookkeeping -------------------------------------------------
    def saw(self, key, n=1):
        self.obs[key] = self.obs.get(key, 0) + n

    def case(self, key, nontrivial=True, n=1):
        self.evaluations += n
        if nontrivial:
            self.distinct.add(key if isinstance(key, str) and len(key) < 64
                              else hashlib.md5(repr(key).encode()).hexdigest())

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, msg, files=None, text=None):
        """key: stable name of the failing case/class (matched against the
        known findings)."""
        for k in self.known:
            if k["key"] == key:
                self.known_hit.setdefault(k["key"], k["what"])
                return
        if any(v[0] == key for v in self.viol) and len(self.viol) > 3:
            self.saw("violations_suppressed_same_key")
            self.viol.append((key, msg, None))
            return
        if len(self.viol) > 40:
            self.viol.append((key, msg, None))
            return
        d = os.path.join(self.replay_dir, "%02d_%s" % (len(self.viol), re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:40]))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "what.txt"), "w") as f:
            f.write("property %s\nkey %s\nseed %d tier %s\n%s\n" % (self.pid, key, self.seed, self.tier, msg))
            if text:
                f.write(text)
            f.write("\nRe-run: VERIF_SEED=%d VERIF_TIER=%s python3-vt /verif/check.py %s\n"
                    % (self.seed, self.tier, self.pid))
        for src in files or []:
            try:
                if os.path.isdir(src):
                    shutil.copytree(src, os.path.join(d, os.path.basename(src)), dirs_exist_ok=True)
                else:
                    shutil.copy(src, d)
            except OSError:
                pass
        self.viol.append((key, msg, d))

    def finish(self, min_distinct=1):
        if not self.viol and len(self.distinct) < min_distinct:
            print("INCONCLUSIVE property=%s: only %d distinct non-trivial cases were observed (need %d)"
                  % (self.pid, len(self.distinct), min_distinct))
            rc = 2
        else:
            rc = 1 if self.viol else 0
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
                "rule": self.rule, "samples": self.samples or ["(none)"], "observed": self.obs,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k, w in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        shown = 0
        for key, msg, d in self.viol:
            if d and shown < 8:
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
                print("  [%s] %s" % (key, msg[:600]))
                shown += 1
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs; observed %s"
              % (self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.viol),
                 time.time() - self.t0, json.dumps(self.obs, default=str)[:900]))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc

    # ---- running things ----------------------------------------------
    def newdir(self, name=None):
        self.nd += 1
        d = os.path.join(self.scratch, "%s%05d" % (name or "c", self.nd))
        os.makedirs(d)
        return d

    def halt(self, key, msg, files=None, text=None):
        """A run did not end: the answer is known, and waiting for more of the kind would take too long."""
        with self.lock:
            first, self.stopped = not self.stopped, True
        if first:
            self.violation(key, msg, files, text)
            for pid in list(self.live):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
        raise Stop()

    def exec(self, cmd, cwd, env=None, timeout=60, retry=True, stdin=None, halt=True):
        """A command that does not end within its time, and not within twice its time when
        tried again, ends the check with a violation (unless halt is False)."""
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": cwd, "LC_ALL": "C.UTF-8", "TZ": "UTC"}
        e.update(SAN_ENV)
        if env:
            e.update(env)
        if self.stopped:
            raise Stop()
        t0 = time.time()
        r = Res()
        r.timeout = False
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        self.live.add(p.pid)
        try:
            out, err = p.communicate(input=stdin, timeout=timeout)
            r.rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            if retry:
                self.live.discard(p.pid)
                return self.exec(cmd, cwd, env, timeout * 2, False, stdin, halt)
            r.rc, r.timeout = -9, True
        finally:
            self.live.discard(p.pid)
        if self.stopped:
            raise Stop()
        r.out = out.decode("latin-1")
        r.err = err.decode("latin-1")
        r.wall = time.time() - t0
        if r.timeout and halt:
            self.halt("endless", "did not end within %d s, tried twice: %s" % (timeout, " ".join(cmd)[-200:]), files=[cwd])
        return r

    def marc(self, cwd, args, env=None, timeout=60, tag="san"):
        return self.exec([self.build.marc(tag)] + list(args), cwd, env, timeout)

    def ask(self, mon, groups, with_src=False, timeout=150, chunks=None):
        """Send groups of request lines to a monitor (mon/<mon>.cpp, linked with
        the real code, sanitized).  Returns the answers in the same shape; the
        answer of a request during which the code died is None."""
        exe = self.build.monitor(mon, with_src=with_src)
        k = chunks or (os.cpu_count() or 8)
        k = max(1, min(k, len(groups)))
        cut = [groups[i * len(groups) // k:(i + 1) * len(groups) // k] for i in range(k)]
        d = self.newdir("ask")

        def parse(t):
            if t[:2] in ("0x", "-0") and "x" in t[:3]:
                return float.fromhex(t)
            if t in ("nan", "-nan", "inf", "-inf"):
                return float(t)
            try:
                return int(t)
            except ValueError:
                return t

        def one(gs):
            res = []
            i = 0
            while i < len(gs):
                part = gs[i:]
                flat = [l for g in part for l in g]
                r = self.exec([exe], d, stdin=("\n".join(flat) + "\n").encode(), timeout=timeout, retry=False, halt=False)
                lines = r.out.split("\n")[:-1]
                if r.rc == 0 and len(lines) == len(flat):
                    p = 0
                    for g in part:
                        res.append([[parse(t) for t in x.split()] for x in lines[p:p + len(g)]])
                        p += len(g)
                    return res
                # died, or was ended, in request number len(lines)
                p = 0
                first = i
                for g in part:
                    if p + len(g) <= len(lines):
                        res.append([[parse(t) for t in x.split()] for x in lines[p:p + len(g)]])
                        p += len(g)
                        i += 1
                        continue
                    got = lines[p:]
                    res.append([[parse(t) for t in x.split()] for x in got] + [None] * (len(g) - len(got)))
                    req = g[len(got)] if len(got) < len(g) else g[-1]
                    if r.timeout:
                        if i > first:          # again, from this group on
                            res.pop()
                            break
                        self.halt("endless", "no answer within %d s to request '%s' of monitor %s" % (timeout, req[:300], mon),
                                  text="requests:\n" + "\n".join(g))
                    if r.rc == 3:
                        raise Inconclusive("monitor %s: %s" % (mon, r.err[-300:]))
                    why = r.crashed() or "exit status %d" % r.rc
                    self.violation("died", "%s: request '%s' of monitor %s: %s" % (why, req[:300], mon, r.err[-1500:]),
                                   text="requests:\n" + "\n".join(g))
                    self.deaths = getattr(self, "deaths", 0) + 1
                    i += 1
                    break
                if getattr(self, "deaths", 0) > 24:
                    res += [[None] * len(g) for g in gs[len(res):]]
                    return res
            return res
        out = []
        for x in self.pmap(one, cut):
            out += x
        return out

    def pmap(self, fn, items, workers=None):
        ex = ThreadPoolExecutor(workers or os.cpu_count() or 8)
        try:
            return list(ex.map(fn, items))
        finally:
            ex.shutdown(wait=True, cancel_futures=True)
