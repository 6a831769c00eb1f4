"""Builds what a check needs from /repo's current working tree.

Nothing is taken from /repo/_build: every object is compiled here, with the
sanitizers, from the sources as they are now.  Objects are cached under
/verif/build by the hash of everything that goes into them, so a second check
in the same sandbox reuses them and a changed tree never does.
"""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

CXX = "g++"
SAN = ["-fsanitize=address,undefined,float-cast-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++17", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS"]


# the same program with everything that is never initialised set to one thing or another
FLAGS = {"san": SAN, "plain": [], "zero": ["-ftrivial-auto-var-init=zero"], "pattern": ["-ftrivial-auto-var-init=pattern"]}


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def _tree_hash():
    h = hashlib.sha256()
    files = []
    for d in ("lib/marc", "lib/marc/details", "src"):
        for pat in ("*.cpp", "*.h", "*.yy", "*.ll"):
            files += glob.glob(os.path.join(REPO, d, pat))
    files += glob.glob(os.path.join(VERIF, "include/marc/*.h"))
    files += [os.path.abspath(__file__)]
    for f in sorted(set(files)):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def incs(gen):
    return ["-I" + os.path.join(VERIF, "include"), "-I" + os.path.join(VERIF, "include/marc"),
            "-I" + REPO + "/lib", "-I" + REPO + "/src", "-I" + gen,
            "-I" + REPO + "/opt/fmt-8.0.1/include"]


class Build:
    def __init__(self):
        self.hash = _tree_hash()
        self.dir = os.path.join(OUT, self.hash)
        self.gen = os.path.join(self.dir, "gen")
        os.makedirs(self.gen, exist_ok=True)
        self._prune()

    def _prune(self):
        import shutil
        ds = sorted((d for d in glob.glob(OUT + "/*") if os.path.isdir(d) and d != self.dir),
                    key=os.path.getmtime)
        for d in ds[:-3]:
            shutil.rmtree(d, ignore_errors=True)

    def _obj(self, src, tag, flags):
        o = os.path.join(self.dir, tag, os.path.basename(src) + ".o")
        return o

    def _compile(self, jobs):
        """jobs: list of (src, obj, flags)"""
        todo = [(s, o, f) for s, o, f in jobs if not os.path.exists(o)]
        for _, o, _ in todo:
            os.makedirs(os.path.dirname(o), exist_ok=True)
        # biggest first
        todo.sort(key=lambda j: -os.path.getsize(j[0]))

        def one(j):
            s, o, f = j
            tmp = "%s.%d.tmp.o" % (o, os.getpid())
            _run([CXX] + BASE + f + incs(self.gen) + ["-c", s, "-o", tmp])
            os.replace(tmp, o)
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            list(ex.map(one, todo))
        return [o for _, o, _ in jobs]

    def _lib_jobs(self, tag, flags):
        srcs = [s for s in sorted(glob.glob(REPO + "/lib/marc/*.cpp")) if not s.endswith("_t.cpp")]
        jobs = [(s, os.path.join(self.dir, tag, "lib_" + os.path.basename(s) + ".o"), flags) for s in srcs]
        # the bundled {fmt} is a dependency: one uninstrumented object
        jobs.append((REPO + "/opt/fmt-8.0.1/src/format.cc", os.path.join(self.dir, "fmt", "fmt.o"), []))
        return jobs

    def _gen(self):
        if not os.path.exists(self.gen + "/.done"):
            tmp = self.gen
            _run(["bison", "-d", "-o", "parse.cc", "--header=parse.hh", REPO + "/src/parse.yy"], cwd=tmp)
            _run(["flex", "-o", "lexer.cc", REPO + "/src/lexer.ll"], cwd=tmp)
            open(self.gen + "/.done", "w").close()

    def _src_jobs(self, tag, flags, main=True):
        self._gen()
        srcs = [s for s in sorted(glob.glob(REPO + "/src/*.cpp"))
                if not s.endswith("_t.cpp") and (main or not s.endswith("/marc.cpp"))]
        jobs = [(s, os.path.join(self.dir, tag, "src_" + os.path.basename(s) + ".o"), flags) for s in srcs]
        for g in ("parse.cc", "lexer.cc"):
            s = os.path.join(self.gen, g)
            jobs.append((s, os.path.join(self.dir, tag, "src_" + g + ".o"), flags))
        return jobs

    def marc(self, tag="san"):
        """The real command line program."""
        flags = FLAGS[tag]
        exe = os.path.join(self.dir, tag, "marc")
        if not os.path.exists(exe):
            objs = self._compile(self._lib_jobs(tag, flags) + self._src_jobs(tag, flags))
            tmp = "%s.%d" % (exe, os.getpid())
            _run([CXX] + flags + objs + ["-o", tmp, "-lcfitsio", "-lpthread"])
            os.replace(tmp, exe)
        return exe

    def monitor(self, name, tag="san", with_src=False):
        """A library monitor /verif/mon/<name>.cpp linked with the real objects."""
        flags = FLAGS[tag]
        src = os.path.join(VERIF, "mon", name + ".cpp")
        h = hashlib.sha256()
        for f in sorted(glob.glob(os.path.join(VERIF, "mon", "*"))):
            if f.endswith(".h") or f == src:
                h.update(open(f, "rb").read())
        exe = os.path.join(self.dir, tag, "mon_%s_%s" % (name, h.hexdigest()[:12]))
        if not os.path.exists(exe):
            jobs = self._lib_jobs(tag, flags)
            if with_src:
                jobs += self._src_jobs(tag, flags, main=False)
            mo = exe + ".o"
            objs = self._compile([(src, mo, flags + ["-I" + os.path.join(VERIF, "mon")])] + jobs)
            tmp = "%s.%d" % (exe, os.getpid())
            _run([CXX] + flags + objs + ["-o", tmp, "-lcfitsio", "-lpthread"])
            os.replace(tmp, exe)
        return exe


if __name__ == "__main__":
    b = Build()
    print(b.marc())
