"""building the run-time shim: every interleaving of two actors (processes or threads), every crash point and every failure of the compiler

Files, clocks, locks and the compiler are replaced by a model in which every access is a step. The actors run the real code in threads of which only one runs at a
time; the steps at which control passes to the other one, at which a process is killed, and what the compiler does are symbolic."""
import builtins
import importlib.util
import io
import sys
import threading
import types
from pathlib import Path as RealPath, PurePosixPath
from types import SimpleNamespace

W = SimpleNamespace()
CACHE = "/cache/shim"
REAL = {k: getattr(__import__(k), v) for k, v in (("subprocess", "CalledProcessError"),)}


class Killed(BaseException):
    pass


class Actor:
    def __init__(self, name, fn, proc):
        self.name, self.fn, self.proc = name, fn, proc
        self.go, self.done, self.err, self.res, self.blocked, self.dead, self.stop = threading.Semaphore(0), False, None, None, None, False, False

    def run(self):
        self.go.acquire()
        try:
            if not self.stop:
                self.res = self.fn()
                returned(self)
        except Killed:
            self.dead = True
        except BaseException as e:  # noqa: BLE001
            self.err = e
        self.done = True
        W.back.release()


def cur():
    return W.current


def step(what, write=False):
    """a point at which the world may change"""
    a = cur()
    if a is None:
        return
    if a.dead or a.stop:
        raise Killed()
    W.t += 1
    if W.t > 400:
        W.H.check(False, "the build ends")
    if a.proc == W.victim and bool(W.t == W.kill):
        W.victim = None
        W.H.reach("killed")
        for b in W.actors:
            if b.proc == a.proc:
                b.dead = True
        for l in W.locks:
            if l.owner is not None and l.owner.proc == a.proc:
                l.owner = None
        for l in W.flocks.values():
            l[:] = [x for x in l if x[0].proc != a.proc]
        raise Killed()
    for s in W.switch:
        if bool(W.t == s):
            yield_()
            break


def yield_():
    a = cur()
    W.back.release()
    a.go.acquire()
    if a.dead or a.stop:
        raise Killed()


def wait(cond):
    """blocks the actor until the condition holds"""
    a = cur()
    while not cond():
        if a is None:
            raise RuntimeError("blocked without actors")
        a.blocked = cond
        yield_()
    if a is not None:
        a.blocked = None


def schedule(actors):
    """runs the actors to the end"""
    W.actors = actors
    W.back = threading.Semaphore(0)
    ths = [threading.Thread(target=a.run, daemon=True) for a in actors]
    for t in ths:
        t.start()
    i, fatal, stuck = 0, None, False
    while not all(a.done for a in actors):
        ready = [a for a in actors if not a.done and (a.blocked is None or a.dead or a.blocked())]
        if not ready:
            stuck = True
            break
        later = [a for a in ready if actors.index(a) > i]
        a = later[0] if later else ready[0]
        i = actors.index(a)
        W.current = a
        a.go.release()
        W.back.acquire()
        W.current = None
        if a.err is not None and not isinstance(a.err, Exception):
            fatal = a.err
            break
    for a in actors:
        if not a.done:
            a.stop = True
            W.current = a
            a.go.release()
            W.back.acquire()
            W.current = None
    for t in ths:
        t.join()
    if fatal is not None:
        raise fatal
    if stuck:
        W.H.check(False, "nobody waits for ever")
    for a in actors:
        if a.err is not None and isinstance(a.err, RuntimeError) and str(a.err).startswith("model"):
            raise a.err


# ------------------------------------------------------------------------------------------------ files
class File:
    def __init__(self, kind, mtime):
        self.kind, self.mtime = kind, mtime  # kind: partial, complete, other


def tick():
    """time of a write: not before the previous one"""
    W.n += 1
    W.now = W.now + W.H.real(f"clock{W.n}", 0)
    return W.now


def changed(path):
    if path == W.lib and W.given:
        f = W.files.get(path)
        W.H.check(f is not None and f.kind == "complete", "a library given to someone is never removed, truncated or written over in place")


def returned(a):
    d, n = a.res
    W.H.check(str(d) == W.cache and n == "qugar_basix_shim", "the directory and the name of the library are returned")
    f = W.files.get(W.lib)
    W.H.check(f is not None and f.kind == "complete", "the library is complete when it is given")
    W.H.check(W.H.all([f.mtime >= W.src_t, f.mtime >= W.builder_t]), "the library given is not older than its sources")
    W.given = True
    W.H.reach("given")


class Stat:
    def __init__(self, f):
        self.st_mtime, self.st_size = f.mtime, (0 if f.kind == "partial" else 100)

    @property
    def st_mtime_ns(self):
        return self.st_mtime * 1000000000


class FPath(PurePosixPath):
    def _file(self, what):
        s = str(self)
        if s == W.src:
            return File("other", W.src_t)
        if s == W.builder:
            return File("other", W.builder_t)
        step(what)
        return W.files.get(s)

    def exists(self, **k):
        return self._file("exists") is not None or str(self) in W.dirs

    is_file = exists

    def is_dir(self):
        return str(self) in W.dirs

    def stat(self, **k):
        f = self._file("stat")
        if f is None:
            raise FileNotFoundError(2, "No such file", str(self))
        return Stat(f)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        step("mkdir")
        if str(self) in W.dirs and not exist_ok:
            raise FileExistsError(17, "exists", str(self))
        W.dirs.add(str(self))

    def unlink(self, missing_ok=False):
        step("unlink", True)
        s = str(self)
        if s not in W.files:
            if missing_ok:
                return
            raise FileNotFoundError(2, "No such file", s)
        del W.files[s]
        changed(s)

    def replace(self, target):
        step("replace", True)
        s, t = str(self), str(target)
        if s not in W.files:
            raise FileNotFoundError(2, "No such file", s)
        W.files[t] = W.files.pop(s)
        changed(t)
        return FPath(t)

    rename = replace

    def touch(self, mode=0o666, exist_ok=True):
        step("touch", True)
        W.files.setdefault(str(self), File("partial", W.now)).mtime = tick()

    def glob(self, pat):
        return [FPath(p) for p in sorted(W.files) if FPath(p).parent == self and FPath(p).match(pat)]

    def resolve(self, strict=False):
        return self

    absolute = expanduser = resolve

    @classmethod
    def home(cls):
        return cls("/home/u")

    def open(self, mode="r", *a, **k):
        return fopen(self, mode)

    def rmdir(self):
        W.dirs.discard(str(self))

    def __getattr__(self, n):
        if not n.startswith("_") and hasattr(RealPath, n):
            W.H.gap("Path." + n)
        raise AttributeError(n)


class Handle(io.StringIO):
    def __init__(self, path):
        super().__init__()
        self.path, self.owner = path, cur()

    def fileno(self):
        return self

    def close(self):
        W.flocks[self.path] = [x for x in W.flocks.get(self.path, []) if x[1] is not self]
        super().close()


def fopen(path, mode="r", *a, **k):
    step("open", True)
    s = str(path)
    if "x" in mode and s in W.files:
        raise FileExistsError(17, "exists", s)
    if "r" in mode and s not in W.files:
        raise FileNotFoundError(2, "No such file", s)
    if "w" in mode or "x" in mode or s not in W.files:
        W.files[s] = File("partial", W.now)
        changed(s)
    return Handle(s)


LOCK_SH, LOCK_EX, LOCK_NB, LOCK_UN = 1, 2, 4, 8


def flock(fh, op):
    step("flock")
    held = W.flocks.setdefault(fh.path, [])
    mine = lambda: [x for x in W.flocks[fh.path] if x[1] is not fh]  # noqa: E731
    if op & LOCK_UN:
        W.flocks[fh.path] = mine()
        return
    free = lambda: not mine() or (not op & LOCK_EX and all(not x[2] for x in mine()))  # noqa: E731
    if op & LOCK_NB and not free():
        raise BlockingIOError(11, "busy")
    wait(free)
    W.flocks[fh.path] = mine() + [(cur(), fh, bool(op & LOCK_EX))]
    del held


class FLock:
    def __init__(self):
        self.owner = None
        W.locks.append(self)

    def acquire(self, blocking=True, timeout=-1):
        step("lock")
        if not blocking and self.owner is not None:
            return False
        wait(lambda: self.owner is None)
        self.owner = cur()
        return True

    def release(self):
        self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


# ------------------------------------------------------------------------------------------------ compiler
def compile_(cmd, **k):
    cmd = [str(c) for c in cmd]
    W.H.check("-o" in cmd and W.src in cmd and "-shared" in cmd and "-lbasix" in cmd, "the command builds a shared library from the source, linked with basix")
    W.H.check(cmd[0] == "/usr/bin/c++", "the compiler found is used")
    out = cmd[cmd.index("-o") + 1]
    W.runs += 1
    step("compiler starts", True)
    if W.H.flag(f"compiler_removes{W.runs}"):
        W.files.pop(out, None)
        changed(out)
        step("compiler opens", True)
    W.files[out] = File("partial", tick())
    changed(out)
    step("compiler writes", True)
    if W.runs <= W.max_fail and W.H.flag(f"compiler_fails{W.runs}"):
        W.H.reach("failed")
        W.failed += 1
        if W.H.flag(f"compiler_cleans{W.runs}"):
            W.files.pop(out, None)
            changed(out)
        step("compiler fails", True)
        return 1
    f = W.files.get(out)
    W.files[out] = File("complete", tick())
    changed(out)
    step("compiler ends", True)
    del f
    return 0


class Done:
    def __init__(self, args, rc):
        self.args, self.returncode, self.stdout, self.stderr = args, rc, "", ""

    def check_returncode(self):
        if self.returncode:
            raise REAL["subprocess"](self.returncode, self.args)


def run(cmd, check=False, **k):
    d = Done(cmd, compile_(cmd))
    if check:
        d.check_returncode()
    return d


def check_call(cmd, **k):
    run(cmd, check=True)
    return 0


def call(cmd, **k):
    return compile_(cmd)


def check_output(cmd, **k):
    run(cmd, check=True)
    return b""


# ------------------------------------------------------------------------------------------------ environment
class FTemp:
    """names of temporary files and directories"""
    def new(self, suffix, prefix, dir):
        W.tmp += 1
        return f"{dir or '/tmp'}/{prefix or 'tmp'}{W.tmp}{suffix or ''}"

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        p = self.new(suffix, prefix, dir)
        W.dirs.add(p)
        return p

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        p = self.new(suffix, prefix, dir)
        W.files[p] = File("partial", W.now)
        return Handle(p), p

    def TemporaryDirectory(self, suffix=None, prefix=None, dir=None, **k):
        p = self.mkdtemp(suffix, prefix, dir)

        class D:
            name = p

            def __enter__(self):
                return p

            def __exit__(self, *a):
                self.cleanup()

            def cleanup(self):
                for f in [f for f in W.files if f.startswith(p + "/")]:
                    FPath(f).unlink(missing_ok=True)
        return D()

    def NamedTemporaryFile(self, mode="w+b", *a, suffix=None, prefix=None, dir=None, delete=True, **k):
        p = self.new(suffix, prefix, dir)
        W.files[p] = File("partial", W.now)
        h = Handle(p)
        h.name = p
        return h


def fake_os():
    o = W.H.ns("os")
    o.environ = dict(W.env)
    o.getenv = lambda k, d=None: o.environ.get(k, d)
    o.getpid = lambda: 100 + (cur().proc if cur() else 0)
    o.replace = o.rename = lambda a, b: FPath(a).replace(b)
    o.unlink = o.remove = lambda p: FPath(p).unlink()
    o.close = lambda fd: fd.close()
    o.stat = lambda p: FPath(p).stat()
    o.fspath = str
    o.sep, o.PathLike, o.error = "/", PurePosixPath, OSError
    o.makedirs = lambda p, mode=0o777, exist_ok=False: FPath(p).mkdir(parents=True, exist_ok=exist_ok)
    o.utime = lambda p, *a, **k: FPath(p).touch()
    import posixpath
    o.path = W.H.ns("os.path", exists=lambda p: FPath(p).exists(), getmtime=lambda p: FPath(p).stat().st_mtime, join=posixpath.join, dirname=posixpath.dirname,
                                   basename=posixpath.basename, isfile=lambda p: FPath(p).exists())
    return o


def fake_shutil():
    s = W.H.ns("shutil")

    def move(a, b):
        FPath(a).replace(b)

    def copy(a, b, **k):
        """not atomic"""
        step("copy", True)
        f = W.files[str(a)]
        W.files[str(b)] = File("partial", tick())
        changed(str(b))
        step("copying", True)
        W.files[str(b)] = File(f.kind, tick())
        changed(str(b))
    s.move, s.copy, s.copy2, s.copyfile = move, copy, copy, copy
    s.which = lambda n, **k: W.which(n)
    s.rmtree = lambda p, **k: [W.files.pop(f) for f in list(W.files) if f.startswith(str(p) + "/")]
    return s


def load(H, name):
    """a process's own copy of the module, with the model in place of files, locks and compiler"""
    import qugar.dolfinx as qd
    path = RealPath(list(qd.__path__)[0]) / "_shim" / "__init__.py"
    spec = importlib.util.spec_from_file_location(name, str(path))
    m = importlib.util.module_from_spec(spec)
    m.__file__ = str(path)
    fc = types.ModuleType("fcntl")
    fc.flock, fc.LOCK_EX, fc.LOCK_UN, fc.LOCK_SH, fc.LOCK_NB = flock, LOCK_EX, LOCK_UN, LOCK_SH, LOCK_NB
    fc.lockf = lambda fh, op, *a: W.H.gap("lockf")
    sys.modules["fcntl"] = fc
    spec.loader.exec_module(m)
    lock_t = type(threading.Lock()), type(threading.RLock())
    W.src, W.builder = str(path.parent / "qugar_basix_shim.cpp"), str(path)
    fos, fsh, ftm = fake_os(), fake_shutil(), FTemp()
    for k, v in list(vars(m).items()):
        if isinstance(v, lock_t):
            setattr(m, k, FLock())
        elif isinstance(v, RealPath):
            setattr(m, k, FPath(str(v)))
        elif v is RealPath:
            setattr(m, k, FPath)
        elif isinstance(v, types.ModuleType):
            r = {"os": fos, "shutil": fsh, "tempfile": ftm,
                 "subprocess": W.H.ns("subprocess", run=run, check_call=check_call, call=call, check_output=check_output, CalledProcessError=REAL["subprocess"], PIPE=-1, STDOUT=-2, DEVNULL=-3),
                 "fcntl": fc}.get(v.__name__)
            if r is not None:
                setattr(m, k, r)
    m.open = fopen
    m.__dict__.setdefault("math", None)
    return m


def world(H, kills=False, switches=2, max_fail=0):
    W.H, W.t, W.n, W.runs, W.failed, W.tmp, W.max_fail = H, 0, 0, 0, 0, 0, max_fail
    W.current, W.victim, W.actors, W.given = None, None, [], False
    W.files, W.dirs, W.locks, W.flocks = {}, {"/cache", "/home/u"}, [], {}
    W.env = {"QUGAR_SHIM_CACHE": CACHE, "CXX": "/usr/bin/c++"}
    W.which = lambda n: n if n == "/usr/bin/c++" else None
    W.files["/usr/bin/c++"] = File("other", 0)
    W.cache = CACHE
    W.lib = CACHE + "/libqugar_basix_shim.so"
    W.src_t, W.builder_t, W.now = H.real("src_time"), H.real("builder_time"), H.real("start")
    H.assume(W.now >= W.src_t)
    H.assume(W.now >= W.builder_t)
    W.old = H.flag("library_there")
    if W.old:
        t = H.real("library_time")
        H.assume(t <= W.now)
        W.files[W.lib] = File("complete", t)
        W.dirs.add(CACHE)
    W.switch = []
    for i in range(switches):
        s = H.int(f"switch{i}", 1, 200)
        if W.switch:
            H.assume(s > W.switch[-1])
        W.switch.append(s)
    W.kill = None
    if kills:
        W.kill = H.int("kill", 1, 200)
        W.victim = 0


def fresh_lib(H):
    f = W.files.get(W.lib)
    return f is not None and f.kind == "complete" and bool(H.all([f.mtime >= W.src_t, f.mtime >= W.builder_t]))


def concurrent(H):
    """two actors at once"""
    p = H.params
    world(H, switches=p.get("switches", 2), max_fail=p.get("fails", 0), kills=p.get("kills", False))
    ma = load(H, "qugar_shim_a")
    mb = ma if p["threads"] else load(H, "qugar_shim_b")
    a, b = Actor("a", ma.ensure_built, 0), Actor("b", mb.ensure_built, 0 if p["threads"] else 1)
    needed = not fresh_lib(H)
    schedule([a, b])
    for x in (a, b):
        ok = x.err is None or (W.failed and isinstance(x.err, REAL["subprocess"]))
        H.check(x.dead or bool(ok), "a build ends with the library unless the compiler fails")
    if not W.failed and not a.dead and not b.dead:
        H.check(W.runs == (1 if needed else 0), "the library is built once if needed, and not at all otherwise")
        H.reach("built" if needed else "cached")
    W.switch = []
    H.reach("end")


def after(H):
    """a build that is killed or whose compiler fails, then another process"""
    world(H, kills=H.params["kills"], switches=0, max_fail=0 if H.params["kills"] else 1)
    a = Actor("a", load(H, "qugar_shim_a").ensure_built, 0)
    schedule([a])
    if a.err is not None:
        H.check(isinstance(a.err, REAL["subprocess"]) and W.failed > 0, "the failure of the compiler is the only error")
    H.check(not (W.failed and a.err is None and not a.dead), "the failure of the compiler is reported")
    W.victim, W.max_fail = None, 0
    b = Actor("b", load(H, "qugar_shim_b").ensure_built, 1)
    schedule([b])
    H.check(b.err is None and b.done and not b.dead, "a later build succeeds")
    # and once it is there it is used as it is
    n = W.runs
    c = Actor("c", load(H, "qugar_shim_c").ensure_built, 2)
    schedule([c])
    H.check(c.err is None and W.runs == n, "what is built is used afterwards")
    # until a source changes
    W.src_t = W.files[W.lib].mtime + H.real("change", 1)
    W.now = W.now + (W.src_t - W.files[W.lib].mtime)
    W.given = False
    d = Actor("d", load(H, "qugar_shim_d").ensure_built, 3)
    schedule([d])
    H.check(d.err is None and W.runs == n + 1, "a change of the source makes it built again")
    H.reach("end")


def compilers(H):
    """which compiler is used"""
    world(H, switches=0)
    for f in list(W.files):
        del W.files[f]
    cxx = H.choice("cxx", 0, 3)  # unset, path, name found, name not found
    inbin = {n for n in ("clang++", "g++", "c++", "clang++-18", "x86_64-conda-linux-gnu-c++") if H.flag("bin_" + n)}
    path = {n for n in ("clang++", "g++", "c++") if H.flag("path_" + n)}
    m = load(H, "qugar_shim_a")
    real_prefix = sys.prefix
    for n in inbin:
        W.files[f"{real_prefix}/bin/{n}"] = File("other", 0)
    W.files["/opt/mycxx"] = File("other", 0)
    m.os.environ.pop("CXX", None)
    if cxx:
        m.os.environ["CXX"] = (None, "/opt/mycxx", "mycxx", "nothere")[cxx]
    W.which = lambda n: "/usr/bin/" + n if n in path or n == "mycxx" else None
    try:
        r = str(m._find_cxx())
    except FileNotFoundError:
        r = None
    if cxx in (1, 2):
        H.check(r == (None, "/opt/mycxx", "/usr/bin/mycxx")[cxx], "the compiler asked for is used")
        H.reach("asked")
    elif inbin:
        H.check(r in {f"{real_prefix}/bin/{n}" for n in inbin}, "a compiler of the environment is used if there is one")
        H.reach("environment")
    elif path:
        H.check(r in {"/usr/bin/" + n for n in path}, "a compiler of the system is used otherwise")
        H.reach("system")
    else:
        H.check(r is None, "an error tells that there is no compiler")
        H.reach("none")
    W.env.pop("QUGAR_SHIM_CACHE", None)
    m.os.environ.pop("QUGAR_SHIM_CACHE", None)
    H.check(str(m._cache_dir()).startswith("/home/u/"), "the cache is in the home directory by default")
    m.os.environ["QUGAR_SHIM_CACHE"] = "/some/where"
    H.check(str(m._cache_dir()) == "/some/where", "the cache is where asked")
