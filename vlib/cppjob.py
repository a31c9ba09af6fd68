"""C++ jobs: compile the real sources and a harness to LLVM IR, run the symbolic executor,
replay every counterexample and every reachability witness on a native build."""
import hashlib
import json
import os
import re
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / "build"
CACHE = BUILD / "cache"
LLVM = Path("/usr/lib/llvm-18/bin")
CPP = REPO / "cpp"
PY = os.environ.get("QUGAR_PY", "/opt/qugar-venv/bin/python")
# Repository sources that are encoded.  Sources whose whole content drives algoim's own
# algorithms (reparameterisation) are left out of the library: C15 includes it, with the roots it needs; see DESIGN.md.
EXCLUDED = {"impl_reparam_bezier.cpp", "impl_reparam_general.cpp"}
INC = ["-I" + str(VERIF / "cpp"), "-I" + str(VERIF / "standin"), "-I" + str(CPP / "include"), "-I" + str(CPP / "qugar")]
IRFLAGS = ["-std=gnu++20", "-O1", "-fno-pic", "-fno-pie", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize",
           "-ffp-contract=off", "-fno-math-errno", "-w"] + INC
NATFLAGS = ["-std=gnu++20", "-O1", "-gline-tables-only", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
            "-ffp-contract=off", "-w", "-c"] + INC


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run([str(c) for c in cmd], capture_output=True, text=True, timeout=timeout, **kw)


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(str(p) for p in paths):
        h.update(p.encode())
        h.update(Path(p).read_bytes())
    return h.hexdigest()[:24]


def header_files():
    r = []
    for d in (CPP / "include", VERIF / "standin", VERIF / "cpp"):
        r += [p for p in d.rglob("*") if p.is_file() and p.suffix in (".hpp", ".h")]
    r += list((CPP / "qugar").glob("*.hpp"))
    return r


def ensure_engine():
    sxe = BUILD / "sxe"
    src = [VERIF / "engine" / "sxe.cpp", VERIF / "engine" / "Makefile"]
    key = file_hash(src)
    stamp = BUILD / "sxe.key"
    if sxe.exists() and stamp.exists() and stamp.read_text() == key:
        return sxe
    BUILD.mkdir(exist_ok=True)
    r = sh(["make", "-B", "-C", VERIF / "engine", "OUT=" + str(BUILD)], timeout=900)
    if r.returncode != 0 or not sxe.exists():
        raise BuildError("engine: " + r.stderr[-2000:])
    stamp.write_text(key)
    return sxe


def compile_one(src, out, flags):
    tmp = Path(str(out) + ".tmp%d_%d" % (os.getpid(), random.getrandbits(30)))
    r = sh(["clang++"] + flags + [src, "-o", tmp])
    if r.returncode != 0:
        return r.stderr[-3000:]
    tmp.rename(out)
    return None


_hdr = None


def build_lib(kind, pool):
    """Compiles every encoded repository source; kind 'ir' or 'nat'.  Returns (files, errors)."""
    global _hdr
    if _hdr is None:
        _hdr = file_hash(header_files())
    CACHE.mkdir(parents=True, exist_ok=True)
    flags = IRFLAGS if kind == "ir" else NATFLAGS
    files, errs, futs = [], {}, []
    for s in sorted((CPP / "qugar").glob("*.cpp")):
        if s.name in EXCLUDED:
            continue
        key = file_hash([s], _hdr + " ".join(flags))
        out = CACHE / f"{s.stem}-{key}.{'bc' if kind == 'ir' else 'o'}"
        files.append(out)
        if not out.exists():
            futs.append((s, out, pool.submit(compile_one, s, out, flags)))
    for s, out, f in futs:
        e = f.result()
        if e:
            errs[s.name] = e
            files.remove(out)
    return files, errs


FILES = {}


def build_irlib(pool):
    files, errs = build_lib("ir", pool)
    FILES["ir"] = files
    extra = VERIF / "cpp" / "libsupport.cpp"
    if extra.exists():
        key = file_hash([extra], " ".join(IRFLAGS))
        out = CACHE / f"libsupport-{key}.bc"
        if not out.exists():
            e = compile_one(extra, out, IRFLAGS)
            if e:
                raise BuildError("libsupport: " + e)
        files.append(out)
    key = hashlib.sha256(" ".join(str(f) for f in files).encode()).hexdigest()[:24]
    lib = CACHE / f"lib-{key}.bc"
    if not lib.exists():
        tmp = CACHE / f"lib-{key}.tmp{os.getpid()}"
        r = sh([LLVM / "llvm-link"] + files + ["-o", tmp])
        if r.returncode:
            raise BuildError("llvm-link: " + r.stderr[-2000:])
        tmp.rename(lib)
    return lib, errs


def build_natlib(pool):
    files, errs = build_lib("nat", pool)
    FILES["nat"] = files
    rt = VERIF / "cpp" / "sx_native.cpp"
    key = file_hash([rt], _hdr + " ".join(NATFLAGS))
    o = CACHE / f"sx_native-{key}.o"
    if not o.exists():
        e = compile_one(rt, o, NATFLAGS)
        if e:
            raise BuildError("sx_native: " + e)
    key = hashlib.sha256(" ".join(str(f) for f in files).encode()).hexdigest()[:24]
    a = CACHE / f"libnat-{key}.a"
    if not a.exists():
        tmp = CACHE / f"libnat-{key}.tmp{os.getpid()}.a"
        sh(["ar", "rcs", tmp] + files)
        tmp.rename(a)
    return o, a, errs


def defs_of(job):
    """definitions and further include directories (of /repo or of this folder)"""
    inc = [f"-I{REPO / d[6:] if d.startswith('/repo/') else VERIF / d}" for d in job.get("inc", [])]
    return inc + ["-D%s=%s" % kv for kv in sorted(job.get("defs", {}).items())]


class CppJob:
    def __init__(self, prop, job, work):
        self.prop, self.job = prop, job
        self.name = job["name"]
        self.dir = work / self.name
        self.dir.mkdir(parents=True, exist_ok=True)
        self.src = VERIF / "cpp" / job["src"]
        self.gap = None

    def libs(self, kind, all_):
        """what the harness is linked with: everything, but the sources it includes itself"""
        own = self.job.get("replaces")
        if not own:
            return all_
        return [f for f in FILES[kind] if f.name.rsplit("-", 1)[0] not in own]

    # -- building
    def generate(self):
        """runs the job's generator: /repo's Python code emits sources that the harness includes"""
        self.gen_error = None
        g = self.job.get("gen")
        if not g:
            return
        self.gen_cmd = [PY, "-B", str(VERIF / g[0])] + [str(x) for x in g[1:]] + [str(self.dir)]
        r = sh(self.gen_cmd, timeout=120)
        if r.returncode == 7:
            self.gen_error = "the code generation fails: " + r.stderr.strip().splitlines()[-1]
        elif r.returncode:
            raise BuildError(f"{self.name}: generator: " + r.stderr[-2500:])
        else:
            r = sh(["clang"] + ["-std=c17", "-fsyntax-only", "-w", self.dir / "generated.c"])
            if r.returncode:
                self.gen_error = "the generated code does not compile: " + r.stderr.strip()[:400]

    def build(self, lib, nat):
        self.generate()
        if self.gen_error:
            return
        d = defs_of(self.job) + ["-I" + str(self.dir)]
        bc = self.dir / "h.bc"
        r = sh(["clang++"] + IRFLAGS + d + [self.src, "-o", bc])
        if r.returncode and self.job.get("soft"):
            # the source that the harness includes uses something the stand-ins do not have
            self.gap = "not encoded: " + next((x for x in r.stderr.splitlines() if "error:" in x), "")[:300]
            return
        if r.returncode:
            raise BuildError(f"{self.name}: error: " + r.stderr[:2500])
        full = self.dir / "full.bc"
        r = sh([LLVM / "llvm-link", bc] + self.libs("ir", [lib]) + ["-o", self.dir / "linked.bc"])
        if r.returncode:
            raise BuildError(f"{self.name}: link: " + r.stderr[-2500:])
        r = sh([LLVM / "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=sx_main", self.dir / "linked.bc", "-o", full])
        if r.returncode:
            raise BuildError(f"{self.name}: opt: " + r.stderr[-2500:])
        (self.dir / "linked.bc").unlink()
        self.bc = full
        self.native = None
        self.nat = nat

    def build_native(self):
        if self.native:
            return self.native
        rt, ar, _ = self.nat()
        o = self.dir / "h.o"
        r = sh(["clang++"] + NATFLAGS + defs_of(self.job) + ["-I" + str(self.dir), self.src, "-o", o])
        if r.returncode:
            raise BuildError(f"{self.name}: native: " + r.stderr[-2500:])
        exe = self.dir / "replay"
        link = ["clang++", "-fsanitize=address,undefined", "-Wl,--no-demangle", o, rt] + self.libs("nat", [ar])
        r = sh(link + ["-o", exe])
        missing = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr))) if r.returncode else []
        if missing:
            # functions of the sources that are left out: never called
            stubs = self.dir / "missing.s"
            stubs.write_text('.section .note.GNU-stack,"",@progbits\n.text\n' + "".join(f".weak {m}\n{m}:\n  ud2\n" for m in missing))
            r = sh(link + [stubs, "-o", exe])
        if r.returncode:
            raise BuildError(f"{self.name}: native link: " + r.stderr[-2500:])
        self.native = exe
        return exe

    # -- symbolic execution
    def execute(self, sxe, tier):
        t = self.job.get("time_t" if tier == "thorough" else "time_q", 120 if tier == "quick" else 600)
        ms = self.job.get("solver_ms", 20000)
        if tier == "thorough":
            ms *= 4
        if self.gap:
            return dict(paths=0, forks=0, queries=0, steps=0, solver_s=0, failures=[], reached={}, incomplete={self.gap: 1}, asserts={}, functions=[])
        if self.gen_error:
            return dict(paths=1, forks=0, queries=0, steps=0, solver_s=0, reached={}, incomplete={}, asserts={}, functions=[],
                        failures=[dict(kind="generation", msg=self.gen_error, model={}, where="")])
        out = self.dir / "out.json"
        try:
            r = sh([sxe, self.bc, "--out", out, "--time", t, "--solver-ms", ms, "--max-fails", self.job.get("max_fails", 8)],
                   timeout=t * 1.3 + ms / 1000 * 5 + 30)
        except subprocess.TimeoutExpired:
            return dict(paths=0, forks=0, queries=0, steps=0, solver_s=0, failures=[], reached={}, incomplete={"executor timed out": 1},
                        asserts={}, functions=[])
        if not out.exists():
            raise BuildError(f"{self.name}: engine died rc={r.returncode}: " + r.stderr[-1500:])
        return json.loads(out.read_text())

    # -- replay
    def run_native(self, model_file, *args):
        exe = self.build_native()
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=0"
        try:
            r = subprocess.run([str(exe), str(model_file)] + [str(a) for a in args], capture_output=True, text=True, timeout=60, env=env,
                               errors="replace", cwd=str(self.dir))
        except subprocess.TimeoutExpired:
            return -1, "TIMEOUT"
        return r.returncode, r.stdout + r.stderr

    def write_model(self, model, fn):
        p = self.dir / fn
        p.write_text("".join(f"{k}={v}\n" for k, v in model.items() if not k.startswith("__")))
        return p

    def replay(self, fail, idx):
        """Does the counterexample reproduce on the native build?  Returns (bool, text, replay path)."""
        if fail["kind"] == "generation":
            dst = BUILD / "replay" / self.prop / f"{self.name}-{idx}"
            dst.mkdir(parents=True, exist_ok=True)
            (dst / "output.txt").write_text(fail["msg"])
            cmd = " ".join(self.gen_cmd[:-1])
            (dst / "run.sh").write_text(f"#!/bin/sh\nd=$(mktemp -d) && {cmd} $d && clang -std=c17 -fsyntax-only -w $d/generated.c\n")
            os.chmod(dst / "run.sh", 0o755)
            return True, fail["msg"], dst
        p = self.write_model(fail["model"], f"cex{idx}.txt")
        tries = [()]
        for scale in (0.001, 0.2, 0.9, 2.0, 5.0):
            tries += [(s, scale) for s in range(1, 13)]
        for a in tries:
            rc, out = self.run_native(p, *a)
            if rc in (0, 3):
                continue
            if rc == -1 and fail["kind"] != "nontermination":
                continue
            dst = BUILD / "replay" / self.prop / f"{self.name}-{idx}"
            dst.mkdir(parents=True, exist_ok=True)
            shutil.copy(p, dst / "model.txt")
            shutil.copy(self.native, dst / "replay")
            (dst / "output.txt").write_text(out)
            (dst / "run.sh").write_text("#!/bin/sh\ncd \"$(dirname \"$0\")\" && exec ./replay model.txt " + " ".join(map(str, a)) + "\n")
            os.chmod(dst / "run.sh", 0o755)
            (dst / "failure.json").write_text(json.dumps(fail, indent=1))
            return True, out.strip()[:600], dst
        return False, "", None

    def witnesses(self, res):
        """Runs each reachability witness natively.  Returns (validated, problems)."""
        ok, bad = 0, []
        for i, (name, model) in enumerate(res.get("reached", {}).items()):
            p = self.write_model(model, f"reach{i}.txt")
            rc, out = self.run_native(p)
            if rc == 0 and f"REACHED: {name}" in out:
                ok += 1
            else:
                bad.append(f"{self.name}/{name}: rc={rc} {out.strip()[:200]}")
        return ok, bad
