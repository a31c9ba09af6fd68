"""just-in-time compilation of forms: what is compiled, what is returned and what is left when something fails at any point

FFCx's analysis, representation and formatting, cffi's compiler and the loading of modules are stand-ins that record what they get and can fail; files are in a scratch folder."""
import contextlib
import io
import logging
import os
import shutil
import sys
import sysconfig
import tempfile
from pathlib import Path
from types import SimpleNamespace

import cffi
import dolfinx.jit
import ffcx
import ffcx.analysis
import ffcx.codegeneration
import ffcx.codegeneration.C.file_template
import ffcx.codegeneration.jit
import ffcx.formatting
import ffcx.ir.representation
import ffcx.naming
import ffcx.options
import ufl

W = SimpleNamespace()
REAL_MKDTEMP, REAL_VAR, REAL_VARS = tempfile.mkdtemp, sysconfig.get_config_var, sysconfig.get_config_vars


class Broken(Exception):
    pass


def point(what):
    """a call that may fail"""
    W.n += 1
    W.log.append(what)
    if W.may_fail and bool(W.fail == W.n):
        W.failed = what
        raise Broken(what)


class Form:
    def __init__(self, i):
        self.i = i


class FFI:
    def __init__(self):
        W.ffi.append(self)
        self.source = self.decl = None

    def set_source(self, name, code, **kw):
        point("set_source")
        self.name, self.code, self.kw = name, code, kw

    def cdef(self, decl, **k):
        point("cdef")
        self.decl = decl

    def compile(self, tmpdir=".", verbose=0, debug=None, **k):
        H = W.H
        W.builds += 1
        H.check(Path(tmpdir).is_dir() and str(tmpdir) == str(W.dir()), "the module is compiled in the cache's folder")
        H.check(not (Path(tmpdir) / (self.name + ".c.cached")).exists(), "the module is not announced as ready before it is compiled")
        H.check(bool(debug) == W.debug, "debugging is as asked for")
        W.ld = os.environ.get("LDSHARED")
        (Path(tmpdir) / (self.name + ".c")).write_text(self.code)
        print("output of the compiler")
        logging.getLogger().warning("log of the compiler")
        point("compile")
        (Path(tmpdir) / (self.name + ".so")).write_text(self.name)


def get_cached_module(name, object_names, cache_dir, timeout):
    """FFCx's protocol: whoever creates the C file compiles; the others wait until it is ready"""
    cache_dir = Path(cache_dir)
    c = cache_dir / (name + ".c")
    cache_dir.mkdir(exist_ok=True, parents=True)
    try:
        open(c, "x").close()
        return None, None
    except FileExistsError:
        if (cache_dir / (name + ".c.cached")).exists():
            return load(cache_dir, name, object_names)
        raise TimeoutError("JIT compilation timed out") from None


def load(cache_dir, name, object_names):
    if not W.cached:
        point("load")
    W.H.check((Path(cache_dir) / (name + ".so")).exists(), "what is loaded has been compiled")
    return [("object", n) for n in object_names], ("module", name)


def setup(H):
    W.H, W.n, W.log, W.ffi, W.builds, W.failed, W.ld, W.cached = H, 0, [], [], 0, None, None, False
    W.may_fail, W.fail, W.debug = False, 0, False
    ufl.Form = Form
    ufl.core.expr.Expr = type("Expr", (), {})
    cffi.FFI = FFI
    ffcx.codegeneration.get_include_path = lambda: "/ffcx/include"
    ffcx.codegeneration.C.file_template.libraries = W.libs = ["m"]
    J = ffcx.codegeneration.jit
    J.UFC_FORM_DECL, J.UFC_HEADER_DECL, J.UFC_INTEGRAL_DECL = "FORMS;", "HEADER {};", "INTEGRALS;"
    J._compilation_signature = lambda args, debug: f"<{args}|{debug}>"
    J._compute_option_signature = lambda o: str(sorted((k, str(v)) for k, v in o.items()))
    J._load_objects, J.get_cached_module = load, get_cached_module
    J.root_logger = logging.getLogger()
    J.logger = logging.getLogger("ffcx")
    ffcx.naming.compute_signature = lambda forms, tag: f"{abs(hash((tuple(f.i for f in forms), tag)))}"
    ffcx.naming.form_name = lambda f, i, prefix: f"form_{prefix}_{f.i}_{i}"
    ffcx.options.get_options = lambda o=None: {"scalar_type": "float64", "sum_factorization": False, **(o or {})}

    def analyze(objs, scalar):
        point("analysis")
        return ("analysis", [f.i for f in objs], scalar)

    def ir(analysis, names, prefix, options, visualise):
        point("representation")
        return ("ir", analysis, dict(names), prefix, options, visualise)

    def fmt(code):
        point("format")
        return "h:" + str(code), "c:" + str(code)
    ffcx.analysis.analyze_ufl_objects, ffcx.ir.representation.compute_ir, ffcx.formatting.format_code = analyze, ir, fmt
    dolfinx.jit.get_options = lambda o=None: {**W.jit_options, **(o or {})}
    dolfinx.jit.mpi_jit_decorator = lambda f: f
    gen = type(sys)("qugar.dolfinx.codegeneration")

    def generate(analysis, ir_, options):
        point("generation")
        return ("code", analysis, ir_[1:4]), [("itg", i, ir_[3]) for i in analysis[1]]
    gen.generate_code = generate
    sys.modules["qugar.dolfinx.codegeneration"] = gen
    import qugar.dolfinx
    qugar.dolfinx.codegeneration = gen
    sys.modules["qugar.dolfinx.integral_data"] = idm = type(sys)("qugar.dolfinx.integral_data")
    idm.IntegralData = object
    sm = type(sys)("qugar.dolfinx._shim")
    sm.ensure_built, sm.LIB_NAME = shim, "qugar_basix_shim"
    sys.modules["qugar.dolfinx._shim"] = qugar.dolfinx._shim = sm
    H.fresh_names = [n for n in ("qugar.dolfinx.jit", "qugar.dolfinx.compiler") if n in sys.modules]
    for n in H.fresh_names:
        del sys.modules[n]
    m = H.mod("qugar.dolfinx.jit")
    W.jit_options = {}
    return m


def shim():
    point("shim")
    return Path("/cache/shim"), "qugar_basix_shim"


def tokens(H, n):
    alphabet = ["gcc", "-shared", "-Wl,-rpath,/p/lib", "-L/p/lib", "-arch", "arm64", "-L"]
    return [alphabet[H.choice(f"token{i}", 0, len(alphabet) - 1)] for i in range(n)]


def equivalent(given, got):
    """the same flags, but for repeats of search and run-time paths"""
    path = lambda t: t.startswith(("-L/", "-Wl,-rpath,"))  # noqa: E731
    first = list(dict.fromkeys(t for t in given if path(t)))
    kept, i = [], 0
    for t in got:
        kept.append(t)
    del i
    others = [t for t in given if not path(t)] == [t for t in kept if not path(t)]
    return others and list(dict.fromkeys(t for t in kept if path(t))) == first


class Place:
    """the process's state before and after"""
    def __enter__(self):
        self.root = logging.getLogger()
        self.old = list(self.root.handlers)
        self.ld = os.environ.get("LDSHARED")
        self.scratch = tempfile.mkdtemp(prefix="vjit")
        self.tmp = tempfile.tempdir
        tempfile.tempdir = self.scratch
        W.sysconf, W.mkdtemp = lambda: None, REAL_MKDTEMP
        sysconfig.get_config_var = lambda k: W.sysconf() if k == "LDSHARED" else REAL_VAR(k)
        sysconfig.get_config_vars = lambda *a: [sysconfig.get_config_var(k) for k in a] if a else dict(REAL_VARS(), LDSHARED=W.sysconf())
        tempfile.mkdtemp = lambda *a, **k: W.mkdtemp(*a, **k)
        return self

    def __exit__(self, *a):
        tempfile.tempdir = self.tmp
        tempfile.mkdtemp, sysconfig.get_config_var, sysconfig.get_config_vars = REAL_MKDTEMP, REAL_VAR, REAL_VARS
        self.root.handlers = self.old
        os.environ.pop("LDSHARED", None)
        if self.ld is not None:
            os.environ["LDSHARED"] = self.ld
        shutil.rmtree(self.scratch, ignore_errors=True)


def compile_(H):
    """one compilation that may fail at any point, and the next one"""
    with Place() as p:
        m = setup(H)
        given = H.flag("cache_given")
        n_forms = H.params["forms"]
        forms = [Form(7 - i) for i in range(n_forms)]
        cache = Path(p.scratch) / "sub" / "cache"
        made = []
        W.mkdtemp = lambda *a, **k: made.append(REAL_MKDTEMP()) or made[-1]
        W.dir = lambda: cache if given else made[-1]
        env = H.flag("ldshared_set")
        os.environ.pop("LDSHARED", None)
        if env:
            os.environ["LDSHARED"] = "mylinker -shared"
        raw = (None, "", "gcc -shared -L/p/lib -Wl,-rpath,/p/lib -L/p/lib -Wl,-rpath,/p/lib")[H.choice("sysconfig", 0, 2)]
        W.sysconf = lambda: raw
        handler = logging.NullHandler()
        p.root.handlers = [handler] if H.flag("handler") else []
        before = list(p.root.handlers)
        libs = ["mylib"] if H.flag("libraries") else None
        W.debug = H.flag("debug")
        verbose = H.flag("verbose") if n_forms == 1 else False
        args = ["-O2"]
        options = {"scalar_type": "float32"}
        kw = dict(options=options, cache_dir=cache if given else None, cffi_extra_compile_args=args, cffi_debug=W.debug, cffi_verbose=verbose)
        if libs is not None:
            kw["cffi_libraries"] = libs
        W.may_fail, W.fail = True, H.int("fail", 1, 20)
        out, stdout, err = io.StringIO(), sys.stdout, None
        with contextlib.redirect_stdout(out):
            mine = sys.stdout
            try:
                r = m.compile_forms(forms, **kw)
            except Broken as e:
                err = e
            H.check(sys.stdout is mine, "the standard output is the one of before")
        W.may_fail = False
        H.check((err is not None) == (W.failed is not None) and (err is None or str(err) == W.failed), "what fails is raised")
        H.check(p.root.handlers == before, "the handlers of the root logger are the ones of before")
        H.check(os.environ.get("LDSHARED") == ("mylinker -shared" if env else None), "the environment is the one of before")
        H.check(options == {"scalar_type": "float32"} and args == ["-O2"] and libs in (None, ["mylib"]) and W.libs == ["m"], "what the user gives is not modified")
        if W.builds:
            if env:
                H.check(W.ld == "mylinker -shared", "the linker asked for is used")
            elif raw:
                H.check(W.ld is not None and equivalent(raw.split(), W.ld.split()), "the linker of Python is used with its flags")
            else:
                H.check(W.ld is None, "nothing is invented if there is no linker")
        if err is not None:
            H.reach("failed")
            # again
            n = W.builds
            r = m.compile_forms(forms, **kw)
            H.check(W.builds == n + 1 or (W.failed == "load" and given), "a failed compilation is done again")
        else:
            H.reach("compiled")
            H.check(("output of the compiler" in out.getvalue()) == verbose, "the output of the compiler is shown only if asked for")
        result(H, forms, r, args, libs)
        if given:
            W.cached = True
            n = W.builds
            r2 = m.compile_forms(forms, **kw)
            H.check(W.builds == n, "what is in the cache is not compiled again")
            H.check(r2[0] == r[0] and r2[1] == r[1] and r2[3] == r[3], "what is taken from the cache is the same")
            H.reach("cached")
        del stdout


def result(H, forms, r, args, libs):
    obj, mod, code, itg = r
    f = W.ffi[-1]
    H.check(mod == ("module", f.name) and [o[1] for o in obj] == [f"form_{f.name}_{g.i}_{i}" for i, g in enumerate(forms)], "the objects of the forms are returned in their order")
    H.check(itg == [("itg", g.i, f.name) for g in forms], "the data of the integrals are those of the forms")
    H.check(all(f"extern ufcx_form form_{f.name}_{g.i}_{i};" in f.decl for i, g in enumerate(forms)) and "HEADER float32;" in f.decl, "the forms are declared for their scalar type")
    H.check(f.code.startswith("c:('code'") and str([g.i for g in forms]) in f.code, "the code generated for the forms is compiled")
    H.check(code[1] == f.code, "the code compiled is returned")
    kw = f.kw
    H.check(sorted(kw["libraries"]) == sorted(["m", "qugar_basix_shim"] + (libs or [])) and "/cache/shim" in [str(d) for d in kw["library_dirs"]]
            and any("-rpath,/cache/shim" in str(a) for a in kw["extra_link_args"]) and "/ffcx/include" in kw["include_dirs"], "kernels are linked with the shim and the libraries asked for")
    H.check(all(a in kw["extra_compile_args"] for a in args), "the arguments asked for are given to the compiler")


def names(H):
    """the modules' names tell everything that matters apart"""
    with Place() as p:
        m = setup(H)
        W.sysconf = lambda: None
        W.dir = lambda: p.scratch
        seen = {}
        forms = {"a": [Form(1)], "b": [Form(2)], "ab": [Form(1), Form(2)]}
        names_ = []
        for j in range(2):
            key = (("a", "b", "ab")[H.choice(f"form{j}", 0, 2)], H.flag(f"debug{j}"), H.flag(f"args{j}"), H.flag(f"type{j}"))
            W.debug = key[1]
            m.compile_forms(forms[key[0]], options={"scalar_type": "float32" if key[3] else "float64"}, cache_dir=Path(p.scratch), cffi_debug=key[1], cffi_extra_compile_args=["-g"] if key[2] else [])
            names_.append((key, W.ffi[-1].name if key not in seen else seen[key]))
            seen.setdefault(key, W.ffi[-1].name)
            plain = ffcx.naming.compute_signature(forms[key[0]], ffcx.codegeneration.jit._compute_option_signature(ffcx.options.get_options({"scalar_type": "float32" if key[3] else "float64"}))
                                                  + ffcx.codegeneration.jit._compilation_signature(["-g"] if key[2] else [], key[1]))
            H.check(plain not in seen[key], "a custom module has another name than FFCx's")
        (k0, n0), (k1, n1) = names_
        H.check((k0 == k1) == (n0 == n1), "two modules have the same name exactly if forms, options and arguments are the same")
        H.reach("same" if k0 == k1 else "other")


def flags(H):
    """any list of flags for the linker"""
    with Place():
        m = setup(H)
        raw = tokens(H, H.params["n"])
        W.sysconf = lambda: " ".join(raw)
        env = H.flag("set")
        os.environ.pop("LDSHARED", None)
        if env:
            os.environ["LDSHARED"] = "mylinker"
        fails = H.flag("fails")
        try:
            with m._deduped_ldshared():
                ld = os.environ["LDSHARED"].split()
                if fails:
                    raise Broken()
        except Broken:
            pass
        if not env:
            H.check(equivalent(raw, ld), "the linker of Python is used with its flags")
        H.check(os.environ.get("LDSHARED") == ("mylinker" if env else None), "the environment is the one of before")
        H.reach("end")


def options(H):
    """the entry point: options and kinds of objects"""
    with Place() as p:
        m = setup(H)
        W.sysconf = lambda: None
        W.dir = lambda: p.scratch
        W.jit_options = {"cffi_extra_compile_args": ["-O3"], "cache_dir": p.scratch, "timeout": 3, "cffi_debug": False, "cffi_verbose": False, "cffi_libraries": []}
        if H.flag("not_a_form"):
            H.check(isinstance(H.raises(lambda: m.ffcx_jit(object()))[0], ValueError), "only forms are compiled")
            H.reach("other")
            return
        own = H.flag("own")
        f = Form(4)
        itg, obj, mod, code = m.ffcx_jit(f, form_compiler_options={"scalar_type": "float32"}, jit_options={"cffi_extra_compile_args": ["-g"]} if own else None)
        W.H.check(itg == [("itg", 4, W.ffi[-1].name)] and obj[1] == f"form_{W.ffi[-1].name}_4_0" and mod == ("module", W.ffi[-1].name) and code[1] == W.ffi[-1].code, "the integrals' data, the form, the module and the code are returned")
        W.H.check(("-g" if own else "-O3") in W.ffi[-1].kw["extra_compile_args"] and "HEADER float32" in W.ffi[-1].decl, "the options given prevail over the default ones")
        H.reach("form")
