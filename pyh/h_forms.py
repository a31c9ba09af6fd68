"""forms over unfitted domains: subdomains of the integrals, data given to DOLFINx, and the forms given by the user"""
import builtins
from types import SimpleNamespace

import dolfinx
import dolfinx.fem
import dolfinx.fem.forms as dff
import ufl
from dolfinx import cpp as dcpp

TYPES = ("cell", "exterior_facet", "interior_facet")


class Key(SimpleNamespace):
    def __hash__(self):
        return id(self)


IT = {n: Key(name=n) for n in TYPES}
ALL = "all facets"


class Frozen(dict):
    """metadata of the measures without metadata: as in UFL, it cannot be modified"""
    def __setitem__(self, k, v):
        raise ValueError("frozen dictionary")

    def update(self, *a, **k):
        raise ValueError("frozen dictionary")

    setdefault = __setitem__


class Integrand:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Integral:
    """follows ufl.Integral"""
    def __init__(self, integrand, integral_type, domain, subdomain_id, metadata, subdomain_data):
        assert isinstance(metadata, dict)
        self._integrand, self._integral_type, self._ufl_domain = integrand, integral_type, domain
        self._subdomain_id, self._metadata, self._subdomain_data = subdomain_id, metadata, subdomain_data

    def reconstruct(self, integrand=None, integral_type=None, domain=None, subdomain_id=None, metadata=None, subdomain_data=None):
        return Integral(self._integrand if integrand is None else integrand, self._integral_type if integral_type is None else integral_type,
                        self._ufl_domain if domain is None else domain, self._subdomain_id if subdomain_id is None else subdomain_id,
                        self._metadata if metadata is None else metadata, self._subdomain_data if subdomain_data is None else subdomain_data)

    def integrand(self):
        return self._integrand

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._ufl_domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data


class Form:
    """follows ufl.Form (the integrals are given in the order UFL sorts them in)"""
    extra = None

    def __init__(self, integrals):
        self._integrals = tuple(integrals)
        self._subdomain_data = None
        self.x = Form.extra

    def integrals(self):
        return self._integrals

    def integrals_by_type(self, t):
        return tuple(i for i in self._integrals if i.integral_type() == t)

    def empty(self):
        return len(self._integrals) == 0

    def ufl_domain(self):
        return self.x.domain

    def ufl_domains(self):
        return (self.x.domain,)

    def subdomain_data(self):
        if self._subdomain_data is None:
            d = {}
            for i in self._integrals:
                d.setdefault(i.integral_type(), []).append(i.subdomain_data())
            self._subdomain_data = {self.x.domain: d}
        return self._subdomain_data

    def arguments(self):
        return self.x.arguments

    def coefficients(self):
        return self.x.coefficients

    def constants(self):
        return self.x.constants


ufl.Form = Form
ufl.form.Form = Form
ufl.Integral = Integral


class DForm:
    """stands for dolfinx.fem.forms.Form"""
    def __init__(self, form, ufcx_form=None, code=None, module=None):
        self._cpp_object, self._ufcx_form, self._code, self._module = form, ufcx_form, code, module


dff.Form = DForm
dff._ufl_to_dolfinx_domain = dict(IT)
dolfinx.fem.IntegralType = SimpleNamespace(**IT)
dolfinx.default_scalar_type = float


class Packer:
    def __init__(self, form, domain, itg_data):
        self.form, self.domain, self.itg_data = form, domain, itg_data


def integration_domains(itype, data, ids):
    if data is None:
        return []
    return [(k, (data, itype, k)) for k in ids]


def obj(name):
    return SimpleNamespace(_cpp_object=name)


def world(H, m, fails=None):
    """stand-ins of DOLFINx, UFL and the JIT compiler for module m; what the compiler was given is recorded in `seen`"""
    if H.sym:
        import psx
        m.isinstance = lambda x, t: builtins.isinstance(x, t) or (builtins.isinstance(x, psx.SInt) and (t in (builtins.int, m.__dict__.get("int")) or (builtins.isinstance(t, tuple) and m.__dict__.get("int", builtins.int) in t)))
    class Dom(m.UnfittedDomainABC):
        def get_all_facets(self, ext_integral=True):
            assert ext_integral is True
            return SimpleNamespace(as_array=lambda: (ALL,))

        def __getattr__(self, n):
            raise AssertionError(n)
    Dom.__abstractmethods__ = frozenset()
    unf = Dom.__new__(Dom)
    msh = SimpleNamespace(comm="comm")
    x = SimpleNamespace(unf=unf, msh=msh, seen=[], given=[])
    x.domain = Key(unf_domain=unf, ufl_cargo=lambda: msh)
    x.arguments = tuple(SimpleNamespace(ufl_function_space=lambda k=k: obj(f"V{k}")) for k in range(2))
    x.coefficients = tuple(obj(f"c{k}") for k in range(3))
    x.constants = tuple(obj(f"k{k}") for k in range(2))
    x.positions = [H.choice(f"pos{k}", 0, 2) for k in range(x.ncoeffs)] if hasattr(x, "ncoeffs") else [2, 0]
    Form.extra = x
    m.CustomCoeffsPacker = Packer
    m.get_integration_domains = integration_domains

    def jit(comm, form, form_compiler_options=None, jit_options=None):
        x.seen.append([(i.integrand(), i.integral_type(), i.subdomain_id(), dict(i.metadata()), i.subdomain_data()) for i in form.integrals()])
        x.jit = (comm, form_compiler_options, jit_options)
        if fails is not None and len(x.seen) == fails:
            raise RuntimeError("compilation failed")
        u = SimpleNamespace(num_coefficients=len(x.positions), original_coefficient_positions=x.positions)
        module = SimpleNamespace(ffi=SimpleNamespace(cast=lambda t, a: (t, a), addressof=lambda u: ("addr", u)))
        return ["itg", len(x.seen)], u, module, ("decl", "impl")
    m.ffcx_jit = jit

    def ftype(*a):
        x.given.append(a)
        return ("form", len(x.given))
    m.form_cpp_class = lambda dtype: ftype
    return x


def make(H, x, types, kinds, shared):
    """the integrals of a form, with symbolic identifiers; returns them with their identifiers (None everywhere)"""
    tags = {t: "tags " + t for t in types}
    common = {"quadrature_degree": 3}
    out, what = [], []
    last = None
    for k, t in enumerate(types):
        kind = kinds[k]
        if kind == "everywhere":
            sid = "everywhere"
        elif kind == "-1":
            sid = -1
        elif kind == "int":
            sid = H.int(f"id{k}", 0, 3)
        else:
            sid = (H.int(f"id{k}a", 0, 3), H.int(f"id{k}b", 0, 3))
        # as sorted by UFL
        key = (t, {"everywhere": 1, "int": 0, "tuple": 2, "-1": 0}[kind])
        assert last is None or last[0] <= key
        if last is not None and last[0] == key and kind == "int" and last[1] != -1:
            H.assume(last[1] <= sid)
        last = (key, sid)
        free = t == "exterior_facet" and kind in ("everywhere", "-1")
        data = tags[t] if H.flag(f"data{k}" if free else f"data_{t}") else None
        md = common if shared[k] == "s" else Frozen() if shared[k] == "f" else {"quadrature_degree": k}
        out.append(Integral(Integrand(f"f{k}"), t, x.domain, sid, md, data))
        what.append((t, kind, sid, dict(md), data))
    return out, what, common


def check_compiled(H, x, what, run):
    """what the compiler and DOLFINx were given for the form"""
    ok = []
    seen, given = x.seen[run], x.given[run]
    subs = given[4]
    ok.append(len(seen) == len(what))
    byname = {i[0].name: i for i in seen}
    ext = IT["exterior_facet"]
    used = []
    for k, (t, kind, sid, md, data) in enumerate(what):
        if t == "exterior_facet":
            used += [sid] if kind == "int" else list(sid) if kind == "tuple" else []
    news = []
    for k, (t, kind, sid, md, data) in enumerate(what):
        g, gt, gid, gmd, gdata = byname[f"f{k}"]
        ok.append(gt == t)
        ok.append(all(gmd.get(a) == b for a, b in md.items()))
        doms = [d for key, d in subs.items() if key.name == t]
        H.check(len(doms) == 1, f"the integrals of type {t} have no list of subdomains")
        doms = doms[0]
        if t == "exterior_facet" and kind in ("everywhere", "-1"):
            H.check(not isinstance(gid, (str, tuple)), "an integral over all exterior facets is compiled without a numerical identifier")
            ok.append(gid >= 0)
            ok.append(H.all([gid != u for u in used]))
            news.append(gid)
            H.check(H.any([gid == d[0] for d in doms]), "the facets of an integral over all the exterior facets are missing")
            for d in doms:
                ok.append(H.implies(d[0] == gid, d[1] == (ALL,)))
        else:
            ids = list(sid) if kind == "tuple" else [sid] if kind == "int" else []
            gids = [] if isinstance(gid, str) else list(gid) if isinstance(gid, tuple) else [gid]
            if kind == "-1":
                gids = []
            ok.append(len(gids) == len(ids))
            ok.append(H.all([a == b for a, b in zip(gids, ids)]))
            ok.append(gdata == data)
            for i in ids:
                if data is not None:
                    H.check(H.any([d[0] == i for d in doms]), f"an integral of type {t} over a subdomain is not computed")
                for d in doms:
                    ok.append(H.implies(d[0] == i, d[1] != (ALL,)))
                    if data is not None:
                        ok.append(H.implies(d[0] == i, H.all([d[1][0] == data, d[1][1] is IT[t], d[1][2] == i]) if isinstance(d[1], tuple) and len(d[1]) == 3 else False))
    for key, doms in subs.items():
        for a, b in zip(doms, doms[1:]):
            ok.append(a[0] <= b[0])
        if key is not ext:
            ok.append(all(d[1] != (ALL,) for d in doms))
    for d in subs.get(ext, []):
        if d[1] == (ALL,):
            ok.append(H.any([d[0] == n for n in news]))
    H.check(H.all(ok), "subdomains of the integrals: wrong identifiers, data or entities")
    return [i[2] for i in seen]


def check_restored(H, form, integrals, what, common):
    now = form.integrals()
    ok = [len(now) == len(what), isinstance(now, tuple), common == {"quadrature_degree": 3}]
    for i, (t, kind, sid, md, data), k in zip(now, what, range(len(what))):
        ok += [i.integrand().name == f"f{k}", i.integral_type() == t, i.ufl_domain() is form.x.domain, i.metadata() == md, i.subdomain_data() == data,
               type(i.subdomain_id()) is type(sid)]
        ok.append(H.all([a == b for a, b in zip(i.subdomain_id(), sid)]) if isinstance(sid, tuple) else i.subdomain_id() == sid)
    H.check(H.all(ok), "the form given by the user was modified")


def forms(H):
    p = H.params
    H.fresh()
    m = H.mod("qugar.dolfinx.forms")
    x = world(H, m, fails=1 if p.get("fails") else None)
    integrals, what, common = make(H, x, p["types"], p["kinds"], p["shared"])
    form = Form(integrals)
    if p.get("twice") and H.flag("before"):
        form.subdomain_data()
    try:
        r = m.form_custom(form)
    except RuntimeError:
        H.check(p.get("fails", False), "the form cannot be compiled")
        H.reach("failed")
        check_restored(H, form, integrals, what, common)
        return
    except (AssertionError, ValueError, TypeError, AttributeError, KeyError) as e:
        H.check(False, f"the form cannot be compiled: {type(e).__name__}")
        return
    check_compiled(H, x, what, 0)
    check_restored(H, form, integrals, what, common)
    H.check(H.all([r._coeffs_packer.domain is x.unf, r._coeffs_packer.itg_data == ["itg", 1], r._coeffs_packer.form is r, getattr(r, "_cpp_object", None) == ("form", 1)]), "domain or integrals of the form")
    if p.get("twice"):
        # the same form, or another one made of its integrals
        if H.flag("other"):
            form = Form(form.integrals())
        m.form_custom(form)
        check_compiled(H, x, what, 1)
        check_restored(H, form, integrals, what, common)
    H.reach("end")


def data(H):
    """coefficients, constants, function spaces and entity maps"""
    p = H.params
    H.fresh()
    m = H.mod("qugar.dolfinx.forms")
    x = world(H, m)
    x.positions = [H.choice(f"pos{k}", 0, 2) for k in range(2)]
    integrals, what, common = make(H, x, ["cell"], ["everywhere"], ["s"])
    diag, maps = H.flag("diagonal"), H.flag("maps")
    opts = {"part": "diagonal"} if diag else {} if H.flag("opts") else None
    emaps = [obj("m0"), obj("m1")] if maps else None
    jo = {"a": 1}
    r = m.form_custom(Form(integrals), dtype="T", form_compiler_options=opts, jit_options=jo, entity_maps=emaps)
    g = x.given[0]
    H.check(H.all([g[1] == (["V0"] if diag else ["V0", "V1"]), g[2] == [f"c{k}" for k in x.positions], g[3] == ["k0", "k1"], list(g[5]) == (["m0", "m1"] if maps else []), g[6] is x.msh,
                   g[0] == [("uintptr_t", ("addr", r._ufcx_form))], x.jit[0] == "comm", x.jit[1]["scalar_type"] == "T", x.jit[2] is jo, x.jit[1].get("part") == ("diagonal" if diag else None),
                   r._coeffs_packer.itg_data == ["itg", 1]]), "data of the form given to DOLFINx")
    H.reach("end")


def lists(H):
    """lists of forms, and the packing of their coefficients"""
    H.fresh()
    m = H.mod("qugar.dolfinx.forms")
    x = world(H, m)
    n = H.choice("n", 1, 3)
    items = []
    for k in range(n):
        i, _, _ = make(H, x, ["cell"], ["everywhere"], ["s"])
        i[0]._integrand = Integrand(f"g{k}")
        items.append(Form([] if H.flag(f"empty{k}") else i))
    nested = H.flag("nested")
    r = m.form_custom([[f] for f in items] if nested else tuple(items) if H.flag("tuple") else items)

    def flat(v):
        return [y for a in v for y in flat(a)] if isinstance(v, (list, tuple)) else [v]
    H.check(isinstance(r, list), "a list of forms does not give a list")
    if not nested:
        H.check(len(r) == n, "forms of a list are missing")
    r = flat(r)
    names = [None if f.empty() else f.integrals()[0].integrand().name for f in items]
    if nested:
        # empty forms may be left out of flattened lists
        r, names = [a for a in r if a is not None], [a for a in names if a is not None]
    ok = len(r) == len(names)
    c = 0
    for a, b in zip(r, names):
        if b is None:
            ok = ok and a is None
        else:
            ok = ok and a is not None and a._cpp_object == ("form", c + 1) and x.seen[c][0][0].name == b
            c += 1
    H.check(ok, "forms of a list")
    H.reach("end")


def petsc(H):
    """packed and updated coefficients of forms and lists of forms"""
    H.fresh()
    m = H.mod("qugar.dolfinx.petsc")

    class CF:
        def __init__(self, k):
            self.k, self.packs = k, 0

        def pack_coefficients(self):
            return ("packed", self.k)

        def update_coefficients(self, old):
            return ("updated", self.k, old)
    m.CustomForm = CF
    n = H.choice("n", 0, 3)
    f = CF(0) if n == 0 else [CF(k) for k in range(n)]
    prob = m.NonlinearProblem.__new__(m.NonlinearProblem)
    prob._L, prob._a, prob._A_coeffs, prob._b_coeffs = f, f, None, None
    for get in (prob._get_b_coeffs, prob._get_A_coeffs):
        old = None
        for it in range(3):
            try:
                c = get()
            except Exception as e:
                H.check(False, f"coefficients not updated: {type(e).__name__}")
                return
            want = [("packed", k) if it == 0 else ("updated", k, old[k] if n else old) for k in range(max(n, 1))]
            H.check(c == (want if n else want[0]), "a form is updated from the coefficients of another one")
            old = c
    H.reach("end")
