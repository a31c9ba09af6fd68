"""Runs /repo's code generation on kernels written as FFCx writes them, and emits what the C++ harness needs:
   kernelgen.py CONFIG OUTDIR  ->  OUTDIR/kernel.h (the generated code, the code before the modification, tables of expectations)

The kernels stand for FFCx's output (FFCx is not installed): names, order and forms of the statements are FFCx 0.10's.  Elements and their
tables are real basix's.  For every statement of the loops a reference written from the same description (never from the generated text) goes to the header."""
import hashlib
import itertools
import json
import os
import sys
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402
import basix  # noqa: E402


# ---- a minimal ufl, enough for the real basix.ufl
class Auto(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = Auto(n, (), {})
        setattr(cls, n, c)
        return c


class Cell:
    TD = dict(point=0, interval=1, triangle=2, quadrilateral=2, tetrahedron=3, hexahedron=3, prism=3)

    def __init__(self, n):
        self.name = n

    def cellname(self):
        return self.name

    def topological_dimension(self):
        return self.TD[self.name]


class FakeUfl(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = Auto(n, (), {})
        setattr(self, n, c)
        return c


def load_basix_ufl():
    names = ["ufl", "ufl.finiteelement", "ufl.pullback", "ufl.cell", "ufl.sobolevspace"]
    for n in names:
        m = FakeUfl(n)
        m.__path__ = []
        sys.modules[n] = m
        if "." in n:
            setattr(sys.modules["ufl"], n.split(".")[1], m)
    sys.modules["ufl"].Cell = Cell
    sys.modules["ufl.cell"].Cell = Cell

    class Pull:
        def __init__(self, *a, **k):
            pass
    for n in ("AbstractPullback", "IdentityPullback", "MixedPullback", "SymmetricPullback", "UndefinedPullback"):
        setattr(sys.modules["ufl.pullback"], n, type(n, (Pull,), {}))

    class AFE:
        @property
        def num_sub_elements(self):
            return len(self.sub_elements)

        @property
        def reference_value_size(self):
            return int(np.prod(self.reference_value_shape, dtype=int))
    sys.modules["ufl.finiteelement"].AbstractFiniteElement = AFE
    import basix.ufl as b
    for n in names:
        del sys.modules[n]
    for c in (b._ElementBase, b._BasixElement, b._BlockedElement, b._MixedElement):
        c.cell = property(lambda self: Cell(self._cellname))
        c.__abstractmethods__ = frozenset()
    return b


bu = load_basix_ufl()
from vlib import pyrun  # noqa: E402

pyrun.STUBS = tuple(s for s in pyrun.STUBS)
find0 = pyrun.StubFinder.find_spec
pyrun.StubFinder.find_spec = lambda self, name, path=None, target=None: None if name == "basix.ufl" else find0(self, name, path, target)
pyrun.setup_packages()


# ---- stand-ins of the few FFCx and UFL names used by the code under check
class Rule:
    def __init__(self, points, weights, tensor_factors=None):
        self.points, self.weights = np.asarray(points), np.asarray(weights)
        self.has_tensor_factors = tensor_factors is not None
        self.hash_obj = None

    def __hash__(self):
        if self.hash_obj is None:
            self.hash_obj = hashlib.sha1(self.points)
        return int(self.hash_obj.hexdigest(), 32)

    def __eq__(self, o):
        return np.allclose(self.points, o.points) and np.allclose(self.weights, o.weights)

    def id(self):
        return self.hash_obj.hexdigest()[-3:]


class GeometricQuantity:
    def __init__(self, cell):
        self.domain = types.SimpleNamespace(ufl_cell=lambda: cell)


import ffcx.ir.representationutils as ru  # noqa: E402
import ffcx.ir.elementtables as et  # noqa: E402
import ffcx.codegeneration.codegeneration as cg  # noqa: E402
import ufl.geometry  # noqa: E402
import ufl.domain  # noqa: E402
ru.QuadratureRule = Rule
et.get_modified_terminal_element = lambda mt: types.SimpleNamespace(element=mt.element) if mt.element is not None else None
ufl.geometry.GeometricQuantity = GeometricQuantity
ufl.domain.extract_unique_domain = lambda t: t.domain


# ---- reference cells
FACETS = dict(triangle=[(1, 2), (0, 2), (0, 1)], quadrilateral=[(0, 1), (0, 2), (1, 3), (2, 3)], tetrahedron=[(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
              hexahedron=[(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)])
VERTS = dict(triangle=[(0, 0), (1, 0), (0, 1)], quadrilateral=[(0, 0), (1, 0), (0, 1), (1, 1)], tetrahedron=[(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
             hexahedron=[(x, y, z) for z in (0, 1) for y in (0, 1) for x in (0, 1)])


def to_cell(cell, f, p):
    v = [np.array(VERTS[cell][i], float) for i in FACETS[cell][f]]
    return np.array([v[0] + sum(q[k] * (v[k + 1] - v[0]) for k in range(len(q))) for q in p])


def permuted_points(cell, p):
    """points of a facet seen through each of its permutations"""
    p = np.asarray(p, float)
    if Cell.TD[cell] == 2:
        return [p, 1 - p]
    out = []
    quad = cell == "hexahedron"
    for rot in range(4 if quad else 3):
        for ref in range(2):
            q = p.copy()
            for _ in range(rot):
                q = np.array([[y, 1 - x] if quad else [y, 1 - x - y] for x, y in q])
            if ref:
                q = q[:, ::-1].copy()
            out.append(q)
    return out


# ---- what FFCx does with tables
def leaf(e, c):
    """core element, its value components, and the component within it"""
    if isinstance(e, bu._MixedElement):
        for s in e.sub_elements:
            if c < s.reference_value_size:
                return leaf(s, c)
            c -= s.reference_value_size
    if e.block_size > 1:
        return e.sub_elements[0], 1, 0
    return e, int(e.reference_value_size), c


class Gen:
    def __init__(self, cfg):
        self.cfg = cfg
        self.cell = cfg["cell"]
        self.tdim = Cell.TD[self.cell]
        self.itype = cfg.get("type", "cell")
        self.facet = self.itype != "cell"
        self.real = "float" if cfg.get("dtype") in ("f32", "c64") else "double"
        self.scalar = {"f32": "float", "c64": "float _Complex", "c128": "double _Complex"}.get(cfg.get("dtype"), "double")
        self.elements = [self.element(e) for e in cfg["elements"]]
        self.quads = []
        for q in cfg["quads"]:
            pts = np.array(q["points"], float)
            w = np.array(q.get("weights", [1.0 / len(pts)] * len(pts)))
            r = Rule(pts, w)
            hash(r)
            self.quads.append(types.SimpleNamespace(id=r.id(), rule=r, unf=q.get("unf", False), degree=q.get("degree", 2), terms=[]))
        assert len({q.id for q in self.quads}) == len(self.quads), "quadrature ids"
        self.cores, self.tables, self.order = [], {}, []
        self.ttypes, self.nodes = {}, []
        self.decl = {q.id: [] for q in self.quads}
        for t in cfg["terms"]:
            self.quads[t.get("quad", 0)].terms.append(t)

    def element(self, e):
        if e[0] == "mixed":
            return bu.mixed_element([self.element(s) for s in e[1]])
        kind, cell, degree = e[:3]
        opt = e[3] if len(e) > 3 else {}
        opt = {k: tuple(v) if isinstance(v, list) else v for k, v in opt.items()}
        if opt.get("variant"):
            opt["lagrange_variant"] = getattr(basix.LagrangeVariant, opt.pop("variant"))
        return bu.element(kind, cell, degree, **opt)

    def core(self, e):
        for i, c in enumerate(self.cores):
            if c == e:
                return i
        self.cores.append(e)
        return len(self.cores) - 1

    def table(self, q, spec):
        """spec = [element, component, derivatives, restriction]: declares the table if it is new and returns what uses it"""
        ei, comp, der = spec[0], spec[1], tuple(spec[2])
        restr = spec[3] if len(spec) > 3 else ""
        el = self.elements[ei]
        edim = el.cell.topological_dimension()
        mixed_dim = edim != self.tdim
        ce, vs, lc = leaf(el, comp)
        be = ce.basix_element
        nd = sum(der)
        didx = basix.index(*der) if nd else 0

        def tab(p):
            return np.asarray(be.tabulate(nd, p)[didx])[:, :, lc]
        pts = q.rule.points
        if not self.facet or mixed_dim:
            tbl = np.array([[tab(pts)]])
        else:
            perms = permuted_points(self.cell, pts) if self.itype == "interior_facet" else [pts]
            tbl = np.array([[tab(to_cell(self.cell, f, p)) for f in range(len(FACETS[self.cell]))] for p in perms])
        tbl[np.abs(tbl) < 1e-12] = 0.0
        for v in (0.0, 1.0, -1.0):
            tbl[np.abs(tbl - v) < 1e-9] = v
        key = (ei, comp, der, q.id)
        piece = all(np.allclose(tbl[0, :, 0, :], tbl[0, :, i, :]) for i in range(1, tbl.shape[2]))
        unif = all(np.allclose(tbl[0, 0], tbl[0, i]) for i in range(1, tbl.shape[1]))
        assert not np.allclose(tbl, 0) and not np.allclose(tbl, 1), "tables of zeros or ones are not declared"
        tt = "fixed" if piece and unif else "piecewise" if piece else "uniform" if unif else "varying"
        if piece:
            tbl = tbl[:, :, :1]
        if unif:
            tbl = tbl[:, :1]
        if not any(not np.allclose(tbl[0], tbl[p]) for p in range(1, tbl.shape[0])):
            tbl = tbl[:1]
        name = next((n for n, a in self.tables.items() if a.shape == tbl.shape and np.allclose(a, tbl)), None)
        if name is None:
            name = f"FE{ei}_C{comp}" + ("_D" + "".join(map(str, der)) if nd else "") + ("_F" if self.facet and not mixed_dim else "") + f"_Q{q.id}"
            assert name not in self.tables
            self.tables[name] = tbl
            self.ttypes[name] = tt
            self.order.append(name)
        else:
            self.shared = True
        self.nodes.append(dict(tr=types.SimpleNamespace(name=name), mt=types.SimpleNamespace(element=el, terminal=None)))
        tbl = self.tables[name]
        side = 1 if restr == "-" else 0
        ent = "0" if unif or not self.facet or mixed_dim else f"entity_local_index[{side}]"
        perm = f"quadrature_permutation[{side}]" if tbl.shape[0] > 1 else "0"
        ip = "0" if piece else "iq"
        cid = self.core(ce)
        # 0: points, 1: points from the other side, 2: points of the facet
        src = 2 if mixed_dim else (side if self.itype == "interior_facet" else 0)
        n = tbl.shape[3]
        const = piece and len(q.rule.weights) > 1

        def value(qi, dof):
            # constant along the points, whatever they are, or values at the points
            return f"R_{name}[0][{ent}][0][{dof}]" if const else f"V({qi}, {src}, {cid}, {didx}, iq, {dof}, {lc})"
        return types.SimpleNamespace(access=lambda dof: f"{name}[{perm}][{ent}][{ip}][{dof}]", n=n, piece=piece, value=value)

    # ---- statements
    def build(self):
        pre, loops, ref, raw_fitted_skip = [], [], [], []
        S = self.scalar
        for qi, q in enumerate(self.quads):
            body, A, L = [], [], []
            for k, t in enumerate(q.terms):
                tag = f"{qi}_{k}"
                facs, rfacs = [], []
                for fi, c in enumerate(t.get("coefs", [])):
                    T = self.table(q, c["table"])
                    v = f"w{tag}_{fi}"
                    code = f"// Section: Coefficient\n{S} {v} = 0.0;\n{{\n  for (int ic = 0; ic < {T.n}; ++ic)\n  {{\n    {v} += w[{c['off']} + (ic)] * {T.access('ic')};\n  }}\n}}\n"
                    (pre if T.piece else body).append(code)
                    facs.append(v)
                    rfacs.append((f"sum_coef(w + {c['off']}, {T.n}, [&](int k) {{ return {T.value(qi, 'k')}; }})", ))
                for fi, c in enumerate(t.get("jac", [])):
                    T = self.table(q, c["table"])
                    v = f"J{tag}_c{fi}"
                    code = f"// Section: Jacobian\n{self.real} {v} = 0.0;\n{{\n  for (int ic = 0; ic < {T.n}; ++ic)\n  {{\n    {v} += coordinate_dofs[(ic) * 3 + {c['comp']}] * {T.access('ic')};\n  }}\n}}\n"
                    (pre if T.piece else body).append(code)
                    if T.piece:
                        pre.append(f"{self.real} sp_{q.id}_{tag}_{fi} = {v} * {v};\n")
                        facs.append(f"sp_{q.id}_{tag}_{fi}")
                    else:
                        body.append(f"{self.real} sv_{q.id}_{tag}_{fi} = {v} * {v};\n")
                        facs.append(f"sv_{q.id}_{tag}_{fi}")
                    rfacs.append((f"sqr(sum_jac(coordinate_dofs + {c['comp']}, {T.n}, [&](int k) {{ return {T.value(qi, 'k')}; }}))",))
                for c in t.get("consts", []):
                    facs.append(f"c[{c}]")
                    rfacs.append((f"c[{c}]",))
                for o, comp in t.get("normals", []):
                    # the fake constant of the normal
                    pre.append(f"{S} sp_{q.id}_n{tag}_{o + comp} = 2 * c[{o + comp}];\n")
                    if t.get("normal_in_body"):
                        facs.append(f"(c[{o + comp}])")
                        rfacs.append((f"nrm({qi}, iq, {comp})",))
                    else:
                        facs.append(f"sp_{q.id}_n{tag}_{o + comp}")
                        rfacs.append((f"2 * nrm({qi}, iq, {comp})",))
                body.append(f"// Section: Intermediates\n{S} fw{tag} = 0;\n{{\n  fw{tag} = {' * '.join(facs + [f'weights_{q.id}[iq]'])};\n}}\n")
                rf = " * ".join([f"wgt({qi}, iq)"] + [f[0] for f in rfacs])
                Ti = self.table(q, t["test"])
                i = Ti.value(qi, 'i')
                if t.get("trial"):
                    Tj = self.table(q, t["trial"])
                    st = t["stride"]
                    A.append(f"{{\n  for (int i = 0; i < {Ti.n}; ++i)\n  {{\n    for (int j = 0; j < {Tj.n}; ++j)\n    {{\n      A[{t.get('Aoff', 0)} + {st} * (i) + (j)] += fw{tag} * {Ti.access('i')} * {Tj.access('j')};\n    }}\n  }}\n}}\n")
                    L.append(f"for (int i = 0; i < {Ti.n}; ++i) for (int j = 0; j < {Tj.n}; ++j) E[{t.get('Aoff', 0)} + {st} * i + j] += ({rf}) * {i} * {Tj.value(qi, 'j')};\n")
                else:
                    A.append(f"{{\n  for (int i = 0; i < {Ti.n}; ++i)\n  {{\n    A[{t.get('Aoff', 0)} + (i)] += fw{tag} * {Ti.access('i')};\n  }}\n}}\n")
                    L.append(f"for (int i = 0; i < {Ti.n}; ++i) E[{t.get('Aoff', 0)} + i] += ({rf}) * {i};\n")
            if self.cfg.get("A_first_shared"):
                A = A[::-1]
            loops.append(f"for (int iq = 0; iq < {len(q.rule.weights)}; ++iq)\n{{\n" + "".join(body) + "// Section: Tensor Computation\n" + "".join(A) + "}\n")
            ref.append(f"for (int iq = 0; iq < npts({qi}); ++iq) {{\n" + "".join(L) + "}\n")
        return pre, loops, ref

    def run(self):
        cfg = self.cfg
        pre, loops, ref = self.build()
        name = "1a2b3c_cell"
        sig = lambda n: (f"void tabulate_tensor_integral_{n}({self.scalar}* restrict A,\n  const {self.scalar}* restrict w,\n  const {self.scalar}* restrict c,\n  const {self.real}* restrict coordinate_dofs,\n"  # noqa: E731
                         "  const int* restrict entity_local_index,\n  const uint8_t* restrict quadrature_permutation,\n  void* custom_data)")
        wt = "// Quadrature rules\n" + "".join(f"static const {self.real} weights_{q.id}[{len(q.rule.weights)}] = {{{', '.join(map(repr, map(float, q.rule.weights)))}}};\n" for q in self.quads)

        def lit(a):
            return repr(float(a)) if np.ndim(a) == 0 else "{" + ", ".join(lit(x) for x in a) + "}"
        tb = "// Precomputed values of basis functions and precomputations\n// FE* dimensions: [permutation][entities][points][dofs]\n"
        for n in self.order:
            tb += f"static const {self.real} {n}" + "".join(f"[{s}]" for s in self.tables[n].shape) + f" = {lit(self.tables[n])};\n"
        tail = f"static const {self.real} reference_data[2] = {{0.5, 2.0}};\n" if cfg.get("geometry_table") else ""
        if cfg.get("geometry_table"):
            pre.append(f"{self.real} sp_geo = reference_data[1];\n")
        text = sig(name) + "\n{\n" + wt + tb + tail + "".join(pre) + "\n".join(loops) + "\n}\n"
        before = f"// Code for integral integral_{name}\n\n"
        after = f"\n\n\nufcx_integral integral_{name} = {{\n  .enabled_coefficients = 0,\n  .tabulate_tensor_float64 = tabulate_tensor_integral_{name},\n}};\n\n// End of code for integral integral_{name}\n"

        # ---- intermediate representation and form
        cell = Cell(self.cell)
        nodes = dict(enumerate(self.nodes + [dict(mt=types.SimpleNamespace(terminal=GeometricQuantity(cell), element=None)), dict(status="x")]))
        from qugar.dolfinx.boundary import ParamNormal
        consts = {}
        for o, kind in cfg.get("const_offsets", []):
            k = ParamNormal.__new__(ParamNormal) if kind == "normal" else object()
            consts[k] = o

        class Ob(types.SimpleNamespace):
            __hash__ = object.__hash__
        coefs = {}
        for off, e in cfg.get("coefficients", []):
            el = types.SimpleNamespace(space_dimension=int(self.elements[e].dim))
            coefs[Ob(ufl_function_space=lambda el=el: types.SimpleNamespace(element=el))] = off

        expr = types.SimpleNamespace(name=f"integral_{name}", integral_type=self.itype, entity_type="facet" if self.facet else "cell", unique_table_types={basix.CellType[self.cell]: self.ttypes},
                                     coefficient_offsets=coefs, original_constant_offsets=consts,
                                     integrand={(basix.CellType[self.cell], q.rule): dict(factorization=types.SimpleNamespace(nodes=nodes)) for q in self.quads})
        itg_ir = types.SimpleNamespace(expression=expr)
        ir = types.SimpleNamespace(forms=[types.SimpleNamespace(integral_names={self.itype: [f"integral_{name}"]}, subdomain_ids={self.itype: [3]})], integrals=[itg_ir])
        itgs = []
        for q in self.quads:
            md = dict(quadrature_rule="custom", quadrature_degree=q.degree, quadrature_points=q.rule.points, quadrature_weights=q.rule.weights)
            if q.unf:
                md["custom_unfitted_boundary"] = True
            itgs.append(types.SimpleNamespace(metadata=lambda md=md: md, integral_type=lambda: self.itype, ufl_domain=lambda: types.SimpleNamespace(ufl_cell=lambda: cell)))
        fd = types.SimpleNamespace(integral_data=[types.SimpleNamespace(integrals=itgs)], argument_elements=())
        ufl_data = types.SimpleNamespace(form_data=[fd])

        class Blocks(list):
            integrals = property(lambda s: s[1])
        cg.generate_code = lambda ir, opts: Blocks([[("", "#include <math.h>\n#include <ufcx.h>\n")], [("", before + text + after)]])
        from qugar.dolfinx import codegeneration
        try:
            blocks, datas = codegeneration.generate_code(ufl_data, ir, dict(sum_factorization=False))
        except Exception as e:  # the code under check fails
            import traceback
            traceback.print_exc()
            print(f"{type(e).__name__}: {e}", file=sys.stderr)
            sys.exit(7)
        code = blocks[1][0][1]
        # loops of the unfitted boundaries do nothing for entities that are not cut
        fitted = sig("plain") + "\n{\n" + wt + tb + tail + "".join(pre) + "\n".join(l for l, q in zip(loops, self.quads) if not q.unf) + "\n}\n"

        # ---- the order of the custom data is that of the packer, which goes through the same dictionary
        order = [next(i for i, q in enumerate(self.quads) if q.id == d.name) for d in datas[0].quad_data_FE_tables]
        ncoef = cfg.get("ncoef", 0)
        width = 2 if self.itype == "interior_facet" else 1
        assert not cfg.get("coefficients") or max(o + width * self.elements[e].dim for o, e in cfg["coefficients"]) == ncoef, "configuration: number of coefficients"
        nA = max((t.get("Aoff", 0) + (t["stride"] if t.get("trial") else 0) * 40 + 60) for t in cfg["terms"])
        els = []
        for c in self.cores:
            b = c.basix_element
            els.append("{" + ", ".join(str(int(x)) for x in (b.family, b.cell_type, b.degree, b.lagrange_variant, b.dpc_variant, b.discontinuous)) + f", {b.dim}, {int(np.prod(b.value_shape, dtype=int)) if b.value_shape else 1}, {Cell.TD[b.cell_type.name]}" + "}")
        mixed = any(c.cell.topological_dimension() != self.tdim for c in self.cores)
        h = "#define restrict __restrict\n" + f"using Real = {self.real};\nusing Scalar = {self.scalar};\n#define COMPLEX {int('_Complex' in self.scalar)}\n#define F32 {int(self.real == 'float')}\n"
        h += f"#define TDIM {self.tdim}\n#define INTERIOR {int(self.itype == 'interior_facet')}\n#define EXTERIOR {int(self.itype == 'exterior_facet')}\n#define MIXED {int(mixed)}\n#define NQ {len(self.quads)}\n#define NCOEF {ncoef}\n#define NCONST {cfg.get('nconst', 0)}\n#define NA {nA}\n#define NEL {len(els)}\n"
        h += f"#define NFACETS {len(FACETS[self.cell])}\n#define NPERMS {2 if self.tdim == 2 else 8 if self.cell == 'hexahedron' else 6}\n#define NGEO {3 * len(VERTS[self.cell])}\n"
        h += f"static const bool unfitted[NQ] = {{{', '.join(str(int(q.unf)) for q in self.quads)}}};\nstatic const int data_order[] = {{{', '.join(map(str, order))}}};\n#define NDATA {len(order)}\n"
        h += f"static const int elements[NEL][9] = {{{', '.join(els)}}};\n"
        h += tb.replace(" FE", " R_FE")
        h += "extern \"C\" {\n" + code + "}\n" + fitted.replace("tabulate_tensor_integral_plain", "plain_kernel") + "#undef restrict\n"
        h += f"#define KERNEL tabulate_tensor_integral_{name}\n"
        h += "#define REFERENCE \\\n" + "".join(ref).replace("\n", " \\\n") + "\n"
        (Path(sys.argv[2]) / "kernel.h").write_text(h)
        # ufcx.h declares no ptrdiff_t
        ufcx = "#include <stdint.h>\n#include <stdbool.h>\n#include <complex.h>\ntypedef struct { int enabled_coefficients; void *tabulate_tensor_float64; } ufcx_integral;\n"
        (Path(sys.argv[2]) / "generated.c").write_text(blocks[0][0][1].replace("#include <ufcx.h>", ufcx) + code)
        print(json.dumps(dict(tables={n: [list(self.tables[n].shape), self.ttypes[n]] for n in self.order}, order=order)))


if __name__ == "__main__":
    sys.path.insert(0, str(Path(__file__).resolve().parent))
    import kernel_configs
    Gen(kernel_configs.CONFIGS[sys.argv[1]]).run()
