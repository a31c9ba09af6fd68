"""linear and nonlinear problems: what is in the matrix and the vector when the solver gets them

Every vector and matrix has one free and one constrained unknown, with a part of their own and one of other processes' (ghosts);
the forms' values depend on the state of their coefficients, which changes at every step."""
from types import SimpleNamespace


class Vec:
    def __init__(self, W, name):
        H = W.H
        self.W, self.own, self.ghost, self.local = W, [H.real(f"{name}_o{i}", -9, 9) for i in range(2)], [H.real(f"{name}_g{i}", -9, 9) for i in range(2)], 0
        self.prefix, self.configured = None, None

    def localForm(self):
        v = self

        class L:
            def __enter__(s):
                v.local += 1
                return s

            def __exit__(s, *a):
                v.local -= 1

            def set(s, x):
                v.own, v.ghost = [x, x], [x, x]
        return L()

    def set(self, x):  # global form: ghosts are left as they are
        self.own = [x, x]

    def zeroEntries(self):
        self.own = [0, 0]

    def ghostUpdate(self, addv=None, mode=None):
        P = self.W.P
        if (addv, mode) == (P.InsertMode.ADD, P.ScatterMode.REVERSE):
            self.own = [a + g for a, g in zip(self.own, self.ghost)]
        elif (addv, mode) == (P.InsertMode.INSERT, P.ScatterMode.FORWARD):
            self.ghost = list(self.own)
        else:
            self.W.H.gap("ghostUpdate")

    @property
    def array_w(self):
        return self

    def setOptionsPrefix(self, p):
        self.prefix = p

    def setFromOptions(self):
        self.configured = self.W.options(self.prefix)


class Mat:
    def __init__(self, W, name):
        self.W, self.v, self.ready = W, W.H.real(name, -9, 9), True
        self.prefix, self.configured = None, None

    def zeroEntries(self):
        self.v = 0

    def assemble(self):
        self.ready = True

    setOptionsPrefix, setFromOptions = Vec.setOptionsPrefix, Vec.setFromOptions


class Form:
    """compiled form; its coefficients are (form, time at which they are read)"""
    def __init__(self, W, name):
        self.W, self.name = W, name
        self.value = [[W.H.real(f"{name}{t}_{i}", -9, 9) for i in range(4)] for t in range(3)]

    def pack_coefficients(self):
        return SimpleNamespace(form=self, time=self.W.now)

    def update_coefficients(self, old):
        self.W.H.check(old.form is self, "coefficients of a form are updated from its own")
        return SimpleNamespace(form=self, time=self.W.now)


class BC:
    def __init__(self, W):
        self.W = W

    def set(self, x, x0=None, alpha=1):
        v = getattr(x, "own", None)
        if v is None:
            self.W.H.gap("DirichletBC.set")
        v[1] = alpha * (self.W.g - (0 if x0 is None else x0.own[1]))


def world(H):
    H.fresh()
    import dolfinx
    import dolfinx.fem.petsc
    import dolfinx.la.petsc
    import petsc4py.PETSc as P
    import ufl
    W = SimpleNamespace(H=H, P=P, now=0, solved=[], stack=[], db={}, compiled=[])
    P.InsertMode, P.ScatterMode = SimpleNamespace(ADD="add", INSERT="insert"), SimpleNamespace(REVERSE="reverse", FORWARD="forward")
    P.ScalarType = "scalar"

    class Options:
        def prefixPush(self, p):
            W.stack.append(p)

        def prefixPop(self):
            W.stack.pop()

        def __setitem__(self, k, v):
            W.db["".join(W.stack) + k] = v

        setValue = __setitem__
    P.Options = Options

    def options(prefix):
        return {k[len(prefix or ""):]: v for k, v in W.db.items() if k.startswith(prefix or "")}
    W.options = options

    class KSP:
        def __init__(self):
            self.prefix, self.configured, self.ops, self.comm = None, None, None, None

        def create(self, comm):
            self.comm = comm
            return self

        def setOperators(self, A, B=None):
            self.ops = (A, B)

        setOptionsPrefix, setFromOptions = Vec.setOptionsPrefix, Vec.setFromOptions
        W = None

        def solve(self, b, x):
            W.solved.append((self, list(b.own), x, self.ops[0].v, self.ops[0].ready))
    KSP.W = W
    P.KSP = KSP

    class Base:
        solver = property(lambda s: s._solver)
        A = property(lambda s: s._A)
        b = property(lambda s: s._b)
        x = property(lambda s: s._x)
        u = property(lambda s: s._u)
        L = property(lambda s: s._L)
        a = property(lambda s: s._a)
    fp = dolfinx.fem.petsc
    fp.LinearProblem = fp.NewtonSolverNonlinearProblem = Base

    def timed(form, coeffs):
        H.check(getattr(coeffs, "form", None) is form, "a form is assembled with its own coefficients")
        H.check(coeffs.time == W.now, "a form is assembled with its coefficients' present values")
        return form.value[coeffs.time]

    def assemble_matrix(A, form, bcs=None, diag=1.0, constants=None, coeffs=None):
        H.check(isinstance(A, Mat) and isinstance(form, Form), "matrices are assembled from forms")
        H.check(bcs is W.bcs or list(bcs or []) == list(W.bcs), "matrices are assembled with the boundary conditions")
        A.v = A.v + timed(form, coeffs)[0]
        A.ready = False
        return A

    def assemble_vector(b, form, constants=None, coeffs=None):
        H.check(isinstance(b, Vec) and isinstance(form, Form), "vectors are assembled from forms")
        f = timed(form, coeffs)
        b.own = [b.own[i] + f[i] for i in range(2)]
        b.ghost = [b.ghost[i] + f[2 + i] for i in range(2)]
        return b

    def apply_lifting(b, a, bcs, x0=None, alpha=1, constants=None, coeffs=None):
        H.check(len(a) == 1 and len(bcs) == 1 and list(bcs[0]) == list(W.bcs) and (coeffs is None or len(coeffs) == 1), "lifting by each form with its conditions and coefficients")
        H.check(coeffs is not None, "a form is assembled with its own coefficients")
        f = timed(a[0], coeffs[0])
        if W.bcs:
            g = alpha * (W.g - (0 if x0 is None else x0[0].own[1]))
            b.own = [b.own[i] - f[1] * g for i in range(2)]
            b.ghost = [b.ghost[i] - f[2] * g for i in range(2)]

    def set_bc(b, bcs, x0=None, alpha=1):
        H.check(list(bcs) == list(W.bcs), "the boundary conditions are set")
        for c in bcs:
            c.set(b, x0, alpha)
    fp.assemble_matrix, fp.assemble_vector, fp.apply_lifting, fp.set_bc = assemble_matrix, assemble_vector, apply_lifting, set_bc
    W.nA = W.nb = 0

    def create_matrix(form, *a, **k):
        W.nA += 1
        r = Mat(W, f"A{W.nA}")
        r.form = form
        return r

    def create_vector(spaces, *a, **k):
        W.nb += 1
        r = Vec(W, f"b{W.nb}")
        r.spaces = spaces
        return r
    fp.create_matrix, fp.create_vector = create_matrix, create_vector
    dolfinx.la.petsc.create_vector_wrap = lambda x: ("wrap", x)
    dolfinx.fem.extract_function_spaces = lambda f: ("spaces", f)
    import dolfinx.fem.function

    class Function:
        def __init__(self, V, *a):
            self.function_space, self.scattered = V, 0
            self.x = SimpleNamespace(scatter_forward=lambda: setattr(self, "scattered", len(W.solved)))
    dolfinx.fem.function.Function = dolfinx.fem.Function = Function
    W.Function = Function
    m = H.mod("qugar.dolfinx.petsc")

    def form_custom(f, dtype=None, form_compiler_options=None, jit_options=None, **k):
        r = Form(W, f.name)
        W.compiled.append((f, dtype, form_compiler_options, jit_options, r))
        return r
    m.form_custom = form_custom
    m.CustomForm = Form
    ufl.TrialFunction = lambda V: ("trial", V)
    ufl.derivative = lambda F, u, du: SimpleNamespace(name="dF", args=(F, u, du))
    W.m = m
    W.g = H.real("g", -9, 9)
    W.V = SimpleNamespace(mesh=SimpleNamespace(comm="comm"))
    W.bcs = [BC(W)] if H.flag("bcs") else []
    return W


def uflform(name, V):
    return SimpleNamespace(name=name, arguments=lambda: [SimpleNamespace(ufl_function_space=lambda: "test"), SimpleNamespace(ufl_function_space=lambda: V)])


def linear(H):
    W = world(H)
    a, L = uflform("a", W.V), uflform("L", W.V)
    opts = {"ksp_type": "cg", "pc_type": "lu"} if H.flag("options") else None
    fo, jo = ({"p": 1}, {"q": 2}) if H.flag("compiler") else (None, None)
    u = W.Function(W.V) if H.flag("given") else None
    kw = dict(u=u, petsc_options=opts, form_compiler_options=fo, jit_options=jo)
    p = W.m.LinearProblem(a, L, W.bcs, **kw) if W.bcs or H.flag("explicit") else W.m.LinearProblem(a, L, **kw)
    A, b = p.A, p.b
    H.check([(c[0], c[1]) for c in W.compiled] == [(a, "scalar"), (L, "scalar")] and all(c[2] is fo and c[3] is jo for c in W.compiled), "both forms are compiled with the options given")
    fa, fL = W.compiled[0][4], W.compiled[1][4]
    H.check(p.solver.ops is not None and p.solver.ops[0] is A and A.form is fa and b.spaces == ("spaces", fL), "the solver works on the problem's matrix")
    H.check(p.u.function_space is W.V and (u is None or p.u is u) and p.solver.comm == "comm", "the solution given, or a new one")
    H.check((p.solver.configured or {}) == (opts or {}), "the solver gets the options given")
    H.check((A.configured or {}) == (opts or {}) and (b.configured or {}) == (opts or {}), "the matrix and the vector get the options given")
    H.check(W.stack == [], "the options' prefix is restored")
    q = None
    if H.flag("second"):
        q = W.m.LinearProblem(a, L, W.bcs, petsc_options={"ksp_type": "gmres"})
        H.check(q.solver.prefix != p.solver.prefix and q.solver.configured == {"ksp_type": "gmres"}, "each problem has its own options")
    for t in range(H.params.get("solves", 2)):
        W.now = t
        r = p.solve()
        H.check(len(W.solved) == t + 1, "one system is solved")
        s, bb, x, mat, ready = W.solved[-1]
        H.check(s is p.solver and x == ("wrap", p.u.x) and r is p.u, "the solution is the problem's function")
        va, vL = fa.value[t], fL.value[t]
        H.check(H.eq(mat, va[0]), "the matrix is the bilinear form's")
        H.check(ready, "the matrix is assembled")
        g = W.g if W.bcs else 0
        H.check(H.eq(bb[0], vL[0] + vL[2] - (va[1] + va[2]) * g), "the right-hand side is the linear form's, lifted, of all processes")
        H.check(H.eq(bb[1], g if W.bcs else vL[1] + vL[3]), "the right-hand side has the boundary values")
        H.check(p.u.scattered == t + 1, "the solution's ghosts are updated")
    H.reach("end")


def nonlinear(H):
    W = world(H)
    u = W.Function(W.V)
    F = uflform("F", W.V)
    J = uflform("J", W.V) if H.flag("jacobian") else None
    fo, jo = ({"p": 1}, {"q": 2}) if H.flag("compiler") else (None, None)
    p = W.m.NonlinearProblem(F, u, W.bcs, J, fo, jo)
    H.check(len(W.compiled) == 2 and W.compiled[0][0] is F and all(c[1] == "scalar" and c[2] is fo and c[3] is jo for c in W.compiled), "both forms are compiled with the options given")
    d = W.compiled[1][0]
    H.check(d is J if J is not None else d.name == "dF" and d.args == (F, u, ("trial", W.V)), "the Jacobian is the one given, or the derivative")
    fF, fJ = W.compiled[0][4], W.compiled[1][4]
    b, A, x = Vec(W, "b"), Mat(W, "A"), Vec(W, "x")
    for t in range(H.params.get("calls", 3)):
        W.now = t
        if H.flag(f"matrix{t}"):
            p.J(x, A)
            H.check(H.eq(A.v, fJ.value[t][0]), "the Jacobian's matrix")
            H.check(A.ready, "the matrix is assembled")
        else:
            p.F(x, b)
            v, j = fF.value[t], fJ.value[t]
            g = W.g - x.own[1] if W.bcs else 0
            H.check(H.eq(b.own[0], v[0] + v[2] + (j[1] + j[2]) * g), "the residual, lifted, of all processes")
            H.check(H.eq(b.own[1], x.own[1] - W.g if W.bcs else v[1] + v[3]), "the residual has the deviation from the boundary values")
    H.reach("end")
