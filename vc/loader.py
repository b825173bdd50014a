"""Load the current /repo sources with exact arithmetic semantics.

Each module is parsed from the working tree on every run and executed through
CPython with a fixed, purely syntactic translation:

  * float literals        -> exact reals (ring.literal)
  * a / b, a // b, a % b, a ** b, augmented assignments -> helper calls
  * numba decorators      -> removed (the JIT is semantically transparent)
  * imports of numpy/scipy/numba -> the exact facade; repo modules -> translated
  * x.astype(t)           -> helper (exact reals stay exact)
  * len/range/abs/... and loops/comprehensions (with their filters) -> helpers
    that accept symbolic integers

Nothing else is changed, no statement is dropped or reordered.
"""
import ast
import builtins
import os
import sys
import types
from . import ring, sym
from .ring import SR, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.join(REPO, "stokesian_dynamics")

LEAVES = set()      # loops whose body may leave them early


class Tr(ast.NodeTransformer):
    def _call(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            txt = getattr(n, "_txt", None) or repr(n.value)
            return ast.copy_location(self._call("__vc_lit", ast.Constant(txt)), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    BIN = {ast.Div: "__vc_div", ast.FloorDiv: "__vc_fdiv", ast.Mod: "__vc_mod", ast.Pow: "__vc_pow",
           ast.MatMult: "__vc_matmul", ast.Mult: "__vc_mul", ast.Add: "__vc_add", ast.Sub: "__vc_sub"}

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = self.BIN.get(type(n.op))
        if f:
            return ast.copy_location(self._call(f, n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        tgt = n.target
        load = self._load(tgt)
        self.generic_visit(n)
        f = self.BIN.get(type(n.op))
        load = self.visit(load)
        if f is None:
            return n
        op = ast.Constant(f)
        val = self._call("__vc_aug", op, load, n.value)
        t = self.visit(self._store(tgt))
        return ast.copy_location(ast.Assign(targets=[t], value=val), n)

    def _load(self, t):
        import copy
        t = copy.deepcopy(t)
        t.ctx = ast.Load()
        return t

    def _store(self, t):
        import copy
        t = copy.deepcopy(t)
        t.ctx = ast.Store()
        return t

    def visit_FunctionDef(self, n):
        keep = []
        for d in n.decorator_list:
            s = ast.unparse(d)
            if s.startswith(("njit", "jit", "nb.", "numba.", "vectorize", "prange")):
                continue
            keep.append(d)
        n.decorator_list = keep
        self.generic_visit(n)
        return n

    def visit_For(self, n):
        if any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in ast.walk(b)):
            LEAVES.add("%d:%d" % (n.lineno, n.col_offset))
        carried, liveout = getattr(n, "_carried", ()), getattr(n, "_liveout", ())
        state = sorted(set(carried) | set(liveout) - _names(n.target, ast.Store))
        self.generic_visit(n)
        tup = lambda xs: ast.Tuple(elts=[ast.Constant(x) for x in xs], ctx=ast.Load())
        loop = ast.Constant("%d:%d" % (n.lineno, n.col_offset))
        n.iter = self._call("__vc_iter", n.iter, tup(carried), tup(liveout), loop)
        # when the loop is cut, a carried name starts the arbitrary iteration with an arbitrary value
        pre = [ast.copy_location(ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=self._call(
            "__vc_havoc", loop, ast.Constant(c), self._call("locals"))), n) for c in state]
        n.body = pre + n.body
        # ... and a name read after the loop comes out with the value the loop contract gives it
        post = [ast.copy_location(ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=self._call(
            "__vc_after", loop, ast.Constant(c), self._call("locals"))), n) for c in state if c in liveout]
        return [n] + post if post else n

    def visit_While(self, n):
        carried = getattr(n, "_carried", ())
        self.generic_visit(n)
        loop = ast.Constant("w%d:%d" % (n.lineno, n.col_offset))
        n.test = self._call("__vc_while", loop, n.test, ast.Tuple(elts=[ast.Constant(x) for x in carried], ctx=ast.Load()), self._call("locals"))
        n.body = [ast.copy_location(ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=self._call(
            "__vc_havoc", loop, ast.Constant(c), self._call("locals"))), n) for c in carried] + n.body
        enter = ast.copy_location(ast.Expr(value=self._call("__vc_enter", loop)), n)
        return [enter, n]

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "astype":
            return ast.copy_location(ast.Call(func=ast.Name(id="__vc_astype", ctx=ast.Load()), args=[n.func.value] + n.args, keywords=n.keywords), n)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = self._call("__vc_citer", n.iter)
        n.ifs = [self._call("__vc_cif", self._cond(c)) for c in n.ifs]
        return n

    def _cond(self, c):
        """Filter of a comprehension: and/or/not kept as formulas."""
        if isinstance(c, ast.BoolOp):
            lam = lambda b: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b)
            return self._call("__vc_and" if isinstance(c.op, ast.And) else "__vc_or", *[lam(self._cond(v)) for v in c.values])
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            return self._call("__vc_not", self._cond(c.operand))
        return c

    def visit_ListComp(self, n):
        self.generic_visit(n)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n)
        return ast.copy_location(self._call("__vc_lc", lam), n)


def _names(node, ctx):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def _first_use(stmts, assigned, reads):
    """Definite-assignment walk: collect names read before being assigned."""
    for st in stmts:
        if isinstance(st, (ast.If,)):
            _expr(st.test, assigned, reads)
            a, b = set(assigned), set(assigned)
            _first_use(st.body, a, reads)
            _first_use(st.orelse, b, reads)
            assigned |= (a & b)
        elif isinstance(st, (ast.For, ast.While)):
            if isinstance(st, ast.For):
                _expr(st.iter, assigned, reads)
                a = set(assigned) | _names(st.target, ast.Store)
            else:
                _expr(st.test, assigned, reads)
                a = set(assigned)
            _first_use(st.body, a, reads)
            _first_use(st.orelse, set(assigned), reads)
        elif isinstance(st, (ast.With, ast.Try)):
            _expr(st, assigned, reads)
        elif isinstance(st, ast.AugAssign):
            _expr(st.value, assigned, reads)
            if isinstance(st.target, ast.Name):
                if st.target.id not in assigned:
                    reads.add(st.target.id)
                assigned.add(st.target.id)
            else:
                _expr(st.target, assigned, reads)
        elif isinstance(st, ast.Assign):
            _expr(st.value, assigned, reads)
            for t in st.targets:
                _expr(t, assigned, reads)
            for t in st.targets:
                assigned |= _names(t, ast.Store)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            assigned.add(st.name)
        else:
            _expr(st, assigned, reads)
            assigned |= _names(st, ast.Store)


def _expr(e, assigned, reads):
    comp = set()
    for x in ast.walk(e):
        if isinstance(x, ast.comprehension):
            comp |= _names(x.target, ast.Store)
    for nme in _names(e, ast.Load):
        if nme not in assigned and nme not in comp:
            reads.add(nme)


def annotate_loops(tree):
    """Attach to each for loop the names it carries between iterations and the
    names it assigns that are read after it."""
    def fn_body(body):
        def walk(stmts, after):
            for k, st in enumerate(stmts):
                rest = stmts[k + 1:]
                if isinstance(st, ast.For):
                    asg = set()
                    for b in st.body:
                        asg |= _names(b, ast.Store)
                    reads = set()
                    _first_use(st.body, _names(st.target, ast.Store), reads)
                    st._carried = tuple(sorted(reads & asg))
                    out = set()
                    _first_use(rest + after, set(), out)
                    st._liveout = tuple(sorted((asg | _names(st.target, ast.Store)) & out))
                    walk(st.body, rest + after)
                elif isinstance(st, ast.If):
                    walk(st.body, rest + after)
                    walk(st.orelse, rest + after)
                elif isinstance(st, ast.While):
                    asg = set()
                    for b in st.body:
                        asg |= _names(b, ast.Store)
                    reads = set()
                    _first_use(st.body, set(), reads)
                    st._carried = tuple(sorted((reads | _names(st.test, ast.Load)) & asg))
                    walk(st.body, rest + after)
                elif isinstance(st, ast.With):
                    walk(st.body, rest + after)
        walk(body, [])
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Module)):
            fn_body(node.body)


def _txt_floats(tree, src):
    """Remember the source spelling of float literals."""
    lines = src.splitlines()
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, float):
            try:
                t = ast.get_source_segment(src, n)
                if t:
                    t = t.replace("_", "")
                    float(t)
                    n._txt = t
            except Exception:
                pass


class World:
    """One set of translated modules."""

    def __init__(self, facade, patches=None, extra_paths=()):
        self.mods = {}
        self.np = facade
        self.patches = patches or {}     # module name -> {attr: object} set after load
        self.stubs = {}
        self.paths = [ROOT] + list(extra_paths)
        self.sources = {}
        self.loop_hook = None

    def find(self, name):
        rel = name.replace(".", "/")
        for p in self.paths:
            f = os.path.join(p, rel + ".py")
            if os.path.exists(f):
                return f
            f = os.path.join(p, rel, "__init__.py")
            if os.path.exists(f):
                return f
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.find(name)
        if f is None:
            d = os.path.join(self.paths[0], name.replace(".", "/"))
            if os.path.isdir(d):
                m = types.ModuleType(name)
                m.__path__ = [d]
                self.mods[name] = m
                return m
            raise Unsupported("no module %s" % name)
        return self.load_file(name, f)

    def load_file(self, name, f, source=None):
        src = source if source is not None else open(f).read()
        self.sources[f] = src
        tree = ast.parse(src, f)
        _txt_floats(tree, src)
        annotate_loops(tree)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = f
        self.mods[name] = m
        m.__dict__["__builtins__"] = self.builtins()
        code = compile(tree, f, "exec")
        argv = sys.argv
        sys.argv = ["run_simulation.py"]
        cwd = os.getcwd()
        try:
            os.chdir(ROOT)
            exec(code, m.__dict__)
        finally:
            sys.argv = argv
            os.chdir(cwd)
        for k, v in self.patches.get(name, {}).items():
            if k not in m.__dict__:
                raise Unsupported("%s has no %s" % (name, k))
            m.__dict__[k] = v
        return m

    def builtins(self):
        from . import facade as F
        d = dict(builtins.__dict__)
        d.update(F.BUILTINS)
        d["__import__"] = self._import
        return d

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split(".")[0]
        if name in self.stubs:
            return self.stubs[name]
        ext = self.np.external(name, fromlist)
        if ext is not None:
            return ext
        if self.find(name) is not None or os.path.isdir(os.path.join(self.paths[0], top)):
            m = self.load(name)
            if fromlist:
                for a in fromlist:
                    if a != "*" and not hasattr(m, a):
                        if self.find(name + "." + a):
                            setattr(m, a, self.load(name + "." + a))
                return m
            t = self.load(top)
            # attach submodules
            parts = name.split(".")
            cur = t
            for i in range(1, len(parts)):
                sub = self.load(".".join(parts[:i + 1]))
                setattr(cur, parts[i], sub)
                cur = sub
            return t
        return builtins.__import__(name, globals, locals, fromlist, level)
