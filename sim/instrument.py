"""Import hook that puts the code under test under the simulator's control.

Every module of building3d is compiled from /repo's working tree, with its syntax tree changed
at load time.  Nothing in /repo is modified and nothing is cached on disk.

* ``for i in prange(...)`` becomes a call of the simulated parallel loop (sched.prange): the body
  is a closure run once per index by simulated workers; names assigned in the body are private
  to the iteration, scalar reductions are private to the worker and combined at the end, arrays
  are shared - the semantics of numba's parallel loops.
* in mode "full", ``__vy__()`` is called before every statement of every function, and between
  reading and writing shared places (subscripts, attributes, globals).  These calls are the only
  points at which the simulator can switch threads or interrupt the code.
* the builtin ``id`` is replaced by sched.sim_id, so that reuse of addresses is controlled.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys

from . import sched

REPO = "/repo"
PKG = "building3d"


def is_prange_for(node):
    if not isinstance(node, ast.For) or not isinstance(node.iter, ast.Call):
        return False
    f = node.iter.func
    return (isinstance(f, ast.Name) and f.id == "prange") or (
        isinstance(f, ast.Attribute) and f.attr == "prange"
    )


class Stores(ast.NodeVisitor):
    """Names stored in a list of statements, not looking into nested functions."""

    def __init__(self):
        self.plain = set()
        self.aug = {}
        self.selfmm = {}
        self.bad = False

    def run(self, stmts):
        for s in stmts:
            self.visit(s)
        return self

    def visit_FunctionDef(self, n):
        self.plain.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.aug.setdefault(n.target.id, type(n.op))
        self.visit(n.value)

    def visit_Assign(self, n):
        if (
            len(n.targets) == 1
            and isinstance(n.targets[0], ast.Name)
            and isinstance(n.value, ast.Call)
            and isinstance(n.value.func, ast.Name)
            and n.value.func.id in ("min", "max")
            and any(isinstance(a, ast.Name) and a.id == n.targets[0].id for a in n.value.args)
        ):
            self.selfmm[n.targets[0].id] = n.value.func.id
            self.visit(n.value)
            return
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.plain.add(n.id)

    def visit_Return(self, n):
        self.bad = True

    def visit_Yield(self, n):
        self.bad = True


class ContinueToReturn(ast.NodeTransformer):
    """`continue` of the parallel loop itself becomes `return`; `break` of it is not allowed."""

    def __init__(self):
        self.bad = False

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_AsyncFor = visit_For

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)

    def visit_Break(self, n):
        self.bad = True
        return n


class RenameReductions(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            return ast.copy_location(
                ast.Subscript(
                    value=ast.Name(id="__vred", ctx=ast.Load()),
                    slice=ast.Constant(n.id),
                    ctx=n.ctx,
                ),
                n,
            )
        return n


class InnerPrange(ast.NodeTransformer):
    """Nested parallel loops run serially, as in numba."""

    def visit_For(self, n):
        self.generic_visit(n)
        if is_prange_for(n):
            n.iter.func = ast.copy_location(ast.Name(id="range", ctx=ast.Load()), n.iter)
        return n


class LowerPrange(ast.NodeTransformer):
    def __init__(self):
        self.count = 0
        self.fn = []
        self.lowered = 0

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_For(self, n):
        if not is_prange_for(n) or not self.fn or n.orelse:
            self.generic_visit(n)
            return n
        if not isinstance(n.target, ast.Name):
            return n
        body = [InnerPrange().visit(s) for s in n.body]
        c2r = ContinueToReturn()
        st = Stores().run(body)
        body = [c2r.visit(s) for s in body]
        if st.bad or c2r.bad:
            return n
        outer = Stores()
        fn = self.fn[-1]
        for s in ast.walk(fn):
            pass
        bound = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        inside = set(map(id, ast.walk(n)))
        for s in ast.walk(fn):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store) and id(s) not in inside:
                bound.add(s.id)
        red = {}
        for name, op in st.aug.items():
            if name in bound and name not in st.plain and name not in st.selfmm:
                red[name] = op.__name__
        for name, f in st.selfmm.items():
            if name in bound and name not in st.plain and name not in st.aug:
                red[name] = f
        private = (st.plain | set(st.aug) | set(st.selfmm)) - set(red) - {n.target.id}
        first = sorted(private & bound)
        body = [RenameReductions(set(red)).visit(s) for s in body]
        k = self.count
        self.count += 1
        bname, lname = f"__vbody{k}", f"__vloc{k}"
        prologue = []
        if first:
            for name in first:
                prologue += ast.parse(f"if {name!r} in {lname}:\n    {name} = {lname}[{name!r}]").body
        fdef = ast.FunctionDef(
            name=bname,
            args=ast.arguments(
                posonlyargs=[],
                args=[ast.arg(arg=n.target.id), ast.arg(arg="__vred")],
                kwonlyargs=[],
                kw_defaults=[],
                defaults=[],
            ),
            body=prologue + body,
            decorator_list=[],
            type_params=[],
        )
        out = []
        out += ast.parse(f"{lname} = dict(locals())").body
        out.append(fdef)
        reds = "{" + ", ".join(f"{r!r}: ({op!r}, {r})" for r, op in sorted(red.items())) + "}"
        call = ast.parse(f"__vres = __vprange__({bname}, None, {reds})").body[0]
        call.value.args[1] = ast.Tuple(elts=list(n.iter.args), ctx=ast.Load())
        out.append(call)
        for r in sorted(red):
            out += ast.parse(f"{r} = __vres[{r!r}]").body
        for s in out:
            for x in ast.walk(s):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, n)
        self.lowered += 1
        return out


def vy_stmt(kind, at):
    s = ast.Expr(
        value=ast.Call(
            func=ast.Name(id="__vy__", ctx=ast.Load()),
            args=[ast.Constant(kind)] if kind else [],
            keywords=[],
        )
    )
    ast.copy_location(s, at)
    return s


class Yields(ast.NodeTransformer):
    """Insert scheduling points into function bodies."""

    def __init__(self):
        self.depth = 0
        self.tmp = 0
        self.globals = [set()]

    def visit_FunctionDef(self, n):
        self.depth += 1
        g = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                g |= set(x.names)
        self.globals.append(g)
        head = []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            head, body = body[:1], body[1:]
        n.body = head + self.block(body) or n.body
        self.globals.pop()
        self.depth -= 1
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
                out.append(s)
                continue
            if not (isinstance(s, ast.FunctionDef) and s.name.startswith("__vbody")):
                out.append(vy_stmt(0, s))
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_visit(self, n):
        if self.depth == 0:
            return super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        for h in getattr(n, "handlers", []):
            h.body = self.block(h.body)
        for c in getattr(n, "cases", []):
            c.body = self.block(c.body)
        return n

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        n.body = [self.visit(s) for s in n.body]
        self.depth = d
        return n

    def shared(self, t):
        return isinstance(t, (ast.Subscript, ast.Attribute)) or (
            isinstance(t, ast.Name) and t.id in self.globals[-1]
        )

    def name(self, what):
        self.tmp += 1
        return f"__v{what}{self.tmp}"

    def visit_Assign(self, n):
        if self.depth == 0 or not any(self.shared(t) for t in n.targets):
            return n
        v = self.name("v")
        a = ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=n.value)
        ast.copy_location(a, n)
        ast.fix_missing_locations(a)
        n.value = ast.copy_location(ast.Name(id=v, ctx=ast.Load()), n)
        return [a, vy_stmt(1, n), n]

    def visit_AugAssign(self, n):
        if self.depth == 0 or not self.shared(n.target):
            return n
        t = n.target
        v = self.name("v")
        out = []

        def assign(name, value):
            a = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=value)
            ast.copy_location(a, n)
            ast.fix_missing_locations(a)
            out.append(a)

        if isinstance(t, ast.Name):
            assign(v, ast.Name(id=t.id, ctx=ast.Load()))
            tgt = ast.Name(id=t.id, ctx=ast.Store())
        elif isinstance(t, ast.Attribute):
            o = self.name("o")
            assign(o, t.value)
            assign(v, ast.Attribute(value=ast.Name(id=o, ctx=ast.Load()), attr=t.attr, ctx=ast.Load()))
            tgt = ast.Attribute(value=ast.Name(id=o, ctx=ast.Load()), attr=t.attr, ctx=ast.Store())
        else:
            o, i = self.name("o"), self.name("i")
            assign(o, t.value)
            if isinstance(t.slice, (ast.Slice, ast.Tuple)):
                idx = t.slice
            else:
                assign(i, t.slice)
                idx = ast.Name(id=i, ctx=ast.Load())
            assign(v, ast.Subscript(value=ast.Name(id=o, ctx=ast.Load()), slice=idx, ctx=ast.Load()))
            tgt = ast.Subscript(value=ast.Name(id=o, ctx=ast.Load()), slice=idx, ctx=ast.Store())
        out.append(vy_stmt(1, n))
        aug = ast.AugAssign(target=ast.Name(id=v, ctx=ast.Store()), op=n.op, value=n.value)
        ast.copy_location(aug, n)
        out.append(aug)
        out.append(vy_stmt(1, n))
        fin = ast.Assign(targets=[tgt], value=ast.Name(id=v, ctx=ast.Load()))
        ast.copy_location(fin, n)
        out.append(fin)
        for s in out:
            ast.fix_missing_locations(s)
        return out


def transform(source, path, mode):
    tree = ast.parse(source, path)
    lp = LowerPrange()
    tree = lp.visit(tree)
    if mode == "full":
        tree = Yields().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True), lp.lowered


class Loader(importlib.machinery.SourceFileLoader):
    mode = "prange"
    parallel_loops = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            data = f.read()
        code, n = transform(data, path, self.mode)
        if n:
            Loader.parallel_loops[fullname] = n
        return code

    def exec_module(self, module):
        module.__dict__["__vy__"] = sched.vy
        module.__dict__["__vprange__"] = sched.prange
        module.__dict__["id"] = sched.sim_id
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        search = [REPO] if path is None else path
        spec = importlib.machinery.PathFinder.find_spec(fullname, search)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        loader = Loader(fullname, spec.origin)
        return importlib.util.spec_from_file_location(
            fullname, spec.origin, loader=loader,
            submodule_search_locations=spec.submodule_search_locations,
        )


def install(mode):
    """mode: "off" (plain import), "prange" (parallel loops only) or "full"."""
    assert mode in ("off", "prange", "full")
    assert PKG not in sys.modules
    sys.path.insert(0, REPO)
    if mode != "off":
        Loader.mode = mode
        sys.meta_path.insert(0, Finder())
