"""Symbolic interpreter for the Python subset (see engine.py)."""
import ast
import os
import builtins
import math
import z3
from .engine import *
from .engine import _Return, _Break, _Continue, _Yielded


class NeedPick(Exception):
    """A generator contains a loop over a symbolic sequence."""


class CtxGen:
    """Result of calling a @contextmanager generator function."""

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class PropVal:
    def __init__(self, func):
        self.func = func


class ClassMeth:
    def __init__(self, func):
        self.func = func


class StaticMeth:
    def __init__(self, func):
        self.func = func


class CmFunc:
    """Function decorated with contextlib.contextmanager."""

    def __init__(self, func):
        self.func = func


HOST_EXC = {
    n: getattr(builtins, n)
    for n in dir(builtins)
    if isinstance(getattr(builtins, n), type)
    and issubclass(getattr(builtins, n), BaseException)
}


class TimeoutException(Exception):
    pass


class QueueEmpty(Exception):
    pass


class NoSuchProcess(Exception):
    pass


class StructError(Exception):
    pass


EXTERNAL_EXC = {
    "stopit.TimeoutException": TimeoutException,
    "stopit.utils.TimeoutException": TimeoutException,
    "queue.Empty": QueueEmpty,
    "psutil.NoSuchProcess": NoSuchProcess,
    "struct.error": StructError,
}


_KNOWN = None


def known_functions():
    global _KNOWN
    if _KNOWN is None:
        with open(os.path.join(os.path.dirname(__file__), "known_functions.txt")) as fh:
            _KNOWN = set(fh.read().split())
    return _KNOWN


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        ctx.interp = self
        self.fn_stack = []
        from . import lib

        self.builtins = lib.make_builtins(self)
        self.lib = lib

    # ------------------------------------------------------------------ modules
    def get_module(self, name):
        return self.ctx.world.module(name)

    def module_attr(self, mod, name):
        key = (mod.name, name)
        cache = self.ctx.module_cache
        if key in cache:
            return cache[key]
        if key in self.ctx.env_hooks:
            v = self.ctx.env_hooks[key]
            cache[key] = v
            return v
        d = mod.defs.get(name)
        if d is None:
            sub = f"{mod.name}.{name}"
            if self.ctx.world.is_repo_module(sub):
                return self.get_module(sub)
            if name == "__name__":
                return mod.name
            raise KeyError(name)
        env = Env(module=mod)
        if isinstance(d, ast.FunctionDef):
            v = self.make_function(d, mod, env, f"{mod.name}.{d.name}")
        elif isinstance(d, ast.ClassDef):
            v = self.make_class(d, mod, env)
        elif d[0] == "import":
            a = d[1]
            full = a.name if a.asname else a.name.split(".")[0]
            v = self.import_module(full)
        elif d[0] == "from":
            n, a = d[1], d[2]
            base = n.module or ""
            if n.level:
                parts = mod.name.split(".")
                is_pkg = mod.path.endswith("__init__.py")
                up = n.level - (1 if is_pkg else 0)
                parts = parts[: len(parts) - up] if up else parts
                base = ".".join(parts + ([n.module] if n.module else []))
            v = self.import_from(base, a.name)
        else:
            v = self.eval(d[1], env)
        cache[key] = v
        return v

    def import_module(self, full):
        if self.ctx.world.is_repo_module(full):
            return self.get_module(full)
        return External(full)

    def import_from(self, base, name):
        if self.ctx.world.is_repo_module(base):
            m = self.get_module(base)
            try:
                return self.module_attr(m, name)
            except KeyError:
                raise Unsupported(f"cannot import {name} from {base}")
        return self.external(f"{base}.{name}")

    def external(self, path):
        if path in EXTERNAL_EXC:
            return EXTERNAL_EXC[path]
        v = self.ctx.externals.get(path)
        if v is not None:
            if callable(v) and not isinstance(v, (Model, ClassVal, type)):
                return Builtin(path, v)
            return v
        return External(path)

    def make_function(self, node, mod, env, qualname, cls=None):
        defaults = [self.eval(d, env) for d in node.args.defaults]
        kwd = {
            a.arg: self.eval(d, env)
            for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults)
            if d is not None
        }
        f = FuncVal(node, mod, env, qualname, defaults, kwd)
        f.cls = cls
        v = f
        for dec in reversed(getattr(node, "decorator_list", [])):
            name = dec.attr if isinstance(dec, ast.Attribute) else getattr(dec, "id", None)
            if name == "property":
                v = PropVal(f)
            elif name == "classmethod":
                v = ClassMeth(f)
            elif name == "staticmethod":
                v = StaticMeth(f)
            elif name == "contextmanager":
                v = CmFunc(f)
            elif name in ("abstractmethod", "wraps", "lru_cache", "cached_property"):
                v = PropVal(f) if name == "cached_property" else v
            else:
                raise Unsupported(f"decorator {ast.dump(dec)} on {qualname}")
        return v

    def make_class(self, node, mod, env):
        key = ("class", mod.name, node.name)
        if key in self.ctx.module_cache:
            return self.ctx.module_cache[key]
        bases = []
        for b in node.bases:
            try:
                bases.append(self.eval(b, env))
            except (Unsupported, PyRaise):
                bases.append(External("?"))
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in bases):
            c = type(node.name, tuple(b for b in bases if isinstance(b, type)), {})
            self.ctx.module_cache[key] = c
            return c
        c = ClassVal(node.name, mod, node, bases)
        self.ctx.module_cache[key] = c
        is_nt = any(isinstance(b, External) and b.path.endswith("NamedTuple") for b in bases)
        is_enum = any(isinstance(b, External) and b.path == "enum.Enum" for b in bases)
        cenv = Env(parent=env, module=mod)
        if is_nt:
            c.nt_fields = []
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                v = self.make_function(n, mod, cenv, f"{mod.name}.{node.name}.{n.name}", c)
                c.attrs[n.name] = v
                cenv.set(n.name, v)
            elif isinstance(n, ast.AnnAssign):
                if is_nt:
                    d = self.eval(n.value, cenv) if n.value is not None else None
                    c.nt_fields.append((n.target.id, n.value is not None, d))
                elif n.value is not None:
                    v = self.eval(n.value, cenv)
                    if is_enum:
                        v = Inst(c, {"value": v, "name": n.target.id}, label=n.target.id)
                    c.attrs[n.target.id] = v
            elif isinstance(n, ast.Assign):
                v = self.eval(n.value, cenv)
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if is_enum:
                            v = Inst(c, {"value": v, "name": t.id}, label=t.id)
                        c.attrs[t.id] = v
                        cenv.set(t.id, v)
        return c

    def get(self, qualname):
        """Look up 'gama.x.y.Class.method' in the repository source."""
        parts = qualname.split(".")
        for i in range(len(parts), 0, -1):
            modname = ".".join(parts[:i])
            if self.ctx.world.is_repo_module(modname):
                v = self.get_module(modname)
                for p in parts[i:]:
                    if isinstance(v, ModuleVal):
                        try:
                            v = self.module_attr(v, p)
                        except KeyError:
                            raise Unsupported(f"{qualname} not found in the source")
                    elif isinstance(v, ClassVal):
                        r = v.lookup(p)
                        if r is None:
                            raise Unsupported(f"{qualname} not found in the source")
                        v = r[0]
                    else:
                        raise Unsupported(f"{qualname} not found")
                if isinstance(v, (PropVal, ClassMeth, StaticMeth, CmFunc)):
                    return v.func
                return v
        raise Unsupported(f"{qualname} not found")

    def define(self, src, name, module="gama.gama"):
        """A driver function of a proof (not code of the repository), e.g. to use a context manager."""
        tree = ast.parse(src)
        mod = self.get_module(module)
        env = Env(module=mod)
        node = next(n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == name)
        return self.make_function(node, mod, env, f"driver.{name}")

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None, node=None):
        ctx = self.ctx
        kwargs = kwargs or {}
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, BoundMethod):
            fn = f.func
            if isinstance(fn, CmFunc):
                return CtxGen(fn.func, [f.self_] + list(args), kwargs)
            return self.call(fn, [f.self_] + list(args), kwargs)
        if isinstance(f, CmFunc):
            return CtxGen(f.func, list(args), kwargs)
        if isinstance(f, (StaticMeth, ClassMeth)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(ctx, *args, **kwargs)
        if isinstance(f, PartialVal):
            return self.call(f.func, f.args + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, ClassVal):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f, args)
        if isinstance(f, External):
            h = ctx.externals.get(f.path)
            if h is not None:
                return h(ctx, *args, **kwargs)
            ctx.assumption(f"call of {f.path}: unmodelled, assumed free of side effects on the verified state")
            return Opaque(f"{f.path}()")
        if isinstance(f, Opaque):
            ctx.assumption(f"call of {f.what}: unmodelled, assumed free of side effects on the verified state")
            return Opaque(f"{f.what}()")
        if isinstance(f, (Inst, Obj)):
            cls = f.cls if isinstance(f, Inst) else f.fam.cls
            r = cls.lookup("__call__") if isinstance(cls, ClassVal) else None
            if r:
                return self.call(BoundMethod(r[0], f), args, kwargs)
        if isinstance(f, Model) and hasattr(f, "py_call"):
            return f.py_call(ctx, *args, **kwargs)
        if isinstance(f, Undefined):
            raise Unsupported(f"read of {f.name} after a loop cut")
        raise Unsupported(f"call of {f!r}")

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            self.ctx.raise_(TypeError, f"too many arguments for {f.qualname}")
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        kw = {}
        allnames = names + [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in allnames:
                if k in out:
                    self.ctx.raise_(TypeError, f"multiple values for {k}")
                out[k] = v
            else:
                kw[k] = v
        if a.kwarg:
            out[a.kwarg.arg] = DictObj(list(kw.items()))
        elif kw:
            self.ctx.raise_(TypeError, f"unexpected keyword {list(kw)} for {f.qualname}")
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    self.ctx.raise_(TypeError, f"missing argument {n} of {f.qualname}")
        for p in a.kwonlyargs:
            if p.arg not in out:
                if p.arg in f.kw_defaults:
                    out[p.arg] = f.kw_defaults[p.arg]
                else:
                    self.ctx.raise_(TypeError, f"missing argument {p.arg} of {f.qualname}")
        return out

    def call_func(self, f, args, kwargs, force_inline=False):
        ctx = self.ctx
        bound = self.bind(f, args, kwargs)
        c = ctx.contracts.get(f.qualname)
        if c is not None and not force_inline:
            return c(ctx, bound)
        if f.qualname.startswith("gama."):
            ctx.result.functions.add(f.qualname)
        ctx.call_depth += 1
        if ctx.call_depth > 60:
            raise Unsupported("recursion too deep")
        try:
            env = Env(parent=f.env, module=f.module)
            env.vars.update(bound)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            env.func = f
            if f.is_gen:
                return self.call_generator(f, env)
            self.fn_stack.append(f)
            try:
                self.exec_block(f.node.body, env)
                return None
            except _Return as r:
                return r.value
            finally:
                self.fn_stack.pop()
        finally:
            ctx.call_depth -= 1

    def call_generator(self, f, env):
        ctx = self.ctx
        snap = dict(env.vars)
        out = []

        def collect(v):
            out.append(v)

        ctx.yield_stack.append(("collect", collect))
        self.fn_stack.append(f)
        try:
            self.exec_block(f.node.body, env)
        except _Return:
            pass
        except NeedPick:
            birth = ctx.clock()

            def pick(c):
                c.check_lazy(birth)
                e = Env(parent=f.env, module=f.module)
                e.vars.update(snap)
                c.yield_stack.append(("pick", None))
                self.fn_stack.append(f)
                try:
                    self.exec_block(f.node.body, e)
                except _Yielded as y:
                    return y.value
                except _Return:
                    pass
                finally:
                    self.fn_stack.pop()
                    c.yield_stack.pop()
                raise PathAbort()

            ctx.yield_stack.pop()
            self.fn_stack.pop()
            try:
                def never(c):
                    """No element is produced: quantified over all iterations of the loops."""
                    c.check_lazy(birth)
                    e = Env(parent=f.env, module=f.module)
                    e.vars.update(snap)

                    def body():
                        facts = []
                        c.yield_stack.append(("never", facts))
                        self.fn_stack.append(f)
                        try:
                            self.exec_block(f.node.body, e)
                        except _Yielded:
                            return False
                        except _Return:
                            pass
                        finally:
                            self.fn_stack.pop()
                            c.yield_stack.pop()
                        return z3.And(facts) if facts else True
                    return c.merge(body)

                lst = ListObj(PickC(pick, empty=never), kind="iter")
                lst.birth = birth
                return lst
            finally:
                ctx.yield_stack.append(None)
                self.fn_stack.append(f)
        finally:
            ctx.yield_stack.pop()
            self.fn_stack.pop()
        r = ListObj(Conc(out), kind="iter")
        return r

    def instantiate(self, cls, args, kwargs):
        ctx = self.ctx
        h = ctx.class_hooks.get(cls.qualname)
        if h is not None:
            return h(ctx, *args, **kwargs)
        o = Inst(cls)
        o.birth = ctx.clock()
        if cls.nt_fields is not None:
            vals = list(args)
            if len(vals) > len(cls.nt_fields):
                ctx.raise_(TypeError, "too many fields")
            for i, (n, has_d, d) in enumerate(cls.nt_fields):
                if i < len(vals):
                    o.attrs[n] = vals[i]
                elif n in kwargs:
                    o.attrs[n] = kwargs[n]
                elif has_d:
                    o.attrs[n] = d
                else:
                    ctx.raise_(TypeError, f"missing field {n}")
            unknown = set(kwargs) - {n for n, _, _ in cls.nt_fields}
            if unknown:
                ctx.raise_(TypeError, f"unexpected {unknown}")
            return o
        r = cls.lookup("__init__")
        if r:
            self.call(r[0], [o] + list(args), kwargs)
        elif args or kwargs:
            if any(isinstance(b, External) for b in cls.bases):
                ctx.note(f"{cls.qualname}: constructor of an external base class")
        return o

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        ctx = self.ctx
        if isinstance(o, Inst):
            for b, field in ctx.__dict__.get("lazy_bad", ()):
                if b is o and field == name:
                    raise Unsupported("comprehension evaluated after a mutation")
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Undefined):
                    raise Unsupported(f"read of {v.name} after a loop cut")
                return v
            if isinstance(o.cls, ClassVal):
                return self.class_attr(o, o.cls, name)
            if name == "__class__":
                return o.cls
            raise Unsupported(f"attribute {name} of {o}")
        if isinstance(o, Obj):
            w = o.fam.writes.get(name)
            if w:
                for idx, val in reversed(w):
                    if ctx.branch(self.idx_eq(o.idx, idx)):
                        return val
            f = o.fam.fields.get(name)
            if f is not None:
                return f(ctx, o.idx)
            return self.class_attr(o, o.fam.cls, name)
        if isinstance(o, Term) and name == "__class__" and o.schema is not None and o.schema.cls is not None:
            return o.schema.cls
        if isinstance(o, Term):
            if o.schema is not None:
                f = o.schema.attrs.get(name)
                if f is not None:
                    return f(ctx, o.expr)
                if isinstance(o.schema.cls, ClassVal):
                    return self.class_attr(o, o.schema.cls, name)
            if name in ("__str__", "lower", "split", "strip", "format", "endswith", "startswith"):
                return Opaque(f"{o}.{name}")
            raise Unsupported(f"attribute {name} of {o}")
        if isinstance(o, ModuleVal):
            try:
                return self.module_attr(o, name)
            except KeyError:
                raise Unsupported(f"{o.name}.{name}")
        if isinstance(o, External):
            return self.external(f"{o.path}.{name}")
        if isinstance(o, Model):
            return o.py_getattr(ctx, name)
        if isinstance(o, Opaque):
            if name not in o.memo:
                o.memo[name] = Opaque(f"{o.what}.{name}")
            return o.memo[name]
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            r = o.lookup(name)
            if r is None:
                ctx.raise_(AttributeError, name)
            v = r[0]
            if isinstance(v, ClassMeth):
                return BoundMethod(v.func, o)
            if isinstance(v, StaticMeth):
                return v.func
            if isinstance(v, PropVal):
                return v
            return v
        if isinstance(o, SuperVal):
            for b in o.cls.bases:
                if isinstance(b, ClassVal):
                    r = b.lookup(name)
                    if r:
                        return self.bind_attr(o.self_, r[0], b)
            h = ctx.externals.get("object." + name)
            if name == "__init__":
                return Builtin("object.__init__", lambda c, *a, **k: None)
            raise Unsupported(f"super().{name}")
        if isinstance(o, ExcVal):
            if name == "args":
                return o.args
            return Opaque(f"exception.{name}")
        if isinstance(o, (FuncVal, BoundMethod, PartialVal)):
            if name == "__name__":
                f = o.func if isinstance(o, BoundMethod) else o
                if isinstance(f, FuncVal):
                    return f.qualname.split(".")[-1]
                ctx.raise_(AttributeError, name)
            if isinstance(o, PartialVal) and name in ("func", "args", "keywords"):
                return o.func if name == "func" else Opaque(name)
            if name == "__class__":
                return Opaque("function class")
            ctx.raise_(AttributeError, name)
        if isinstance(o, Undefined):
            raise Unsupported(f"read of {o.name} after a loop cut")
        m = self.lib.method(self, o, name)
        if m is not None:
            return m
        if o is None:
            ctx.raise_(AttributeError, f"'NoneType' object has no attribute '{name}'")
        raise Unsupported(f"attribute {name} of {o!r}")

    def hasattr(self, o, name):
        ctx = self.ctx
        if isinstance(o, (Inst, Obj)):
            cls = o.cls if isinstance(o, Inst) else o.fam.cls
            if isinstance(o, Inst) and name in o.attrs:
                return True
            if isinstance(o, Obj) and (name in o.fam.fields or name in o.fam.writes):
                return True
            return isinstance(cls, ClassVal) and cls.lookup(name) is not None
        if isinstance(o, Term) and o.schema is not None and ("has:" + name) in o.schema.attrs:
            return o.schema.attrs["has:" + name](ctx, o.expr)
        if isinstance(o, Model) and hasattr(o, "py_hasattr"):
            return o.py_hasattr(ctx, name)
        if isinstance(o, Opaque):
            k = "has:" + name
            if k not in o.memo:
                o.memo[k] = ctx.fresh_bool(f"has_{name}")
            return o.memo[k]
        host = {"list": list, "tuple": tuple, "set": set}.get(o.kind) if isinstance(o, ListObj) else dict if isinstance(o, DictObj) else \
            type(o) if isinstance(o, (tuple, str, int, float, bool, type(None))) else None
        if host is not None:
            return hasattr(host, name)
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if issubclass(e.exc.cls, AttributeError):
                return False
            raise

    def idx_eq(self, a, b):
        if isinstance(a, tuple):
            return simp(z3.And([truth(self.idx_eq(x, y)) for x, y in zip(a, b)]))
        return simp(a == b)

    def class_attr(self, o, cls, name):
        if name == "__class__":
            return cls
        r = cls.lookup(name)
        if r is None:
            if name == "__dict__":
                return Opaque("__dict__")
            if isinstance(o, Inst) and any(isinstance(b, External) for b in cls.bases):
                h = self.ctx.externals.get(f"{cls.name}.{name}")
                if h:
                    return Builtin(name, lambda c, *a, **k: h(c, o, *a, **k))
            self.ctx.raise_(AttributeError, f"{cls.name} has no attribute {name}")
        return self.bind_attr(o, r[0], cls)

    def bind_attr(self, o, v, cls):
        if isinstance(v, PropVal):
            return self.call(v.func, [o], {})
        if isinstance(v, (FuncVal, CmFunc)):
            return BoundMethod(v, o)
        if isinstance(v, ClassMeth):
            return BoundMethod(v.func, cls)
        if isinstance(v, StaticMeth):
            return v.func
        return v

    def setattr(self, o, name, value):
        ctx = self.ctx
        if isinstance(o, Inst):
            self.lib.check_mutable(self, o)
            if isinstance(o.cls, ClassVal):
                r = o.cls.lookup(name)
                if r and isinstance(r[0], PropVal):
                    ctx.raise_(AttributeError, f"can't set {name}")
            ctx.log_mut(o, name)
            o.attrs[name] = value
            return
        if isinstance(o, Obj):
            if ctx.pure:
                raise Unsupported("mutation in a pure context")
            ctx.log_mut(o, name)
            o.fam.writes.setdefault(name, []).append((o.idx, value))
            return
        if isinstance(o, Model):
            if ctx.pure:
                raise Unsupported("mutation in a pure context")
            ctx.log_mut(o, name)
            return o.py_setattr(ctx, name, value)
        if isinstance(o, Opaque):
            ctx.note(f"attribute {name} set on {o}")
            o.memo[name] = value
            return
        if isinstance(o, ClassVal):
            o.attrs[name] = value
            ctx.log_mut(o, name)
            return
        raise Unsupported(f"setting {name} on {o!r}")

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.ctx._check_time()
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Import(self, s, env):
        for a in s.names:
            full = a.name if a.asname else a.name.split(".")[0]
            env.set(a.asname or a.name.split(".")[0], self.import_module(full))

    def x_ImportFrom(self, s, env):
        for a in s.names:
            env.set(a.asname or a.name, self.import_from(s.module, a.name))

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            store = lambda v: self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            store = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            store = lambda v: self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment target")
        v = self.eval(s.value, env)
        if isinstance(cur, ListObj) and cur.kind == "list" and isinstance(s.op, ast.Add):
            self.lib.list_extend(self, cur, v)
            store(cur)
            return
        store(self.binop(s.op, cur, v))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            while e is not None and not hasattr(e, "nonlocal_names"):
                e = None
            env.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts) and not isinstance(v, (tuple, Opaque)) and self.content(v).items() is None:
                return self.star_unpack(t, self.content(v), env)
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                after = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    self.ctx.raise_(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, ListObj(vals[k: len(vals) - after]), env)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
            else:
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def star_unpack(self, t, c, env):
        """a, *b, c = sequence of symbolic length"""
        ctx = self.ctx
        n = c.length(ctx)
        k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
        after = len(t.elts) - k - 1
        if not ctx.branch(simp(to_z3(n) >= len(t.elts) - 1)):
            ctx.raise_(ValueError, "not enough values to unpack")
        for i, e in enumerate(t.elts[:k]):
            self.assign(e, c.at(ctx, i), env)
        mid = FnC(simp(to_z3(n) - k - after), lambda cc, i: c.at(cc, simp(to_z3(i) + k)))
        self.assign(t.elts[k].value, self.new_list(mid), env)
        for i, e in enumerate(t.elts[k + 1:]):
            self.assign(e, c.at(ctx, simp(to_z3(n) - after + i)), env)

    def unpack(self, v, n, star=False):
        ctx = self.ctx
        if isinstance(v, Opaque):
            if star:
                raise Unsupported("starred unpack of opaque value")
            return [Opaque(f"{v.what}[{i}]") for i in range(n)]
        if isinstance(v, Inst) and isinstance(v.cls, ClassVal) and v.cls.nt_fields is not None:
            vals = [v.attrs[f] for f, _, _ in v.cls.nt_fields]
        elif isinstance(v, tuple):
            vals = list(v)
        else:
            c = self.content(v)
            vals = c.items()
            if vals is None:
                m = c.length(ctx)
                if star:
                    raise Unsupported("starred unpack of symbolic sequence")
                if not ctx.branch(simp(to_z3(m) == n)):
                    ctx.raise_(ValueError, "wrong number of values to unpack")
                vals = [c.at(ctx, i) for i in range(n)]
        if not star and len(vals) != n:
            ctx.raise_(ValueError, "wrong number of values to unpack")
        return vals

    def x_If(self, s, env):
        if self.ctx.test(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Return(self, s, env):
        raise _Return(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise _Break()

    def x_Continue(self, s, env):
        raise _Continue()

    def x_Assert(self, s, env):
        if not self.ctx.test(self.eval(s.test, env)):
            self.ctx.raise_(AssertionError)

    def x_FunctionDef(self, s, env):
        f = self.make_function(
            s, env_module(env), env, f"{self.cur_qual(env)}.<locals>.{s.name}"
        )
        env.set(s.name, f)

    def cur_qual(self, env):
        e = env
        while e is not None:
            if hasattr(e, "func"):
                return e.func.qualname
            e = e.parent
        return "<module>"

    def x_Global(self, s, env):
        raise Unsupported("global statement")

    def x_Nonlocal(self, s, env):
        raise Unsupported("nonlocal statement")

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                self.lib.delitem(self, o, self.eval_index(t.slice, env))
            else:
                raise Unsupported("delete target")

    def x_Raise(self, s, env):
        ctx = self.ctx
        if s.exc is None:
            if not ctx.exc_stack:
                ctx.raise_(RuntimeError, "no active exception")
            raise PyRaise(ctx.exc_stack[-1])
        e = self.eval(s.exc, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcVal(e)
        if isinstance(e, External):
            ctx.note(f"raise of external class {e.path}")
            e = ExcVal(Exception, (e.path,))
        if isinstance(e, Opaque):
            e = ExcVal(Exception, (e,))
        if not isinstance(e, ExcVal):
            raise Unsupported(f"raise {e!r}")
        raise PyRaise(e)

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as p:
                if not self.handle(s, p, env):
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PathAbort, Unsupported, NeedPick):
            raise
        except (PyRaise, _Return, _Break, _Continue):
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def handle(self, s, p, env):
        for h in s.handlers:
            if h.type is None:
                match = True
            else:
                t = self.eval(h.type, env)
                types = t if isinstance(t, tuple) else (t,)
                match = False
                for ty in types:
                    if isinstance(ty, type) and issubclass(p.exc.cls, ty):
                        match = True
                    elif not isinstance(ty, type):
                        # unmodelled exception class: may or may not match
                        match = match or (
                            issubclass(p.exc.cls, Exception) and False
                        )
            if match:
                if h.name:
                    env.set(h.name, p.exc)
                self.ctx.exc_stack.append(p.exc)
                try:
                    self.exec_block(h.body, env)
                finally:
                    self.ctx.exc_stack.pop()
                return True
        return False

    def x_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.exec_block(body, env)
        it = items[0]
        cm = self.eval(it.context_expr, env)

        def run(value):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, value, env)
            self.with_items(items[1:], body, env)

        self.with_value(cm, run)

    def with_value(self, cm, run):
        ctx = self.ctx
        if isinstance(cm, CtxGen):
            return self.run_ctxgen(cm, run)
        if isinstance(cm, Opaque) or isinstance(cm, External):
            run(Opaque(f"enter {cm}"))
            return
        enter = self.call(self.getattr(cm, "__enter__"), [], {})
        try:
            run(enter)
        except (PathAbort, Unsupported, NeedPick, _Yielded):
            raise
        except PyRaise as p:
            r = self.call(self.getattr(cm, "__exit__"), [p.exc.cls, p.exc, Opaque("tb")], {})
            if ctx.test(r):
                return
            raise
        except (_Return, _Break, _Continue):
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
            raise
        else:
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})

    def run_ctxgen(self, cm, run):
        ctx = self.ctx
        f = cm.func
        bound = self.bind(f, cm.args, cm.kwargs)
        c = ctx.contracts.get(f.qualname)
        if c is not None:
            return self.with_value(c(ctx, bound), run)
        ctx.result.functions.add(f.qualname)
        env = Env(parent=f.env, module=f.module)
        env.vars.update(bound)
        env.func = f
        state = {"signal": None, "count": 0}

        def on_yield(v):
            state["count"] += 1
            if state["count"] > 1:
                raise Unsupported("context manager yields twice")
            frame = ctx.yield_stack.pop()
            fs = self.fn_stack.pop()
            try:
                run(v)
            except (_Return, _Break, _Continue) as sig:
                state["signal"] = sig
            finally:
                ctx.yield_stack.append(frame)
                self.fn_stack.append(fs)

        ctx.yield_stack.append(("cm", on_yield))
        self.fn_stack.append(f)
        try:
            self.exec_block(f.node.body, env)
        except _Return:
            pass
        finally:
            self.fn_stack.pop()
            ctx.yield_stack.pop()
        if state["signal"] is not None:
            raise state["signal"]
        # a generator that swallowed an exception from the body suppresses it

    # ------------------------------------------------------------------ loops
    def within(self):
        """Name of the function executed; a function unknown when the contracts were written (say, an
        extracted helper) counts as part of its caller."""
        for f in reversed(self.fn_stack):
            if f.qualname in known_functions():
                return f.qualname
        return self.fn_stack[-1].qualname if self.fn_stack else None

    def x_For(self, s, env):
        ctx = self.ctx
        it = self.eval(s.iter, env)
        if isinstance(it, ListObj) and it.kind == "set" and not isinstance(it.content, SetC) and it.content.items() is None:
            raise Unsupported("iteration over a set of unknown order")
        for spec in ctx.loop_specs:
            if spec.matches(self, s, it, env):
                spec.used = True
                return spec.run(self, s, it, env)
        content = self.content(it)
        if content.items() is None:
            ctx.result.loose.add(self.within())
        items = content.items()
        mode = ctx.yield_stack[-1] if ctx.yield_stack else None
        if mode and mode[0] == "pick" and _contains_yield(s):
            return self.pick_loop(s, content, env)
        if mode and mode[0] == "never" and items is None and _contains_yield(s):
            return self.never_loop(s, content, env, mode[1])
        if items is not None:
            for v in list(items):
                self.assign(s.target, v, env)
                try:
                    self.exec_block(s.body, env)
                except _Continue:
                    continue
                except _Break:
                    return
            self.exec_block(s.orelse, env)
            return
        if _contains_yield(s):
            raise NeedPick()
        if self.auto_append(s, content, env):
            return
        self.stateless_loop(s, content, env)

    def pick_loop(self, s, content, env):
        """Inside a generator in pick mode: one arbitrary iteration, or none."""
        ctx = self.ctx
        if ctx.choose(2) == 0:
            for n in assigned_names(s.body) | assigned_names([s.target]):
                env.set(n, Undefined(n))
            ctx.assume(truth(content.nonempty(ctx)))
            self.assign(s.target, content.pick(ctx), env)
            try:
                self.exec_block(s.body, env)
            except (_Continue, _Break):
                pass
            raise PathAbort()
        for n in assigned_names(s.body) | assigned_names([s.target]):
            env.set(n, Undefined(n))

    def never_loop(self, s, content, env, facts):
        """Inside a generator in 'never' mode: no iteration yields."""
        ctx = self.ctx
        names = assigned_names(s.body) | assigned_names([s.target])

        def one(c, v):
            def body():
                e = Env(parent=env, module=env.module)
                for n in names:
                    e.vars[n] = Undefined(n)
                inner = []
                c.yield_stack.append(("never", inner))
                try:
                    self.assign(s.target, v, e)
                    self.exec_block(s.body, e)
                except _Continue:
                    pass
                except _Yielded:
                    return False
                except (_Break, _Return):
                    raise Unsupported("generator that ends early")
                finally:
                    c.yield_stack.pop()
                return z3.And(inner) if inner else True
            return c.merge(body)

        facts.append(truth(ctx.forall_elem(content, one)))
        for n in names:
            env.set(n, Undefined(n))

    def auto_append(self, s, content, env):
        """for x in L: [if c:] acc.append(e)   ==   acc += [e for x in L if c]"""
        if s.orelse:
            return False
        conds = []
        body = _effective(s.body)
        while True:
            if len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
                conds.append(body[0].test)
                body = _effective(body[0].body)
                continue
            break
        call = _append_of(body[0]) if len(body) == 1 else None
        if call is None:
            return self.auto_append_body(s, content, env)
        acc = self.eval(call.func.value, env)
        if not isinstance(acc, ListObj) or acc.kind != "list":
            return False
        # the accumulator itself is not read by the elements it is given
        names = {n.id for e in conds + [call.args[0]] for n in ast.walk(e) if isinstance(n, ast.Name)}
        root = call.func.value
        while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
            root = root.value if not isinstance(root, ast.Call) else root.func
        free = isinstance(root, ast.Name) and root.id not in names and not any(env.has(x) and env.get(x) is acc for x in names)
        comp = self.lazy_comp(s.target, conds, call.args[0], content, env, ignore=acc if free else None)
        self.lib.list_extend(self, acc, ListObj(comp, kind="iter"))
        for n in assigned_names([s.target]):
            env.set(n, Undefined(n))
        return True

    def auto_append_body(self, s, content, env):
        """The same for bodies which compute the element by assignments to names, branches and `continue`, and for
        nested loops; what the body assigns is not known afterwards."""
        if len(_effective(s.body)) == 1 and isinstance(_effective(s.body)[0], ast.For):
            return self.auto_append_nested(s, content, env)
        w = _AppendBody()
        if not w.top(_effective(s.body)):
            return False
        acc = self.eval(w.acc, env)
        if not isinstance(acc, ListObj) or acc.kind != "list":
            return False
        root = w.acc
        while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
            root = root.value if not isinstance(root, ast.Call) else root.func
        read = {n.id for x in w.read for n in ast.walk(x) if isinstance(n, ast.Name)}
        if not isinstance(root, ast.Name) or root.id in read or any(env.has(x) and env.get(x) is acc for x in read):
            return False
        assigned = assigned_names(s.body) | assigned_names([s.target])
        mod, qual = env_module(env), self.cur_qual(env)
        e = Env(parent=None, module=mod)
        e.vars.update(snapshot(env))
        e.func = FuncStub(qual)
        for n in assigned:
            e.vars[n] = Undefined(n)
        params = sorted(assigned_names([s.target]))

        def define(name, stmts):
            f = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                                body=stmts, decorator_list=[], returns=None, type_comment=None, type_params=[])
            ast.copy_location(f, s)
            ast.fix_missing_locations(f)
            e.vars[name] = self.make_function(f, mod, e, f"{qual}.<locals>.{name}")
            c = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[ast.Name(id=p, ctx=ast.Load()) for p in params], keywords=[])
            ast.copy_location(c, s)
            ast.fix_missing_locations(c)
            return c
        conds = [define(f"__cond{i}", st) for i, st in enumerate(w.conds)]
        elt = define("__element", w.body)
        comp = self.lazy_comp(s.target, conds, elt, content, e, ignore=acc)
        self.lib.list_extend(self, acc, ListObj(comp, kind="iter"))
        for n in assigned:
            env.set(n, Undefined(n))
        return True

    def auto_append_nested(self, s, content, env):
        """for x in L: for y in f(x): [if c:] acc.append(e)   ==   acc += [e for x in L for y in f(x) if c]"""
        inner = _effective(s.body)[0]
        if inner.orelse:
            return False
        conds, body = [], _effective(inner.body)
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            conds.append(body[0].test)
            body = _effective(body[0].body)
        call = _append_of(body[0]) if len(body) == 1 else None
        if call is None or not isinstance(call.func.value, ast.Name):
            return False
        acc = self.eval(call.func.value, env)
        read = {n.id for x in conds + [call.args[0], inner.iter] for n in ast.walk(x) if isinstance(n, ast.Name)}
        if not isinstance(acc, ListObj) or acc.kind != "list" or any(env.has(x) and env.get(x) is acc for x in read):
            return False
        e = Env(parent=env, module=env.module)
        e.vars["__iterable"] = ListObj(content, kind="iter")
        gens = [ast.comprehension(target=s.target, iter=ast.Name(id="__iterable", ctx=ast.Load()), ifs=[], is_async=0),
                ast.comprehension(target=inner.target, iter=inner.iter, ifs=conds, is_async=0)]
        comp = self.comp(call.args[0], gens, e)
        if isinstance(comp, PickC):
            return False
        self.lib.list_extend(self, acc, ListObj(comp, kind="iter"))
        for n in assigned_names([s.target]) | assigned_names([inner.target]):
            env.set(n, Undefined(n))
        return True

    def stateless_loop(self, s, content, env):
        """A loop whose fall-through iterations have no effect (search loops)."""
        ctx = self.ctx
        names = assigned_names(s.body) | assigned_names([s.target])
        if isinstance(content, (PickC,)):
            raise Unsupported("loop over a generator needs an invariant")
        before = {n: env.vars.get(n) for n in names}

        def undefine(e):
            for n in names:
                e.vars[n] = Undefined(n)

        undefine(env)

        def falls(v):
            e = Env(parent=env, module=env.module)
            undefine(e)
            mark = len(ctx.mutlog)
            self.assign(s.target, v, e)
            try:
                self.exec_block(s.body, e)
                r = True
            except _Continue:
                r = True
            except (_Break, _Return, PyRaise):
                return False
            if len(ctx.mutlog) != mark:
                raise Unsupported("loop with effects needs an invariant")
            return r

        n = None if isinstance(content, (SetC, FilterC)) else content.length(ctx)
        which = ctx.choose(2)
        if which == 0:
            if n is not None:
                k = ctx.fresh_int("k")
                ctx.assume(z3.And(k >= 0, k < n))
                try:
                    ctx.assume(ctx.forall_index(k, lambda i: ctx.merge(lambda: falls(content.at(ctx, i)))))
                except Unsupported as e:
                    ctx.note(f"search loop: earlier iterations not constrained ({e})")
                v = content.at(ctx, k)
            else:
                v = content.pick(ctx)
            self.assign(s.target, v, env)
            mark = len(ctx.mutlog)
            try:
                self.exec_block(s.body, env)
            except _Continue:
                pass
            except _Break:
                return
            if len(ctx.mutlog) != mark:
                raise Unsupported("loop with effects needs an invariant")
            raise PathAbort()
        try:
            ctx.assume(ctx.forall_elem(content, lambda c, v: ctx.merge(lambda: falls(v))))
        except Unsupported as e:
            ctx.note(f"search loop: fall-through not constrained ({e})")
            # still need to know that iterations have no effects: explore one
            if ctx.choose(2) == 0:
                v = content.pick(ctx)
                if falls(v) is False:
                    raise PathAbort()
                raise PathAbort()
        undefine(env)
        self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        ctx = self.ctx
        for spec in ctx.loop_specs:
            if spec.matches(self, s, None, env):
                spec.used = True
                return spec.run(self, s, None, env)
        ctx.result.loose.add(self.within())
        n = 0
        while True:
            if not ctx.test(self.eval(s.test, env)):
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > 16:
                raise Unsupported("while loop needs an invariant")
            try:
                self.exec_block(s.body, env)
            except _Continue:
                continue
            except _Break:
                return

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load_name(e.id, env)

    def load_name(self, name, env):
        try:
            v = env.get(name)
            if isinstance(v, Undefined):
                raise Unsupported(f"read of {v.name} after a loop cut")
            return v
        except KeyError:
            pass
        mod = env_module(env)
        if mod is not None:
            try:
                return self.module_attr(mod, name)
            except KeyError:
                pass
        if name in self.builtins:
            return self.builtins[name]
        if name in HOST_EXC:
            return HOST_EXC[name]
        # a local that is assigned somewhere in this function but not on this path
        e = env
        while e is not None:
            if hasattr(e, "func") and not isinstance(e.func.node, ast.Lambda):
                if name in assigned_names(e.func.node.body):
                    self.ctx.raise_(UnboundLocalError, name)
            e = e.parent
        self.ctx.raise_(NameError, name)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls, self_ = None, None
            x = env
            while x is not None:
                if hasattr(x, "func") and x.func.cls is not None:
                    cls = x.func.cls
                    a = x.func.node.args
                    self_ = x.vars[(a.posonlyargs + a.args)[0].arg]
                    break
                x = x.parent
            return SuperVal(cls, self_)
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            return DictObj([(k, v) for k, v in env.vars.items()])
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                c = self.content(v)
                items = c.items()
                if items is None:
                    raise Unsupported("starred argument of symbolic length")
                args.extend(items)
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, Opaque):
                    raise Unsupported("opaque ** argument")
                if isinstance(v, Model):
                    if isinstance(f, Model) and hasattr(f, "py_call_mapping") and not args and len(e.keywords) == 1:
                        return f.py_call_mapping(self.ctx, v)
                    raise Unsupported("symbolic ** argument")
                for kk, vv in v.pairs:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, node=e)

    def e_Lambda(self, e, env):
        return FuncVal(e, env_module(env), env, f"{self.cur_qual(env)}.<lambda>",
                       [self.eval(d, env) for d in e.args.defaults],
                       {a.arg: self.eval(d, env) for a, d in
                        zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None})

    def e_IfExp(self, e, env):
        if self.ctx.test(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.ctx.branch(self.ctx.truthy(v))
            if isinstance(e.op, ast.And) and not t:
                return v if not is_z3(v) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not (is_z3(v) and z3.is_bool(v)) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.ctx.truthy(v)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        if isinstance(v, Model) and hasattr(v, "py_unary"):
            return v.py_unary(self.ctx, type(e.op).__name__)
        if isinstance(v, Opaque):
            return Opaque(f"-{v.what}")
        if isinstance(e.op, ast.USub):
            return simp(-v) if is_num(v) else self._unsup(f"-{v!r}")
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def _unsup(self, what):
        raise Unsupported(what)

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        result = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.ctx.test(c):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, (External,)) :
            return Opaque(f"{o.path}[]")
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*(self.eval(x, env) if x is not None else None
                           for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def getitem(self, o, k):
        return self.lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.lib.setitem(self, o, k, v)

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                c = self.content(self.eval(x.value, env))
                items = c.items()
                if items is None:
                    raise Unsupported("starred element of symbolic length")
                out.extend(items)
            else:
                out.append(self.eval(x, env))
        return out

    def new_list(self, content, kind="list"):
        l = ListObj(content, kind=kind)
        l.birth = self.ctx.clock()
        return l

    def e_List(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    parts.append(self.content(self.eval(x.value, env)))
                else:
                    parts.append(Conc([self.eval(x, env)]))
            if all(p.items() is not None for p in parts):
                return self.new_list(Conc([v for p in parts for v in p.items()]))
            return self.new_list(Concat(parts))
        return self.new_list(Conc(self._elts(e.elts, env)))

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_Set(self, e, env):
        return self.lib.make_set(self, self._elts(e.elts, env))

    def e_Dict(self, e, env):
        d = DictObj()
        d.birth = self.ctx.clock()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if isinstance(o, Model) and hasattr(o, "py_dict_spread"):
                    d = o.py_dict_spread(self.ctx, d)
                    continue
                if not isinstance(o, DictObj):
                    raise Unsupported(f"** of {o!r}")
                for kk, vv in o.pairs:
                    self.lib.dict_set(self, d, kk, vv)
            else:
                self.lib.dict_set(self, d, self.eval(k, env), self.eval(v, env))
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.eval(v.value, env)
                except Unsupported:
                    parts.append(Opaque("f-string part"))
                    continue
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                    if v.conversion == -1 and isinstance(spec, str) and type(x) in (str, int, float):
                        parts.append(format(x, spec))
                    else:
                        parts.append(Opaque("formatted value"))
                elif v.conversion == 114:
                    if type(x) in (str, int, float, bool, type(None)):
                        parts.append(repr(x))
                    else:
                        parts.append(self.ctx.repr_hook(self.ctx, x) if hasattr(self.ctx, "repr_hook") else Opaque("repr of a value"))
                elif v.conversion == 97:
                    parts.append(Opaque("ascii of a value"))
                elif v.conversion == -1 and isinstance(x, (str, int)) and not isinstance(x, bool):
                    parts.append(str(x))
                else:
                    parts.append(x)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return StrCat(parts)

    def e_FormattedValue(self, e, env):
        return Opaque("formatted")

    def e_Yield(self, e, env):
        ctx = self.ctx
        v = self.eval(e.value, env) if e.value is not None else None
        mode, fn = ctx.yield_stack[-1]
        if mode in ("collect", "cm"):
            fn(v)
            return None
        if mode == "never" or ctx.choose(2) == 0:
            raise _Yielded(v)
        return None

    def e_YieldFrom(self, e, env):
        raise Unsupported("yield from")

    # comprehensions
    def e_ListComp(self, e, env):
        return self.new_list(self.comp(e.elt, e.generators, env))

    def e_GeneratorExp(self, e, env):
        return self.new_list(self.comp(e.elt, e.generators, env), kind="iter")

    def e_SetComp(self, e, env):
        c = self.comp(e.elt, e.generators, env)
        if c.items() is not None:
            return self.lib.make_set(self, c.items())
        return self.new_list(c, kind="set")

    def e_DictComp(self, e, env):
        t = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        c = self.comp(t, e.generators, env)
        if c.items() is None:
            h = getattr(self.ctx, "dict_from_content", None)
            if h is not None:
                return h(self.ctx, c)
            raise Unsupported("dict comprehension over a symbolic sequence")
        d = DictObj()
        d.birth = self.ctx.clock()
        for k, v in c.items():
            self.lib.dict_set(self, d, k, v)
        return d

    def comp(self, elt, gens, env):
        ctx = self.ctx
        first = self.content(self.eval(gens[0].iter, env))
        items = first.items()
        if items is not None:
            out = []
            lazies = []
            for v in items:
                e = Env(parent=env, module=env.module)
                self.assign(gens[0].target, v, e)
                if all(ctx.test(self.eval(c, e)) for c in gens[0].ifs):
                    if len(gens) == 1:
                        out.append(self.eval(elt, e))
                    else:
                        sub = self.comp(elt, gens[1:], e)
                        if sub.items() is None:
                            lazies.append(Conc(out))
                            lazies.append(sub)
                            out = []
                        else:
                            out.extend(sub.items())
            if lazies:
                return Concat(lazies + [Conc(out)])
            return Conc(out)
        if len(gens) == 1:
            return self.lazy_comp(gens[0].target, gens[0].ifs, elt, first, env)
        snap = snapshot(env)
        birth = ctx.clock()
        if len(gens) == 2 and not gens[0].ifs:
            def inner(c, v):
                e = Env(parent=None, module=env_module(env))
                e.vars.update(snap)
                e.func = FuncStub(self.cur_qual(env))
                with c.lazy(birth):
                    self.assign(gens[0].target, v, e)
                    ic = self.content(self.eval(gens[1].iter, e))
                return self.lazy_comp(gens[1].target, gens[1].ifs, elt, ic, e, birth)

            if not gens[1].ifs:
                return FlattenC(first, inner)
        # nested symbolic comprehension: only 'pick' semantics

        def pick(c):
            c.check_lazy(birth)
            e = Env(parent=None, module=env_module(env))
            e.vars.update(snap)
            e.func = getattr(env, "func", None) or FuncStub(self.cur_qual(env))
            v = first.pick(c)
            self.assign(gens[0].target, v, e)
            for cond in gens[0].ifs:
                c.assume(c.test(self.eval(cond, e)))
            sub = self.comp(elt, gens[1:], e)
            c.assume(truth(sub.nonempty(c)) if not isinstance(sub.nonempty(c), bool) else sub.nonempty(c))
            return sub.pick(c)

        return PickC(pick)

    def lazy_comp(self, target, ifs, elt, base, env, birth=None, ignore=None):
        ctx = self.ctx
        snap = snapshot(env)
        birth = ctx.clock() if birth is None else birth
        mod = env_module(env)
        qual = self.cur_qual(env)

        def bindenv(v):
            e = Env(parent=None, module=mod)
            e.vars.update(snap)
            e.func = FuncStub(qual)
            self.assign(target, v, e)
            return e

        def fn(c, v):
            with c.lazy(birth, ignore):
                return self.eval(elt, bindenv(v))

        def pred(c, v):
            with c.lazy(birth, ignore):
                e = bindenv(v)
                for cond in ifs:
                    if not c.test(self.eval(cond, e)):
                        return False
                return True

        ident = isinstance(elt, ast.Name) and isinstance(target, ast.Name) and elt.id == target.id
        if ifs:
            return FilterC(base, pred, None if ident else fn)
        if ident:
            return base
        return MapC(base, fn)

    # ------------------------------------------------------------------ content of a value
    def content(self, v):
        if isinstance(v, ListObj):
            return v.content
        if isinstance(v, (tuple, list)):
            return Conc(v)
        if isinstance(v, range):
            return Conc(list(v))
        if isinstance(v, DictObj):
            return Conc([k for k, _ in v.pairs])
        if isinstance(v, str):
            return Conc(list(v))
        if isinstance(v, Model) and hasattr(v, "py_content"):
            return v.py_content(self.ctx)
        if isinstance(v, Inst) and isinstance(v.cls, ClassVal):
            if v.cls.nt_fields is not None:
                return Conc([v.attrs[f] for f, _, _ in v.cls.nt_fields])
            r = v.cls.lookup("__iter__")
            if r:
                return self.content(self.call(BoundMethod(r[0], v), [], {}))
            ln, gi = v.cls.lookup("__len__"), v.cls.lookup("__getitem__")
            if ln and gi:
                n = self.call(BoundMethod(ln[0], v), [], {})
                return FnC(n, lambda c, i: self.call(BoundMethod(gi[0], v), [i], {}))
        if isinstance(v, ClassVal):
            vals = [x for x in v.attrs.values() if isinstance(x, Inst) and x.cls is v]
            if vals:
                return Conc(vals)
        if isinstance(v, Undefined):
            raise Unsupported(f"read of {v.name} after a loop cut")
        raise Unsupported(f"iteration over {v!r}")


class FuncStub:
    cls = None

    def __init__(self, qualname):
        self.qualname = qualname
        self.node = ast.parse("lambda: 0").body[0].value


def _effective(body):
    return [x for x in body if not (isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]


def _append_of(st):
    """The call, if the statement is `x.append(e)`."""
    c = st.value if isinstance(st, ast.Expr) else None
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and len(c.args) == 1 and not c.keywords:
        return c
    return None


def _plain(st):
    """Assigns names only."""
    if isinstance(st, ast.Assign):
        return all(isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts) for t in st.targets)
    if isinstance(st, ast.AnnAssign):
        return isinstance(st.target, ast.Name) and st.value is not None
    if isinstance(st, ast.If):
        return all(_plain(x) for x in _effective(st.body) + _effective(st.orelse))
    return False


class _AppendBody:
    """A loop body which appends one element or none: as conditions and a function body that returns the element."""

    def __init__(self):
        self.acc, self.conds, self.body, self.read = None, [], None, []

    def top(self, body):
        prefix = []
        for i, st in enumerate(body):
            rest = body[i + 1:]
            if isinstance(st, ast.If) and not st.orelse and len(_effective(st.body)) == 1 and isinstance(_effective(st.body)[0], ast.Continue):
                self.conds.append(prefix + [ast.Return(value=ast.UnaryOp(op=ast.Not(), operand=st.test))])
                self.read.append(st.test)
                continue
            if not rest and isinstance(st, ast.If) and not st.orelse:
                self.conds.append(prefix + [ast.Return(value=st.test)])
                self.read.append(st.test)
                t = self.tail(_effective(st.body))
                if t is None:
                    return False
                self.body = prefix + t
                return True
            if rest and _plain(st):
                prefix = prefix + [st]
                self.read.append(st)
                continue
            t = self.tail(body[i:])
            if t is None:
                return False
            self.body = prefix + t
            return True
        return False

    def tail(self, body):
        """Always appends exactly one element."""
        out = []
        for i, st in enumerate(body):
            rest = body[i + 1:]
            c = _append_of(st)
            if c is not None:
                if rest and not (len(rest) == 1 and isinstance(rest[0], ast.Continue)):
                    return None
                if self.acc is not None and ast.dump(self.acc) != ast.dump(c.func.value):
                    return None
                self.acc = c.func.value
                self.read.append(c.args[0])
                return out + [ast.Return(value=c.args[0])]
            if isinstance(st, ast.If) and not _plain(st):
                self.read.append(st.test)
                a = self.tail(_effective(st.body))
                b = self.tail(_effective(st.orelse) + rest) if not (st.orelse and rest) else None
                if a is None or b is None:
                    return None
                if rest and not isinstance(_effective(st.body)[-1], ast.Continue):
                    return None
                return out + [ast.If(test=st.test, body=a, orelse=b)]
            if not _plain(st):
                return None
            self.read.append(st)
            out.append(st)
        return None


class StrCat:
    """A string with symbolic parts (structural)."""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return f"<str {self.parts}>"


def snapshot(env):
    chain = []
    e = env
    while e is not None:
        chain.append(e)
        e = e.parent
    out = {}
    for e in reversed(chain):
        out.update(e.vars)
    return out


def env_module(env):
    e = env
    while e is not None:
        if e.module is not None:
            return e.module
        e = e.parent
    return None


def _contains_yield(node):
    todo = [node]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


# ------------------------------------------------------------------ Ctx additions
def _clock(self):
    self._clock_n = getattr(self, "_clock_n", 0) + 1
    return self._clock_n


def _log_mut(self, obj, field):
    self.mutlog.append((obj, field, getattr(obj, "birth", 0), self._clock_n if hasattr(self, "_clock_n") else 0))


def _check_lazy(self, birth):
    """A lazily evaluated comprehension may only be read before relevant mutations."""
    for obj, field, obj_birth, when in self.mutlog:
        if when >= birth and obj_birth < birth:
            raise Unsupported("comprehension evaluated after a mutation")


Ctx.clock = _clock
Ctx.log_mut = _log_mut
Ctx.check_lazy = _check_lazy


class _Lazy:
    """Late evaluation of a comprehension: reading an attribute that was assigned since is refused."""

    def __init__(self, ctx, birth, ignore=None):
        self.ctx = ctx
        self.bad, self.lists = [], []
        for obj, field, obj_birth, when in ctx.mutlog:
            if ignore is not None and obj is ignore:
                continue
            if when >= birth and obj_birth < birth:
                if type(obj) is ListObj and field == "content":
                    self.lists.append(obj)
                    continue
                if not isinstance(obj, Inst) or field in ("item", "content"):
                    raise Unsupported("comprehension evaluated after a mutation")
                self.bad.append((obj, field))

    def __enter__(self):
        self.saved = self.ctx.__dict__.get("lazy_bad", [])
        self.ctx.lazy_bad = self.saved + self.bad
        self.saved_lists = ListObj.stale
        ListObj.stale = self.saved_lists + self.lists

    def __exit__(self, *a):
        self.ctx.lazy_bad = self.saved
        ListObj.stale = self.saved_lists


Ctx.lazy = lambda self, birth, ignore=None: _Lazy(self, birth, ignore)
_orig_start = Ctx.start_run


def _start(self, prefix):
    _orig_start(self, prefix)
    self._clock_n = 0
    Interp(self)


Ctx.start_run = _start
