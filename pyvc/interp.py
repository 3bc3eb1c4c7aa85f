"""Symbolic execution of Python ASTs read from the real source files."""
import ast
import builtins as _bi
import inspect
import logging
import types
import z3
from .values import *
from .core import *
from . import models as M

_ast_cache = {}


def _module_ast(path):
    if path not in _ast_cache:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([node.lineno] + [d.lineno for d in node.decorator_list])
                idx[(node.name, line)] = node
            elif isinstance(node, ast.Lambda):
                idx.setdefault(("<lambda>", node.lineno), []).append(node)
        _ast_cache[path] = idx
    return _ast_cache[path]


def func_ast(fn):
    code = fn.__code__
    idx = _module_ast(code.co_filename)
    node = idx.get((code.co_name, code.co_firstlineno))
    if code.co_name == "<lambda>":
        nodes = [n for n in (node or []) if
                 tuple(a.arg for a in n.args.posonlyargs + n.args.args) == code.co_varnames[:code.co_argcount]]
        if len(nodes) != 1:
            raise Unsupported("ambiguous lambda")
        return nodes[0]
    if node is None:
        raise Unsupported(f"no source for {fn.__qualname__}")
    return node


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Frame:
    def __init__(self, e, qualname, globals_, parent=None, closure=None, defcls=None, site=""):
        self.e = e
        self.qualname = qualname
        self.globals = globals_
        self.locals = {}
        self.parent = parent
        self.closure = closure or {}
        self.defcls = defcls
        self.site = site
        self.self_ = None
        self.cur_exc = None


class LoopInfo:
    """What a contract's invariant generator may look at."""

    def __init__(self, e, frame, key, desc, entry_heap, entry_locals):
        self.e, self.frame, self.key, self.desc = e, frame, key, desc
        self.entry_heap, self.entry_locals = entry_heap, entry_locals
        self.idx = None                # int term for list-like iteration
        self.visited = None            # key-set array for dict iteration
        self.src = None                # the List / Dict iterated over

    def heap_at_entry(self, comp):
        self.e.comp(comp)
        return self.entry_heap.get(comp, self.e.heap0[comp])


class Interp:
    def __init__(self, e):
        self.e = e
        e.interp = self

    # ================================================================ calls
    def call(self, f, args=(), kwargs=None, site=""):
        e = self.e
        kwargs = dict(kwargs or {})
        args = list(args)
        if isinstance(f, SVal):
            f = e.force(f)
        if isinstance(f, NativeFn):
            return f.fn(e, *args, **kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kwargs, site)
        if isinstance(f, UserFunc):
            return self.call_user(f, args, kwargs, site)
        if isinstance(f, Opaque):
            return M.opaque_call(e, f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs, site)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs, site)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [e.lift(f.__self__)] + args, kwargs, site)
        if isinstance(f, (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
                          types.BuiltinMethodType)):
            m = M.lookup_builtin(f)
            if m is not None:
                return m(e, *args, **kwargs)
            return M.native_call(e, f, args, kwargs)
        if isinstance(f, (Obj, Ref)):
            c = self.find_attr(f, "__call__")
            if c is not None:
                return self.call(self.bind(c, f), args, kwargs, site)
        if isinstance(f, NativeObj):
            return M.native_obj_call(e, f, args, kwargs)
        if f is None or isinstance(f, (str, int, SStr, SInt, SBool, Dict, List)):
            raise self.exc(TypeError, "not callable")
        raise Unsupported(f"call of {f!r}")

    def call_function(self, f, args, kwargs, site):
        e = self.e
        c = e.run.callee_contract(f)
        if c is not None:
            bound = self.bind_args_py(f, args, kwargs)
            return c(e, bound)
        key = (f.__module__, f.__qualname__)
        m = M.FUNCS.get(key)
        if m is not None:
            return m(e, *args, **kwargs)
        if not self.is_repo(f):
            return M.native_call(e, f, args, kwargs)
        return self.inline(f, args, kwargs, site)

    @staticmethod
    def is_repo(f):
        mod = getattr(f, "__module__", "") or ""
        return mod == "oidcop" or mod.startswith("oidcop.") or mod in ("oidcmsg.item", "oidcmsg.impexp") or \
            mod.startswith("pyvc_selftest")

    def inline(self, f, args, kwargs, site="", rest=None):
        e = self.e
        node = func_ast(f)
        closure = {}
        if f.__closure__:
            for name, cell in zip(f.__code__.co_freevars, f.__closure__):
                if name == "__class__":
                    continue
                closure[name] = cell.cell_contents
        defcls = None
        if f.__closure__ and "__class__" in f.__code__.co_freevars:
            defcls = f.__closure__[f.__code__.co_freevars.index("__class__")].cell_contents
        fr = Frame(e, f.__module__ + ":" + f.__qualname__, f.__globals__, None, closure, defcls, site)
        e.run.inlined.add(f.__module__ + ":" + f.__qualname__)
        nd = len(node.args.defaults)
        defaults = [e.lift(v) for v in (f.__defaults__ or ())]
        kwdefaults = {k: e.lift(v) for k, v in (f.__kwdefaults__ or {}).items()}
        self.bind_params(fr, node.args, args, kwargs, defaults, kwdefaults, f.__name__)
        if rest is not None:
            for k, v in fr.locals[node.args.kwarg.arg].items.items():
                M.dict_store(e, rest, k, v)
            fr.locals[node.args.kwarg.arg] = rest
        if node.args.args:
            fr.self_ = fr.locals.get(node.args.args[0].arg)
        return self.run_body(fr, node)

    def call_kwdict(self, f, args, kwargs, rest, site):
        """Call f with its ** parameter bound to the dict `rest` (plus any further keyword arguments)."""
        e = self.e
        self.kw_rest = rest
        m = M.FUNCS.get((f.__module__, f.__qualname__))
        c = e.run.callee_contract(f)
        if c is not None:
            bound = self.bind_args_py(f, args, kwargs)
            kw = func_ast(f).args.kwarg.arg
            for k, v in bound[kw].items.items():
                M.dict_store(e, rest, k, v)
            bound[kw] = rest
            return c(e, bound)
        if m is not None or not self.is_repo(f):
            raise Unsupported("symbolic keyword arguments of a library function")
        return self.inline(f, args, kwargs, site, rest)

    def call_user(self, uf, args, kwargs, site):
        node = uf.node
        fr = Frame(self.e, uf.frame.qualname + ".<nested>", uf.frame.globals, uf.frame, uf.frame.closure,
                   uf.frame.defcls, site)
        self.bind_params(fr, node.args, args, kwargs, uf.defaults, uf.kwdefaults, "<nested>")
        return self.run_body(fr, node)

    def run_body(self, fr, node):
        e = self.e
        e.depth += 1
        if e.depth > 60:
            e.depth -= 1
            raise Unsupported("recursion without contract")
        e.stack.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
                raise Unsupported("generator function")
            self.block(node.body, fr)
            return None
        except _Return as r:
            return r.v
        finally:
            e.stack.pop()
            e.depth -= 1

    def bind_params(self, fr, a, args, kwargs, defaults, kwdefaults, name):
        e = self.e
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        kwargs = dict(kwargs)
        for p, v in zip(params, args):
            vals[p] = v
        extra = list(args[len(params):])
        if a.vararg:
            fr.locals[a.vararg.arg] = tuple(extra)
        elif extra:
            raise self.exc(TypeError, f"{name}() takes {len(params)} positional arguments")
        for p in params[len(args):] + [k.arg for k in a.kwonlyargs]:
            if p in kwargs:
                vals[p] = kwargs.pop(p)
        for p in params[:len(args)]:
            if p in kwargs and p not in [x.arg for x in a.posonlyargs]:
                raise self.exc(TypeError, f"{name}() got multiple values for argument '{p}'")
        if a.kwarg:
            fr.locals[a.kwarg.arg] = e.born(Dict(dict(kwargs)))
        elif kwargs:
            raise self.exc(TypeError, f"{name}() got an unexpected keyword argument '{list(kwargs)[0]}'")
        dflt = dict(zip(params[len(params) - len(defaults):], defaults)) if defaults else {}
        dflt.update(kwdefaults)
        for p in params + [k.arg for k in a.kwonlyargs]:
            if p not in vals:
                if p in dflt:
                    vals[p] = dflt[p]
                else:
                    raise self.exc(TypeError, f"{name}() missing required argument: '{p}'")
        fr.locals.update(vals)

    def bind_args_py(self, f, args, kwargs):
        """Bind to a dict name->value by the real signature (for contracts)."""
        node = func_ast(f)
        fr = Frame(self.e, "bind", f.__globals__)
        defaults = [self.e.lift(v) for v in (f.__defaults__ or ())]
        kwd = {k: self.e.lift(v) for k, v in (f.__kwdefaults__ or {}).items()}
        self.bind_params(fr, node.args, args, kwargs, defaults, kwd, f.__name__)
        return fr.locals

    # ================================================================ classes, attributes
    def exc(self, cls, *args):
        return PyRaise(Obj(cls, {"args": tuple(args)}))

    def instantiate(self, cls, args, kwargs, site=""):
        e = self.e
        m = M.CLASSES.get((cls.__module__, cls.__qualname__))
        c = e.run.callee_contract(cls)
        if c is not None:
            return c(e, {"args": args, "kwargs": kwargs})
        if m is not None:
            return m(e, *args, **kwargs)
        if issubclass(cls, BaseException):
            o = e.born(Obj(cls, {"args": tuple(args)}))
            init = self.class_attr(cls, "__init__")
            if isinstance(init, types.FunctionType) and self.is_repo(init):
                self.call(init, [o] + list(args), kwargs, site)
            return o
        if M.is_message_class(cls):
            return M.new_message(e, cls, args, kwargs)
        if self.is_repo(cls):
            o = e.born(Obj(cls))
            init = self.class_attr(cls, "__init__")
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kwargs, site)
            return o
        return M.native_call(e, cls, args, kwargs)

    @staticmethod
    def class_attr(cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def find_attr(self, o, name):
        if isinstance(o, Ref):
            subs = self.e.run.subclasses(o.cls)
            groups = {}
            for c in subs:
                a = self.class_attr(c, name)
                groups.setdefault(id(a), (a, []))[1].append(c)
            gs = list(groups.values())
            for a, cl in gs[:-1]:
                if self.e.branch(z3.Or(*[CLS(o.ref) == self.e.run.class_id(c) for c in cl])):
                    return a
            return gs[-1][0]
        return self.class_attr(o.cls, name)

    def bind(self, a, o):
        e = self.e
        if isinstance(a, types.FunctionType):
            return Bound(a, o)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            return Bound(a.__func__, o if isinstance(o, type) else o.cls)
        if isinstance(a, property):
            return self.call(a.fget, [o])
        if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return Bound(a, o)
        return e.lift(a)

    MISSING = object()

    def getattr(self, o, name, default=MISSING):
        e = self.e
        if isinstance(o, SVal):
            o = e.force(o)
        r = self._getattr(o, name)
        if r is self.MISSING:
            if default is not self.MISSING:
                return default
            raise self.exc(AttributeError, f"no attribute '{name}'")
        return r

    def _getattr(self, o, name):
        e = self.e
        if isinstance(o, Obj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if name in o.fields:
                return o.fields[name]
            if o.ref is not None:
                k = e.run.schema_kind(o.cls, name)
                if k is not None:
                    return self.heap_get(o, name, k)
            a = self.class_attr(o.cls, name)
            if a is not None or any(name in c.__dict__ for c in o.cls.__mro__):
                if issubclass(o.cls, BaseException) and name in ("args",):
                    return o.fields.get("args", ())
                return self.bind(a, o)
            if o.default is not None:
                v = o.default(e, o, name)
                if v is not self.MISSING:
                    o.fields[name] = v
                return v
            return self.MISSING
        if isinstance(o, Ref):
            if name == "__class__":
                subs = e.run.subclasses(o.cls)
                for c in subs[:-1]:
                    if e.branch(CLS(o.ref) == e.run.class_id(c)):
                        return c
                return subs[-1]
            have = [c for c in e.run.subclasses(o.cls) if e.run.schema_kind(c, name) is not None]
            if have:
                all_ = e.run.subclasses(o.cls)
                if len(have) < len(all_):
                    if not e.branch(z3.Or(*[CLS(o.ref) == e.run.class_id(c) for c in have])):
                        a = self.find_attr(o, name)
                        return self.MISSING if a is None else self.bind(a, o)
                return self.heap_get(o, name, e.run.schema_kind(have[0], name))
            a = self.find_attr(o, name)
            if a is None:
                return self.MISSING
            return self.bind(a, o)
        if isinstance(o, type):
            if name in ("__name__", "__module__", "__qualname__"):
                return getattr(o, name)
            if any(name in c.__dict__ for c in o.__mro__):
                a = self.class_attr(o, name)
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return Bound(a.__func__, o)
                if isinstance(a, types.FunctionType):
                    return a
                return e.lift(a)
            return self.MISSING
        if isinstance(o, types.ModuleType):
            if hasattr(o, name):
                return e.lift(getattr(o, name))
            return self.MISSING
        if isinstance(o, SuperProxy):
            mro = (o.obj.cls if isinstance(o.obj, (Obj, Dict, Ref)) else o.obj).__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], o.obj)
            return self.MISSING
        if isinstance(o, Opaque):
            return M.opaque_attr(e, o, name)
        m = M.value_attr(e, o, name)
        if m is not M.NOATTR:
            return m
        if isinstance(o, Dict) and o.cls is not None:
            if name == "__class__":
                return o.cls
            if name in getattr(o, "attrs", {}):
                return o.attrs[name]
            a = self.class_attr(o.cls, name)
            if isinstance(a, (types.FunctionType, property, staticmethod, classmethod)):
                if isinstance(a, types.FunctionType) and not self.is_repo(a):
                    key = (a.__module__, a.__qualname__)
                    if e.run.callee_contract(a) is not None:
                        return Bound(a, o)
                    if name == "verify":
                        return NativeFn(lambda e, *x, **k: M.message_verify(e, o), "Message.verify")
                    if key not in M.FUNCS:
                        raise Unsupported(f"Message method {name}")
                return self.bind(a, o)
            if a is not None:
                return e.lift(a)
            return self.MISSING
        if isinstance(o, (UserFunc,)):
            return o.attrs.get(name, self.MISSING)
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)):
            if hasattr(o, name):
                return e.lift(getattr(o, name))
            return self.MISSING
        if name == "__class__":
            return M.py_type(o)
        return self.MISSING

    def heap_get(self, o, name, kind):
        e = self.e
        comp = "F:" + name
        t = e.hread(comp, o.ref)
        s = e.sort_of(kind)
        if s == Val:
            e.assume(e.has_kind(z3.Select(e.heap0[comp], o.ref), kind))
            if e.heap[comp] is not e.heap0[comp]:
                e.assume(e.has_kind(t, kind))
        elif s == IntS and kind is not INT:
            t0 = z3.Select(e.heap0[comp], o.ref)
            e.assume(z3.And(t0 > 0, t0 < FRESH_BASE))
            if e.heap[comp] is not e.heap0[comp]:
                e.assume(t > 0)
        return e.dec_sorted(t, kind)

    def setattr(self, o, name, v):
        e = self.e
        if isinstance(o, SVal):
            o = e.force(o)
        if isinstance(o, Obj):
            sa = self.class_attr(o.cls, "__setattr__")
            if isinstance(sa, types.FunctionType) and self.is_repo(sa) and not e.ghost.get("raw_setattr"):
                self.call(sa, [o, name, v])
                return
            a = self.class_attr(o.cls, name)
            if isinstance(a, property):
                if a.fset is None:
                    raise self.exc(AttributeError, name)
                self.call(a.fset, [o, v])
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, Ref):
            have = [c for c in e.run.subclasses(o.cls) if e.run.schema_kind(c, name) is not None]
            if not have:
                raise Unsupported(f"write of undeclared attribute {name} of {o}")
            kind = e.run.schema_kind(have[0], name)
            e.hwrite("F:" + name, o.ref, e.enc_kind(v, kind, name))
            return
        if isinstance(o, Dict) and o.cls is not None:
            if not hasattr(o, "attrs"):
                o.attrs = {}
            e.native_write(o, "@" + name, v)
            o.attrs[name] = v
            return
        if isinstance(o, UserFunc):
            o.attrs[name] = v
            return
        if isinstance(o, Opaque):
            raise Unsupported(f"write to opaque {o.name}.{name}")
        if o is None or isinstance(o, (str, int, SStr, SInt, SBool)):
            raise self.exc(AttributeError, name)
        raise Unsupported(f"setattr on {o!r}")

    def raw_setattr(self, o, name, v):
        e = self.e
        k = e.run.schema_kind(o.cls, name) if o.ref is not None else None
        if k is not None:
            e.hwrite("F:" + name, o.ref, e.enc_kind(v, k, name))
        else:
            e.native_write(o, name, v)
            o.fields[name] = v

    # ================================================================ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        e = self.e
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {fr.qualname}:{s.lineno}")
        return m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if self.is_log_call(s.value, fr):
            return
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "pop" and len(c.args) == 2 and not c.keywords and self.simple(
                c.func.value) and self.simple(c.args[0]) and isinstance(c.args[1], ast.Constant) and self.discard(
                self.ev(c.func.value, fr), self.ev(c.args[0], fr)):
            return
        self.ev(s.value, fr)

    def is_log_call(self, c, fr):
        """logger.xyz(...): formatting is not part of any property; arguments are not evaluated."""
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
            n = c.func.value.id
            if n not in fr.locals and isinstance(fr.globals.get(n), logging.Logger):
                return True
        return False

    def st_Pass(self, s, fr):
        pass

    def st_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value is not None else None)

    def st_Break(self, s, fr):
        raise _Break()

    def st_Continue(self, s, fr):
        raise _Continue()

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            fr.locals[t.id] = self.aug(cur, s.op, self.ev(s.value, fr))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            if isinstance(o, SVal):
                o = self.e.force(o)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(cur, s.op, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = M.getitem(self.e, o, k)
            M.setitem(self.e, o, k, self.aug(cur, s.op, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, cur, op, v):
        if isinstance(cur, SVal):
            cur = self.e.force(cur)
        if isinstance(cur, List) and isinstance(op, ast.Add):
            M.list_extend(self.e, cur, v)
            return cur
        if isinstance(cur, Dict) and isinstance(op, ast.BitOr):
            M.dict_update(self.e, cur, v)
            return cur
        return M.binop(self.e, op, cur, v)

    def assign(self, t, v, fr):
        e = self.e
        if isinstance(t, ast.Name):
            g = fr
            if t.id in getattr(fr, "nonlocals", ()):
                g = fr.parent
                while g is not None and t.id not in g.locals:
                    g = g.parent
            g.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            M.setitem(e, o, self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                n = len(items) - (len(t.elts) - 1)
                if n < 0:
                    raise self.exc(ValueError, "not enough values to unpack")
                parts = items[:i] + [e.born(List(items[i:i + n]))] + items[i + n:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
            else:
                for x, y in zip(t.elts, items):
                    self.assign(x, y, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star=False):
        e = self.e
        if isinstance(v, SVal):
            v = e.force(v)
        if isinstance(v, (List,)) and not v.native:
            if star:
                raise Unsupported("starred unpacking of a symbolic list")
            ln = z3.Select(e.comp("LLEN"), v.ref)
            if not e.branch(ln == n):
                raise self.exc(ValueError, "unpack length")
            return [M.list_elem(e, v, z3.IntVal(i)) for i in range(n)]
        items = M.concrete_items(e, v)
        if items is None:
            raise Unsupported(f"unpacking {v!r}")
        if not star and len(items) != n:
            raise self.exc(ValueError, "unpack length")
        return items

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                M.delitem(self.e, self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj) and t.attr in o.fields:
                    self.e.native_write(o, t.attr, UNSET)
                    del o.fields[t.attr]
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del target")

    def st_If(self, s, fr):
        t = self.is_discard(s)
        if t is not None and self.discard(self.ev(t.value, fr), self.ev(t.slice, fr)):
            return
        if self.test(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def test(self, node, fr):
        """Branch on a condition; boolean structure is explored left to right like Python does."""
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                return all(self.test(v, fr) for v in node.values)
            return any(self.test(v, fr) for v in node.values)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.test(node.operand, fr)
        v = self.ev(node, fr)
        return self.e.branch(M.truth(self.e, v))

    def st_Assert(self, s, fr):
        if not self.test(s.test, fr):
            raise self.exc(AssertionError)

    def st_Raise(self, s, fr):
        e = self.e
        if s.exc is None:
            f = fr
            while f is not None:
                if f.cur_exc is not None:
                    raise PyRaise(f.cur_exc)
                f = f.parent
            raise Unsupported("bare raise")
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.instantiate(v, [], {})
        if isinstance(v, Obj) and issubclass(v.cls, BaseException):
            raise PyRaise(v)
        raise Unsupported(f"raise {v!r}")

    def discard(self, d, k):
        """removal of a key of a symbolic dictionary, there or not, on one path; False if it is not that simple"""
        e = self.e
        d, k = e.force(d), e.force(k)
        if not isinstance(d, Dict) or d.native or not M.strsort(k):
            return False
        e.hwrite("DDOM", d.ref, z3.Store(M.ddom(e, d), e.str_term(k), False))
        return True

    def simple(self, n):
        """evaluating it twice is evaluating it once"""
        return all(isinstance(x, (ast.Name, ast.Constant, ast.Load)) for x in ast.walk(n))

    def is_discard(self, s):
        """try: del d[k] / except KeyError: pass; or: if k in d: del d[k]"""
        if len(s.body) == 1 and isinstance(s.body[0], ast.Delete) and len(s.body[0].targets) == 1 and not s.orelse:
            t = s.body[0].targets[0]
            if isinstance(t, ast.Subscript) and self.simple(t.value) and self.simple(t.slice):
                if isinstance(s, ast.Try):
                    h = s.handlers
                    ok = len(h) == 1 and not s.finalbody and isinstance(h[0].type, ast.Name) and h[0].type.id == "KeyError" and len(
                        h[0].body) == 1 and isinstance(h[0].body[0], ast.Pass)
                    return t if ok else None
                c = s.test
                if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.In) and ast.dump(c.left) == ast.dump(
                        t.slice) and ast.dump(c.comparators[0]) == ast.dump(t.value):
                    return t
        return None

    def st_Try(self, s, fr):
        t = self.is_discard(s)
        if t is not None and self.discard(self.ev(t.value, fr), self.ev(t.slice, fr)):
            return
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as p:
                self.handle(s, fr, p)
            else:
                self.block(s.orelse, fr)
        except (PathEnd, Restart, Unsupported):
            raise
        except (PyRaise, _Return, _Break, _Continue):
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def handle(self, s, fr, p):
        e = self.e
        for h in s.handlers:
            if h.type is None:
                ok = True
            else:
                t = self.ev(h.type, fr)
                ts = list(t) if isinstance(t, tuple) else [t]
                ok = False
                for c in ts:
                    if not isinstance(c, type):
                        raise Unsupported("except clause")
                    if issubclass(p.obj.cls, c):
                        ok = True
            if ok:
                old = fr.cur_exc
                fr.cur_exc = p.obj
                if h.name:
                    fr.locals[h.name] = p.obj
                try:
                    self.block(h.body, fr)
                finally:
                    fr.cur_exc = old
                    if h.name:
                        fr.locals.pop(h.name, None)
                return
        raise p

    def st_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        fr.locals[s.name] = self.closure(s, fr)

    def closure(self, node, fr):
        d = [self.ev(x, fr) for x in node.args.defaults]
        kd = {a.arg: self.ev(x, fr) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None}
        return UserFunc(node, fr, d, kd)

    def st_Nonlocal(self, s, fr):
        fr.nonlocals = set(getattr(fr, "nonlocals", ())) | set(s.names)

    def st_Global(self, s, fr):
        raise Unsupported("global statement")

    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.locals[a.asname or a.name.split(".")[0]] = m if a.asname else importlib.import_module(
                a.name.split(".")[0])

    def st_ImportFrom(self, s, fr):
        import importlib
        base = s.module or ""
        if s.level:
            pkg = fr.globals.get("__package__") or ""
            base = importlib.util.resolve_name("." * s.level + base, pkg)
        m = importlib.import_module(base)
        for a in s.names:
            fr.locals[a.asname or a.name] = self.e.lift(getattr(m, a.name))

    def st_With(self, s, fr):
        raise Unsupported("with statement")

    # ---------------------------------------------------------------- loops
    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)

        def body(x):
            self.assign(s.target, x, fr)
            self.block(s.body, fr)

        names = assigned_names(s.body) | target_names(s.target)
        key = f"{fr.site}/{fr.qualname}:{s.lineno - self.base_line(fr)}"
        done = self.iterate(it, body, fr, key, names - target_names(s.target))
        if done:
            self.block(s.orelse, fr)

    def base_line(self, fr):
        return 0

    def iterate(self, it, body, fr, key, names):
        """Run body for each element.  Returns True unless a break left the loop."""
        e = self.e
        if isinstance(it, SVal):
            it = e.force(it)
        items = M.concrete_items(e, it)
        if items is not None:
            live = it if isinstance(it, List) and it.native and not it.is_set else None
            i = 0
            while True:
                if live is not None and live.native:
                    if i >= len(live.items):
                        break
                    x = live.items[i]
                else:
                    if i >= len(items):
                        break
                    x = items[i]
                i += 1
                try:
                    body(x)
                except _Continue:
                    pass
                except _Break:
                    return False
                if isinstance(it, Dict) and it.native and len(it.items) != len(items):
                    raise self.exc(RuntimeError, "dictionary changed size during iteration")
            return True
        desc = M.loop_desc(e, it)
        if desc is None:
            raise Unsupported(f"iteration over {it!r}")
        return self.loop_cut(desc, body, fr, key, names)

    def st_While(self, s, fr):
        e = self.e
        names = assigned_names(s.body)
        key = f"{fr.site}/{fr.qualname}:w{s.lineno}"
        # concretely decided loops are simply run
        n = 0
        while True:
            c = M.truth(e, self.ev(s.test, fr)) if not isinstance(s.test, ast.BoolOp) else None
            if c is None:
                break
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
            if not isinstance(c, bool) and n and e.sub is None:
                if e.valid(z3.Not(c)):
                    c = False
                elif e.valid(c):
                    c = True
            if not isinstance(c, bool):
                break
            if not c:
                self.block(s.orelse, fr)
                return
            n += 1
            if n > 50:
                raise Unsupported("while loop without exit")
            try:
                self.block(s.body, fr)
            except _Continue:
                pass
            except _Break:
                return
        desc = M.WhileDesc(lambda: self.test(s.test, fr))
        if self.loop_cut(desc, lambda x: self.block(s.body, fr), fr, key, names):
            self.block(s.orelse, fr)

    def loop_cut(self, desc, body, fr, key, names):
        e = self.e
        run = e.run
        if e.sub is not None:
            raise Unsupported("loop inside a quantified expression")
        if run.unroll is not None:
            return self.loop_unroll(desc, body, fr, key)
        rec = run.loops.get(key)
        if rec is None:
            rec = run.loops[key] = LoopRec()
        L = LoopInfo(e, fr, key, desc, dict(e.heap), dict(fr.locals))
        desc.init(e, L)
        self.check_invs(L, rec, "entry")
        # havoc what the body changes
        limit_born, limit_ref = len(e.cells), e.next_ref
        for comp in sorted(rec.mod_heap):
            e.comp(comp)
            for r2, b2, rl2 in e.loops:
                if comp not in r2.mod_heap:
                    r2.mod_heap.add(comp)
                    raise Restart()
            e.heap[comp] = z3.Const(e.fresh_name(f"loop.{comp}"), e.comp_sort(comp))
        for comp, num in sorted(rec.mod_exact):
            if comp in rec.mod_heap or num > e.next_ref:
                continue
            a = e.comp(comp)
            rng = a.sort().range()
            e.hwrite(comp, z3.IntVal(num), z3.Const(e.fresh_name(f"loop.{comp}@{num}"), rng))
            if comp == "LLEN":
                e.assume(z3.Select(e.heap["LLEN"], z3.IntVal(num)) >= 0)
        for born, fields in list(rec.mod_cells.items()):
            if born < limit_born:
                self.havoc_cell(e.cells[born], fields, rec)
        undef = set()
        for n in sorted(names):
            if n in rec.local_kinds:
                k = rec.local_kinds[n]
                if n in fr.locals:
                    k = e.join(e.kind_of(fr.locals[n]), k)
                fr.locals[n] = self.fresh_local(n, k)
            elif n in fr.locals:
                undef.add(n)
        desc.havoc(e, L)
        self.assume_invs(L, rec)
        if e.choose(2) == 0:
            # an arbitrary iteration
            if not desc.more(e, L):
                raise PathEnd()
            e.loops.append((rec, limit_born, limit_ref))
            entry_vals = {n: fr.locals.get(n, UNSET) for n in names}
            try:
                try:
                    x = desc.element(e, L)
                    body(x)
                except _Continue:
                    pass
            except _Break:
                e.loops.pop()
                return False
            except (PyRaise, _Return):
                e.loops.pop()
                raise
            # locals changed by the body become part of the havoc set
            for n in names:
                if n in fr.locals and fr.locals[n] is not entry_vals[n]:
                    v = fr.locals[n]
                    k = e.kind_of(v)
                    if k is OPAQUE:
                        k = ANY if not isinstance(v, Opaque) else OPAQUE
                    old = rec.local_kinds.get(n)
                    new = k if old is None else e.join(old, k)
                    if old is None or not same_kind(old, new):
                        rec.local_kinds[n] = new
                        raise Restart()
            e.loops.pop()
            desc.step(e, L)
            self.check_invs(L, rec, "preservation")
            raise PathEnd()
        if not desc.exit(e, L):
            raise PathEnd()
        return True

    def fresh_local(self, n, k):
        e = self.e
        if isinstance(k, (ListOf, DictOf)) or k is ANY or isinstance(k, (Opt, Union)):
            t = z3.Const(e.fresh_name(f"loop.{n}"), e.sort_of(k))
            if e.sort_of(k) == Val:
                e.assume(e.has_kind(t, k))
            else:
                e.assume(t > 0)
            return e.dec_sorted(t, k)
        if isinstance(k, RefOf):
            t = z3.Const(e.fresh_name(f"loop.{n}"), IntS)
            e.assume(t > 0)
            return e.dec_ref(t, k)
        return e.fresh(f"loop.{n}", k)

    def havoc_cell(self, c, fields, rec):
        e = self.e
        if isinstance(c, List):
            k = rec.cell_kinds.get((c.born, None))
            own = e.kind_of(c).k
            k = e.join(own, k) if k is not None else own
            if c.native:
                if c.is_set:
                    raise Unsupported("set built in a loop")
                e.to_heap_list(c)
            c.kind = ANY if k is EMPTY else k
            e.hwrite("LLEN", c.ref, z3.Const(e.fresh_name("loop.len"), IntS))
            e.assume(z3.Select(e.heap["LLEN"], c.ref) >= 0)
            e.hwrite("LEL", c.ref, z3.Const(e.fresh_name("loop.elems"), z3.ArraySort(IntS, Val)))
        elif isinstance(c, Dict):
            if c.native:
                k = rec.cell_kinds.get((c.born, None))
                kinds = {n: e.kind_of(x) for n, x in c.items.items()}
                kk = e.join(e.kind_of(c).k, k) if k is not None else e.kind_of(c).k
                if kk is EMPTY:
                    kk = ANY
                e.to_heap_dict(c, DictOf(kk, {}, c.cls))
            e.hwrite("DDOM", c.ref, z3.Const(e.fresh_name("loop.dom"), z3.ArraySort(StrS, BoolS)))
            e.hwrite("DVAL", c.ref, z3.Const(e.fresh_name("loop.vals"), z3.ArraySort(StrS, Val)))
        elif isinstance(c, Obj):
            for f in sorted(x for x in fields if x is not None):
                k = rec.cell_kinds.get((c.born, f))
                if f in c.fields:
                    k = e.join(e.kind_of(c.fields[f]), k)
                if k is None:
                    raise Unsupported("deleted attribute in a loop")
                c.fields[f] = self.fresh_local(f, k)
        else:
            raise Unsupported("cell changed in a loop")

    def candidates(self, L):
        out = list(L.desc.auto_invs(self.e, L))
        gen = self.e.run.contract.inv
        if gen is not None:
            out += list(gen(self.e, L) or [])
        return out

    def check_invs(self, L, rec, when):
        run = self.e.run
        for name, f in self.candidates(L):
            if name in rec.removed:
                continue
            rec.tried.add(name)
            if not self.e.valid(f):
                if not self.e.feasible():
                    raise PathEnd()
                rec.removed.add(name)
                run.changed = True
                run.log(f"candidate {name} dropped at {when} of {L.key}")

    def assume_invs(self, L, rec):
        for name, f in self.candidates(L):
            if name not in rec.removed:
                self.e.assume(f)

    def loop_unroll(self, desc, body, fr, key):
        """Bounded stand-in: at most run.unroll iterations."""
        e = self.e
        L = LoopInfo(e, fr, key, desc, dict(e.heap), dict(fr.locals))
        desc.init(e, L)
        for _ in range(e.run.unroll + 1):
            if not desc.more_branch(e, L):
                return True
            if _ == e.run.unroll:
                raise PathEnd()
            try:
                body(desc.element(e, L))
            except _Continue:
                pass
            except _Break:
                return False
            desc.step(e, L)
        return True

    # ================================================================ expressions
    def ev(self, n, fr):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at {fr.qualname}:{n.lineno}")
        return m(n, fr)

    def ex_Constant(self, n, fr):
        if n.value is Ellipsis or isinstance(n.value, complex):
            raise Unsupported("constant")
        return n.value

    def ex_Name(self, n, fr):
        f = fr
        name = n.id
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            if name in f.closure:
                return self.e.lift(f.closure[name])
            f = f.parent
        if name == "__class__" and fr.defcls is not None:
            return fr.defcls
        if name in fr.globals:
            g = self.e.ghost.get("globals")
            if g and (fr.globals.get("__name__"), name) in g:
                return g[fr.globals["__name__"], name]
            return self.e.lift(fr.globals[name])
        if hasattr(_bi, name):
            return getattr(_bi, name)
        raise self.exc(NameError, name)

    def ex_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def ex_Subscript(self, n, fr):
        return M.getitem(self.e, self.ev(n.value, fr), self.ev(n.slice, fr))

    def ex_Slice(self, n, fr):
        return slice(*[self.ev(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def ex_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def ex_List(self, n, fr):
        return self.e.born(List(self.elts(n.elts, fr)))

    def ex_Set(self, n, fr):
        return M.make_set(self.e, self.elts(n.elts, fr))

    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out += M.must_items(self.e, self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, n, fr):
        d = self.e.born(Dict({}))
        for k, v in zip(n.keys, n.values):
            if k is None:
                M.dict_update(self.e, d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                M.setitem(self.e, d, kk, self.ev(v, fr))
        return d

    def ex_JoinedStr(self, n, fr):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, fr)
                spec = None
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec, fr)
                if spec or x.conversion not in (-1, 115):
                    parts.append(M.opaque_str(self.e, v))
                else:
                    parts.append(M.to_str(self.e, v))
        return M.concat(self.e, parts)

    def ex_FormattedValue(self, n, fr):
        return M.to_str(self.e, self.ev(n.value, fr))

    def ex_Lambda(self, n, fr):
        return self.closure(n, fr)

    def ex_IfExp(self, n, fr):
        return self.ev(n.body, fr) if self.test(n.test, fr) else self.ev(n.orelse, fr)

    def ex_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def ex_BoolOp(self, n, fr):
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.e.branch(M.truth(self.e, v))
            if isinstance(n.op, ast.And) and not t:
                return v if not isinstance(v, SBool) else False
            if isinstance(n.op, ast.Or) and t:
                return v if not isinstance(v, SBool) else True
        return v

    def ex_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            t = M.truth(self.e, self.ev(n.operand, fr))
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        v = self.ev(n.operand, fr)
        if isinstance(v, SVal):
            v = self.e.force(v)
        if isinstance(n.op, ast.USub):
            return -v if isinstance(v, (int, float)) else SInt(-self.e.int_term(v))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def ex_BinOp(self, n, fr):
        return M.binop(self.e, n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def ex_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, fr)
            c = M.compare(self.e, op, left, right)
            if i == len(n.ops) - 1:
                res = c if res is None else res
                if len(n.ops) == 1:
                    return c if isinstance(c, bool) else SBool(c)
                return c if isinstance(c, bool) else SBool(c)
            if not self.e.branch(c):
                return False
            left = right
        return res

    def ex_Call(self, n, fr):
        e = self.e
        if self.is_log_call(n, fr):
            return None
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in fr.locals:
            if n.args:
                c, o = self.ev(n.args[0], fr), self.ev(n.args[1], fr)
            else:
                f = fr
                while f.defcls is None and f.parent is not None:
                    f = f.parent
                c, o = f.defcls, f.self_
            return SuperProxy(c, o)
        f = self.ev(n.func, fr)
        args, kwargs = [], {}
        lazy = M.wants_lazy(f)
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += M.must_items(e, self.ev(a.value, fr))
            elif lazy and isinstance(a, ast.GeneratorExp):
                args.append(GenExp(a, fr))
            else:
                args.append(self.ev(a, fr))
        symbolic_kw = None
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, SVal):
                    v = e.force(v)
                if isinstance(v, DictView):
                    v = v.d
                if isinstance(v, Dict) and v.native:
                    for kk, x in v.items.items():
                        kwargs[kk] = x
                elif isinstance(v, Dict):
                    symbolic_kw = v
                else:
                    raise Unsupported("** of a non-dict")
            else:
                kwargs[k.arg] = v
        site = f"{fr.site}>{n.lineno}" if len(fr.site) < 200 else fr.site
        if symbolic_kw is not None:
            return M.call_with_symbolic_kwargs(e, f, args, kwargs, symbolic_kw, site)
        return self.call(f, args, kwargs, site)

    def ex_Starred(self, n, fr):
        raise Unsupported("starred expression")

    # ---------------------------------------------------------------- comprehensions
    def ex_ListComp(self, n, fr):
        return M.comprehension(self.e, n, fr, "list")

    def ex_GeneratorExp(self, n, fr):
        return M.comprehension(self.e, n, fr, "list")

    def ex_SetComp(self, n, fr):
        return M.comprehension(self.e, n, fr, "set")

    def ex_DictComp(self, n, fr):
        return M.comprehension(self.e, n, fr, "dict")


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.FunctionDef):
                out.add(n.name)
    return out


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
