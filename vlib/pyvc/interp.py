"""Interpreter of the real FIAT source over symbolic values.

Functions are taken from the working tree (the module FIAT is imported from
env.REPO and its source re-parsed on every run).  A call with only concrete
arguments runs natively; a call to a function under contract is replaced by
its contract; any other FIAT callee is executed symbolically in place, so
extracting or inlining helpers changes nothing."""
import ast
import builtins
import gc
import inspect
import itertools
import math
import operator
import os
import re
import types
from fractions import Fraction

import numpy

from vlib import env
from vlib.pyvc import sym, values
from vlib.pyvc.engine import Engine, PathDead
from vlib.pyvc.sym import Rat, SymBool, Unsupported, NotEstablished, band, bor, bnot, sem
from vlib.pyvc.values import (Seq, SDict, SymArr, SymIter, Opaque, Store, symbolic, depends, subst, symrange,
                              as_symarr, sym_dot, segs_len, to_segs, stamp, make_table)

ROOT = os.path.join(os.path.realpath(env.REPO), "FIAT")
_TREES = {}
CREATORS = [numpy.zeros, numpy.ones, numpy.empty, numpy.array, numpy.eye, numpy.zeros_like, numpy.ones_like, numpy.ndarray, numpy.identity, numpy.full]


def module_tree(path):
    if path not in _TREES:
        _TREES[path] = ast.parse(open(path).read(), path)
    return _TREES[path]


def find_node(code):
    path = os.path.realpath(code.co_filename)
    t = module_tree(path)
    best = None
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            line = n.lineno
            if isinstance(n, ast.FunctionDef):
                if n.name != code.co_name:
                    continue
                lines = [line] + [d.lineno for d in n.decorator_list]
                if code.co_firstlineno in lines:
                    return n
            elif code.co_name == "<lambda>" and line == code.co_firstlineno:
                if len(n.args.args) == code.co_argcount:
                    if best is not None:
                        # several lambdas on a line: compare columns
                        pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
                        cols = [p[2] for p in pos if p[0] == line]
                        if cols and n.col_offset > min(cols):
                            continue
                    best = n
    if best is None:
        raise Unsupported("source of %s not found" % code.co_name)
    return best


def in_fiat(fn):
    code = getattr(fn, "__code__", None)
    return code is not None and os.path.realpath(code.co_filename).startswith(ROOT)


class Return(BaseException):
    def __init__(self, v):
        self.v = v


class Break(BaseException):
    pass


class Continue(BaseException):
    pass


class Poison(object):
    def __init__(self, name):
        self.name = name


class Frame(object):
    def __init__(self, fn_name, globs, parent=None, cells=None, cls=None):
        self.locals, self.globs, self.parent, self.cells, self.cls = {}, globs, parent, cells or {}, cls
        self.fn_name = fn_name
        self.globals_decl, self.nonlocals = set(), set()
        self.yields = None
        self.first = None
        self.node = None

    def lookup(self, n):
        f = self
        while f is not None:
            if n in f.locals:
                v = f.locals[n]
                if isinstance(v, Poison):
                    raise NotEstablished("variable %s has no determined value after a symbolic loop" % n)
                return v
            if n in f.cells:
                return f.cells[n]
            f = f.parent
        if n in self.globs:
            return self.globs[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        e = NameError("name %r is not defined" % n)
        f = self
        while f is not None:        # a local variable of the source that is not set on this path
            if f.node is not None and isinstance(f.node, ast.FunctionDef) and n in assigned_names(f.node.body):
                e = sem(UnboundLocalError("local variable %r referenced before assignment" % n))
            f = f.parent
        raise e


class IFun(object):
    """A function defined by interpreted code."""

    def __init__(self, interp, node, frame, defaults, kwdefaults, name, cls=None):
        self.interp, self.node, self.frame = interp, node, frame
        self.defaults, self.kwdefaults, self.__name__, self.cls = defaults, kwdefaults, name, cls

    def __call__(self, *a, **k):
        return self.interp.run_node(self.node, self.frame.globs, a, k, self.defaults, self.kwdefaults,
                                    parent=self.frame, name=self.__name__, cls=self.cls)

    def __get__(self, obj, typ=None):
        return self if obj is None else types.MethodType(self, obj)


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul, ast.BitAnd: operator.and_,
       ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
IBIN = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.FloorDiv: operator.ifloordiv,
        ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.MatMult: operator.imatmul, ast.BitAnd: operator.iand,
        ast.BitOr: operator.ior, ast.BitXor: operator.ixor}


def _has_yield(node):
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


def assigned_names(body, aug=True):
    """Names bound by the statements (aug=False: not by x += y alone)."""
    out = set()

    def tgt(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.AugAssign) and not aug and isinstance(n.target, ast.Name):
            walk(n.value)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return out


def nat(v):
    """Constant terms -> plain numbers, for native calls."""
    if isinstance(v, Rat):
        c = v.concrete()
        if c is None:
            return v
        return c if isinstance(c, int) else float(c)
    if isinstance(v, Seq):
        if v.segs is None:
            return [nat(x) for x in v]
        return v
    if isinstance(v, list):
        return [nat(x) for x in v]
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(nat(x) for x in v)
    if isinstance(v, numpy.ndarray) and v.dtype == object:
        if all(not isinstance(x, Rat) or x.is_const() for x in v.flat):
            try:
                return numpy.array([nat(x) for x in v.flat], dtype=float).reshape(v.shape)
            except (TypeError, ValueError):
                return v
        return v
    return v


def boxed(r):
    """a term as an array without axes, so that numpy works elementwise"""
    a = numpy.empty((), dtype=object)
    a[()] = r
    return a


class Interp(object):
    def __init__(self, eng, exact=True):
        self.eng = eng
        self.exact = exact
        self.contracts = {}         # function object -> stub(interp, args, kwargs)
        self.method_contracts = {}  # (kind, name) for Opaque
        self.templates = []         # callables index -> Rat : candidate loop invariants
        self.force = set()          # functions interpreted even on concrete arguments
        self.native = set()         # functions always run natively
        self.depth = 0
        self.fuel = 0
        self.tables = []
        values.CURRENT["journal"] = eng.journal
        values.CURRENT["table_policy"] = None
        from vlib.pyvc import stubs
        self.stubs = stubs.table(self)

    # ------------------------------------------------------------- functions
    def call(self, f, args, kw):
        if isinstance(f, IFun):
            return f(*args, **kw)
        if isinstance(f, types.MethodType) and isinstance(f.__func__, IFun):
            return f.__func__(f.__self__, *args, **kw)
        fn = f
        if isinstance(f, types.MethodType):
            fn = f.__func__
            margs = (f.__self__,) + tuple(args)
        else:
            margs = tuple(args)
        try:
            c = self.contracts.get(fn)
        except TypeError:
            c = None
        if c is not None:
            return c(self, margs, kw)
        if in_fiat(fn):
            if fn in self.native:
                return f(*[nat(a) for a in args], **{k: nat(v) for k, v in kw.items()})
            if self.exact or fn in self.force or any(symbolic(a) or isinstance(a, (IFun, Rat)) for a in margs) or any(symbolic(a) or isinstance(a, Rat) for a in kw.values()):
                return self.run_function(fn, margs, kw)
            return f(*[nat(a) for a in args], **{k: nat(v) for k, v in kw.items()})
        if isinstance(f, type):
            return self.construct(f, args, kw)
        try:
            s = self.stubs.get(f)
        except TypeError:
            s = None
        if s is not None:
            r = s(*args, **kw)
            if r is not NotImplemented:
                return self.fresh(r) if isinstance(r, numpy.ndarray) and f in CREATORS else r
        # bound methods of builtin / numpy objects
        slf = getattr(f, "__self__", None)
        if isinstance(slf, re.Pattern) and args and getattr(args[0], "_symstore", None) is str:
            from vlib.pyvc import strings
            return strings.match(f.__name__, slf, args[0])
        if isinstance(slf, (Seq, SDict, SymArr, Rat, SymIter, Opaque, str, re.Pattern)) or isinstance(f, Opaque):
            return f(*args, **kw)
        if isinstance(slf, (list, dict, set, tuple)) and not isinstance(slf, types.ModuleType):
            if isinstance(slf, (list, dict)) and self.eng.journal and f.__name__ in ("append", "extend", "insert", "pop", "update", "setdefault", "sort", "remove", "clear"):
                raise Unsupported("a native container is modified in a symbolic loop")
            return f(*args, **kw)
        if isinstance(slf, numpy.ndarray):
            if f.__name__ in ("max", "min") and slf.dtype == object and not args and set(kw) <= {"initial"}:
                xs = list(slf.flat) + list(kw.values())
                if not xs:
                    raise sem(ValueError("zero-size array to reduction operation which has no identity"))
                return self.stubs[builtins.max if f.__name__ == "max" else builtins.min](Seq(xs))
            m = getattr(self, "nd_" + f.__name__, None)
            if m is not None:
                return m(slf, *args, **kw)
            if slf.dtype == object or any(symbolic(a) for a in args):
                if f.__name__ in ("reshape", "transpose", "copy", "flatten", "ravel", "dot", "tolist", "swapaxes", "squeeze", "sum", "item", "view"):
                    args = [numpy.array(self.toobj(a), dtype=object) if isinstance(a, list) and f.__name__ == "dot" else (a.__index__() if isinstance(a, Rat) else a) for a in args]
                    return f(*args, **kw)
                raise Unsupported("array method %s on symbolic contents" % f.__name__)
            return f(*[nat(a) for a in args], **{k: nat(v) for k, v in kw.items()})
        if str(getattr(f, "__module__", "")).startswith("specs.") and isinstance(f, types.FunctionType):
            return f(*args, **kw)       # a contract
        if any(symbolic(a) for a in args) or any(symbolic(a) for a in kw.values()):
            if getattr(f, "__module__", None) in ("builtins", "operator", "itertools", "functools", "_operator", "collections", "copy") or f in SAFE:
                return f(*args, **kw)
            if callable(f) and type(f).__module__.startswith("FIAT"):
                return self.call(f.__call__, args, kw)
            raise Unsupported("no contract for %s" % getattr(f, "__qualname__", f))
        if any(isinstance(a, IFun) for a in args):
            return f(*args, **kw)
        if callable(f) and type(f).__module__.startswith("FIAT"):
            return self.call(f.__call__, args, kw)
        r = f(*[nat(a) for a in args], **{k: nat(v) for k, v in kw.items()})
        return self.fresh(r) if isinstance(r, numpy.ndarray) and f in CREATORS else r

    def toobj(self, a):
        return list(a)

    def fresh(self, obj):
        """obj was created here: the current iteration may modify it"""
        j = self.eng.journal
        if j:
            j[-1]["fresh"].add(id(obj))
            j[-1].setdefault("keep", []).append(obj)
        return obj

    def construct(self, cls, args, kw):
        c = self.contracts.get(cls)
        if c is not None:
            return c(self, tuple(args), kw)
        if cls.__module__.startswith("FIAT"):
            if not self.exact and not any(symbolic(a) or isinstance(a, (IFun, Rat)) for a in list(args) + list(kw.values())):
                return cls(*[nat(a) for a in args], **{k: nat(v) for k, v in kw.items()})
            new = cls.__new__
            if in_fiat(new):
                obj = self.call(new, (cls,) + tuple(args), kw)
            else:
                obj = BaseException.__new__(cls, *[a for a in args if isinstance(a, str)]) if isinstance(cls, type) and issubclass(cls, BaseException) else object.__new__(cls)
                self.fresh(obj)
            if isinstance(obj, cls):
                init = cls.__init__
                if init is not object.__init__:
                    self.call(types.MethodType(init, obj), args, kw)
            return obj
        s = self.stubs.get(cls)
        if s is not None:
            r = s(*args, **kw)
            if r is not NotImplemented:
                return r
        if issubclass(cls, BaseException):
            return cls(*[str(a) for a in args])
        return cls(*[nat(a) for a in args], **{k: nat(v) for k, v in kw.items()})

    def run_function(self, fn, args, kw):
        node = find_node(fn.__code__)
        cells = {}
        for n, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            try:
                cells[n] = c.cell_contents
            except ValueError:
                pass
        nm = fn.__module__.split(".")[-1] + "." + fn.__qualname__
        if nm not in self.eng.functions:
            self.eng.functions.append(nm)
        return self.run_node(node, fn.__globals__, args, kw, fn.__defaults__ or (), fn.__kwdefaults__ or {},
                             cells=cells, name=nm, cls=cells.get("__class__"))

    def run_node(self, node, globs, args, kw, defaults, kwdefaults, parent=None, cells=None, name="?", cls=None):
        fr = Frame(name, globs, parent, cells, cls)
        fr.node = node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if len(vals) > len(names):
            if a.vararg is None:
                raise TypeError("%s() takes %d positional arguments but %d were given" % (name, len(names), len(vals)))
            fr.locals[a.vararg.arg] = tuple(vals[len(names):])
            vals = vals[:len(names)]
        elif a.vararg is not None:
            fr.locals[a.vararg.arg] = ()
        for n, v in zip(names, vals):
            fr.locals[n] = v
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in fr.locals:
                    raise TypeError("%s() got multiple values for argument %r" % (name, k))
                fr.locals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise TypeError("%s() got an unexpected keyword argument %r" % (name, k))
        if a.kwarg is not None:
            fr.locals[a.kwarg.arg] = SDict(extra)
        nd = len(defaults)
        for i, n in enumerate(names):
            if n not in fr.locals:
                j = i - (len(names) - nd)
                if j < 0:
                    raise TypeError("%s() missing argument %r" % (name, n))
                fr.locals[n] = defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in fr.locals:
                if x.arg not in kwdefaults:
                    raise TypeError("%s() missing argument %r" % (name, x.arg))
                fr.locals[x.arg] = kwdefaults[x.arg]
        if names:
            fr.first = names[0]
        self.depth += 1
        if self.depth > 200:
            self.depth = 0
            raise Unsupported("recursion without a contract")
        old = self.eng.where
        self.eng.where = name
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if _has_yield(node):
                fr.yields = Seq()
            try:
                self.block(node.body, fr)
            except Return as r:
                if fr.yields is None:
                    return r.v
            return fr.yields
        finally:
            self.depth -= 1
            self.eng.where = old

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.fuel += 1
        if self.fuel > 3000000:
            raise Unsupported("execution budget exhausted")
        getattr(self, "s_" + type(s).__name__, self.s_unsup)(s, fr)

    def s_unsup(self, s, fr):
        raise Unsupported("statement %s" % type(s).__name__)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise Return(None if s.value is None else self.ev(s.value, fr))

    def s_Break(self, s, fr):
        raise Break()

    def s_Continue(self, s, fr):
        raise Continue()

    def s_Global(self, s, fr):
        fr.globals_decl |= set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for p in a.name.split(".")[1:]:
                    m = getattr(m, p)
            fr.locals[a.asname or a.name.split(".")[0]] = m

    def s_ImportFrom(self, s, fr):
        import importlib
        if s.level:
            m = importlib.import_module("." * s.level + (s.module or ""), "FIAT")
        else:
            m = importlib.import_module(s.module)
        for a in s.names:
            v = getattr(m, a.name, None)
            if v is None:
                v = importlib.import_module(m.__name__ + "." + a.name)
            fr.locals[a.asname or a.name] = v

    def s_FunctionDef(self, s, fr):
        f = self.mkfun(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        fr.locals[s.name] = f

    def mkfun(self, s, fr, name):
        return IFun(self, s, fr, tuple(self.ev(d, fr) for d in s.args.defaults),
                    {k.arg: self.ev(d, fr) for k, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
                    fr.fn_name + "." + name, fr.cls)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise sem(AssertionError(str(self.ev(s.msg, fr)) if s.msg is not None else ""))

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise getattr(fr, "exc", RuntimeError("re-raise"))
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            e = e()
        raise sem(e)

    def emptied(self, v, s, fr):
        """`if not X: X = []` for a list X which nothing but its place refers
        to: the same state whether the (symbolic) list is empty or not"""
        if s.orelse or len(s.body) != 1 or not isinstance(s.body[0], ast.Assign):
            return False
        a = s.body[0]
        if len(a.targets) != 1 or not isinstance(a.value, ast.List) or a.value.elts or not isinstance(a.targets[0], ast.Subscript):
            return False
        if any(isinstance(x, ast.Call) for x in ast.walk(a.targets[0])):
            return False
        o, k = self.ev(a.targets[0].value, fr), self.ev(a.targets[0].slice, fr)
        if type(o) is not SDict or o.gens or symbolic(k) or values._journal(o, False) is not None or dict.get(o, k) is not v:
            return False
        own = [r for r in gc.get_referrers(v) if not isinstance(r, types.FrameType)]
        return len(own) == 1 and own[0] is o

    def s_If(self, s, fr):
        if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not):
            v = self.ev(s.test.operand, fr)
            if isinstance(v, Seq) and isinstance(v.length(), Rat) and v.length().concrete() is None and self.emptied(v, s, fr):
                return
            t = not self.truth(v)
        else:
            t = self.truth(self.ev(s.test, fr))
        if t:
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while self.truth(self.ev(s.test, fr)):
            n += 1
            if n > 10000:
                raise Unsupported("while loop without a bound")
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                pass
        self.block(s.orelse, fr)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except Exception as e:
                for h in s.handlers:
                    if h.type is None or isinstance(e, self.ev(h.type, fr)):
                        if h.name:
                            fr.locals[h.name] = e
                        fr.exc = e
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                del fr.locals[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                if self.eng.journal:
                    raise Unsupported("del in a symbolic loop")
                del o[self.index(t.slice, fr)]
            else:
                raise Unsupported("del")

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                raise Unsupported("global assignment")
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.locals:
                    f = f.parent
                if f is None:
                    raise Unsupported("nonlocal")
                f.locals[t.id] = v
                return
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, SymArr):
                v = list(v)
            if isinstance(v, Seq) and v.segs is not None:
                raise Unsupported("unpacking of a symbolic list")
            vs = list(v)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                self.assign(t.elts[i].value, Seq(vs[i:len(vs) - k]), fr)
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, fr)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - k:]):
                    self.assign(e, x, fr)
                return
            if len(vs) != len(t.elts):
                raise sem(ValueError("cannot unpack %d values into %d" % (len(vs), len(t.elts))))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            if self.eng.journal and getattr(o, "_stamp", 0) < self.eng.journal[-1]["stamp"] and not isinstance(o, types.SimpleNamespace):
                if id(o) not in self.eng.journal[-1]["fresh"]:
                    raise Unsupported("attribute assigned in a symbolic loop")
            setattr(o, t.attr, v)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, numpy.ndarray):
            if self.eng.journal and id(o) not in self.eng.journal[-1]["fresh"]:
                raise Unsupported("a concrete array is modified in a symbolic loop")
            k = self.natidx(k)
            if isinstance(v, Seq):
                v = list(v)
            if o.dtype != object:
                v = nat(v)
                if symbolic(v):
                    raise Unsupported("symbolic value stored in a native array")
            if isinstance(v, SymArr):
                v = self.concretize(v)
            o[k] = v
            return
        if isinstance(o, (Seq, SDict, Store, values.View)) or hasattr(o, "_symstore"):
            o[self.natkey(k) if not isinstance(o, SymArr) and not hasattr(o, "_symstore") else k] = v
            return
        if isinstance(o, (dict, list)):
            if self.eng.journal:
                raise Unsupported("a native container is modified in a symbolic loop")
            o[self.natkey(k)] = v
            return
        if isinstance(o, SymArr):
            raise Unsupported("assignment into a symbolic array expression")
        o[k] = v

    def concretize(self, v):
        out = numpy.empty(tuple(Rat.of(s).__index__() for s in v.shape), dtype=object)
        for i in numpy.ndindex(*out.shape):
            out[i] = v.at(i)
        return out

    def natidx(self, k):
        if isinstance(k, tuple):
            return tuple(self.natidx(x) for x in k)
        if isinstance(k, slice):
            return slice(*[x if not isinstance(x, Rat) else x.__index__() for x in (k.start, k.stop, k.step)])
        if isinstance(k, Rat):
            return k.__index__()
        if isinstance(k, Seq):
            return [self.natidx(x) for x in k]
        return k

    def natkey(self, k):
        if isinstance(k, Rat):
            c = k.concrete()
            return k if c is None else c
        if isinstance(k, tuple) and type(k) is tuple:
            return tuple(self.natkey(x) for x in k)
        return k

    def s_AugAssign(self, s, fr):
        op = type(s.op)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(id=t.id, ctx=ast.Load()), fr)
            fr.locals[t.id] = self.inplace(op, cur, self.ev(s.value, fr))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.index(t.slice, fr)
            if isinstance(o, (Store, values.View)) and op in (ast.Add, ast.Sub):
                v = self.ev(s.value, fr)
                o.accumulate(self.natkey(k), v if op is ast.Add else -v)
                return
            cur = self.getitem(o, k)
            v = self.ev(s.value, fr)
            self.setitem(o, k, self.binop(op, cur, v) if isinstance(cur, numpy.ndarray) else self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.inplace(op, cur, self.ev(s.value, fr))
            if self.eng.journal:
                raise Unsupported("attribute assigned in a symbolic loop")
            setattr(o, t.attr, v)
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        if isinstance(a, Seq) and op is ast.Add:
            a.extend(b)
            return a
        if hasattr(a, "assign_from"):
            a.assign_from(self.binop(op, a, b))
            return a
        if isinstance(a, Store):
            a[(slice(None),) * a.ndim] = self.binop(op, SymArr(a.shape, Store.copy(a).at), b)
            return a
        if isinstance(a, numpy.ndarray):
            if a.dtype == object or (not symbolic(b)):
                if self.eng.journal and id(a) not in self.eng.journal[-1]["fresh"]:
                    raise Unsupported("a concrete array is modified in a symbolic loop")
                return IBIN[op](a, nat(b) if a.dtype != object else b) if op in IBIN else operator.itruediv(a, nat(b) if a.dtype != object else b)
        return self.binop(op, a, b)

    # ------------------------------------------------------------------ loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        segs = self.iter_segs(it)
        if all(not isinstance(g, SymIter) for g in segs):
            for g in segs:
                for v in g[1]:
                    self.assign(s.target, v, fr)
                    try:
                        self.block(s.body, fr)
                    except Break:
                        return
                    except Continue:
                        continue
            self.block(s.orelse, fr)
            return
        for g in segs:
            if isinstance(g, SymIter):
                self.sym_for(s, fr, g)
            else:
                for v in g[1]:
                    self.assign(s.target, v, fr)
                    try:
                        self.block(s.body, fr)
                    except Break:
                        raise Unsupported("break next to a symbolic loop")
                    except Continue:
                        continue
        self.block(s.orelse, fr)

    def iter_segs(self, it):
        if isinstance(it, (Seq, SymIter, SymArr)):
            if isinstance(it, SymArr) and Rat.of(it.shape[0]).concrete() is not None:
                return [("items", list(it))]
            segs = to_segs(it)
        elif isinstance(it, SDict):
            segs = to_segs(it.keys())
        elif isinstance(it, (Rat, Opaque)):
            f = getattr(it, "__iter__", None)
            raise TypeError("not iterable") if isinstance(it, Rat) else Unsupported("iteration over %r" % it)
        else:
            return [("items", list(it))]
        out = []
        for g in segs:
            if isinstance(g, SymIter) and Rat.of(g.n).concrete() is not None:
                n = max(0, Rat.of(g.n).__index__())
                if g.flat:
                    for k in range(n):
                        out += self.iter_segs(Seq.from_segs(g.fn(Rat.of(k))))
                else:
                    items = []
                    for k in range(n):
                        v = g.fn(Rat.of(k))
                        if isinstance(v, Rat) and v.concrete() is not None:
                            v = v.concrete()
                        items.append(v)
                    out.append(("items", items))
            else:
                out.append(g)
        return out

    def sym_for(self, s, fr, g):
        """One symbolic loop: cut-point rule with inferred invariants."""
        eng = self.eng
        n = g.n
        if not eng.entails(n >= 0):
            if not bool(n >= 0):
                return
        if g.flat:
            # for x in nested: equivalent to two loops
            def inner(k):
                return g.fn(k)
            self._sym_for(s, fr, n, None, nested=inner)
        else:
            self._sym_for(s, fr, n, g.fn)

    def _body_once(self, s, fr, k, item, nested, state):
        """Run the body on a private frame; returns (frame, events)."""
        f2 = Frame(fr.fn_name, fr.globs, fr.parent, fr.cells, fr.cls)
        f2.locals = dict(fr.locals)
        f2.locals.update(state)
        f2.yields, f2.first = fr.yields, fr.first
        f2.globals_decl, f2.nonlocals = fr.globals_decl, fr.nonlocals
        j = dict(stamp=stamp(), events=[], touched=set(), fresh=set(), k=k, n=state.get("$n"), reads=[])
        f2.locals.pop("$n", None)
        self.eng.journal.append(j)
        try:
            if nested is None:
                self.assign(s.target, item(k), f2)
                try:
                    self.block(s.body, f2)
                except Continue:
                    pass
                except Break:
                    raise Unsupported("break in a symbolic loop")
            else:
                for gg in nested(k):
                    if isinstance(gg, SymIter):
                        self.sym_for(s, f2, gg)
                    else:
                        for v in gg[1]:
                            self.assign(s.target, v, f2)
                            try:
                                self.block(s.body, f2)
                            except Continue:
                                pass
        finally:
            self.eng.journal[:] = [x for x in self.eng.journal if x is not j]
        return f2, j["events"]

    def _sym_for(self, s, fr, n, item, nested=None):
        eng = self.eng
        mods = sorted(assigned_names(s.body) | assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))]))
        # x += [...] on a list changes the list, not the variable
        rebound = assigned_names(s.body, aug=False)
        mods = [v for v in mods if v in rebound or not isinstance(fr.locals.get(v), (Seq, Store)) or v in assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])]
        tnames = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        k = sym.fresh("k")
        ka, = k.atoms()
        # --- trial run from a havocked state
        havoc, hatom, special = {}, {}, {}
        for v in mods:
            if v in fr.locals and v not in tnames:
                cur = fr.locals[v]
                if isinstance(cur, (int, float, Rat, numpy.number)) and not isinstance(cur, bool):
                    isint = isinstance(cur, (int, numpy.integer)) or (isinstance(cur, Rat) and cur.is_int())
                    h = sym.fresh("h_" + v, "int" if isint else "real")
                    havoc[v] = h
                    hatom[next(iter(h.atoms()))] = v
                elif hasattr(cur, "loop_havoc"):
                    havoc[v] = special[v] = cur.loop_havoc(v)
                else:
                    havoc[v] = Poison(v)
        eng.muted += 1
        try:
            def trial():
                eng.assume(k >= 0)
                eng.assume(k < n)
                return self._body_once(s, fr, k, item, nested, dict(havoc, **{"$n": n}))
            outs = eng.explore(trial)
        finally:
            eng.muted -= 1
        outs_v = [o for o in outs if o[1] == "value"]
        if any(o[1] == "raise" for o in outs):
            pass        # handled in the precise run
        if not outs_v:
            if not outs:
                return      # body unreachable: the loop is empty
            # every path raises
            if bool(n > 0):
                raise outs[0][2]
            return
        # --- closed forms of loop-carried scalars
        start = {}          # value at the start of iteration k
        pend = {}
        for v, h in list(havoc.items()):
            if v in special:
                news = [o[2][0].locals.get(v) for o in outs_v]
                c = fr.locals[v].loop_close(h, news[0], k, ka) if len(news) == 1 else None
                if c is None:
                    havoc[v] = Poison(v)
                else:
                    start[v] = c
                continue
            if isinstance(h, Poison):
                continue
            news = [o[2][0].locals.get(v) for o in outs_v]
            if any(isinstance(x, Poison) for x in news):
                raise Unsupported("loop variable %s" % v)
            pend[v] = [Rat.of(x) for x in news] if all(Rat.of(x) is not None for x in news) else None
        uses = set()
        for o in outs_v:
            f2, ev = o[2]
            for v in havoc:
                pass
        progress = True
        sub = {}
        deltas = {}
        while pend and progress:
            progress = False
            for v in list(pend):
                if pend[v] is None:
                    continue
                h = havoc[v]
                ha = next(iter(h.atoms()))
                news = [x.subs(sub) for x in pend[v]]
                others = set(hatom) - {ha} - {next(iter(havoc[w].atoms())) for w in start if w not in special}
                if any((x.atoms() & others) for x in news):
                    continue
                if any(not (x - news[0]).const() == 0 for x in news):
                    continue
                x = news[0]
                v0 = Rat.of(fr.locals[v])
                d = x - h
                if ha not in d.atoms():
                    try:
                        kk = sym.fresh("j")
                        ja, = kk.atoms()
                        start[v] = v0 + sym.poly_sum(d.subs({ka: kk}), ja, Rat.of(0), k)
                    except Unsupported:
                        continue
                elif ha not in x.atoms():
                    # overwritten: value of the previous iteration
                    prev = x.subs({ka: k - 1})
                    first = x.subs({ka: Rat.of(-1)}) if not x.den else None
                    if first is not None and eng.equal_terms(first, v0):
                        start[v] = prev
                    else:
                        # allowed only if the body never reads it before writing
                        deltas[v] = "overwritten"
                        start[v] = h
                elif (x / h if len(h.num.t) else x) is not None and not ((x / h).atoms() & {ha, ka}):
                    start[v] = v0 * (x / h) ** k
                else:
                    continue
                if deltas.get(v) != "overwritten":
                    sub[ha] = start[v]
                del pend[v]
                progress = True
        if pend:
            self._houdini(fr, s, pend, havoc, hatom, sub, start, k, ka, outs_v)
        over = {v for v in deltas}
        # --- precise run
        def precise():
            eng.assume(k >= 0)
            eng.assume(k < n)
            st = {"$n": n}
            for v, h in havoc.items():
                if isinstance(h, Poison):
                    st[v] = h
                elif v in over:
                    st[v] = Poison(v)
                else:
                    st[v] = start[v]
            return self._body_once(s, fr, k, item, nested, st)
        outs = eng.explore(precise)
        raising = [o for o in outs if o[1] == "raise"]
        for o in raising:
            # does some iteration raise?  if it can, the whole loop raises
            cond = band(*o[0])
            if eng.check(o[0])[0] == "unsat":
                continue
            # the path conditions other than the range of k must be decidable
            rest = [b for b in o[0] if not depends(b, {ka})]
            inside = [b for b in o[0] if depends(b, {ka})]
            for b in rest:
                if isinstance(b, SymBool) and not bool(b):
                    break
            else:
                if all(repr(b) in (repr(k >= 0), repr(k < n)) for b in inside):
                    raise o[2]
                raise NotEstablished("an iteration of a symbolic loop may raise %r" % (o[2],))
        outs = [o for o in outs if o[1] == "value"]
        if not outs:
            return
        self._apply_effects(s, fr, outs, mods, start, over, k, ka, n)
        if not eng.journal and not eng.muted:
            for t in self.tables:
                t.settle()

    def _houdini(self, fr, s, pend, havoc, hatom, sub, start, k, ka, outs_v):
        """Invariants 'v equals a specification function of the iteration'."""
        eng = self.eng
        cands = {}
        for v in pend:
            if pend[v] is None:
                raise NotEstablished("no invariant for %s" % v)
            v0 = Rat.of(fr.locals[v])
            cs = []
            for t in self.templates:
                for c in range(-4, 7):
                    try:
                        e0 = t(Rat.of(0) + c)
                        ek = t(k + c)
                    except Exception:
                        continue
                    if e0 is None:
                        continue
                    if eng.equal_terms(Rat.of(e0), v0):
                        cs.append((t, c))
            # overwritten variables need no entry value
            cands[v] = cs
        need = {}
        for v in list(pend):
            ha = next(iter(havoc[v].atoms()))
            readers = any(ha in x.atoms() for w in pend for x in pend[w])
            need[v] = readers
        live = {v for v in pend if need[v]}
        for v in live:
            if not cands[v]:
                raise NotEstablished("no invariant template holds on entry for %s" % v)
        it = itertools
        names = sorted(live)
        ok = None
        tried = 0
        for combo in it.product(*[cands[v] for v in names]):
            tried += 1
            if tried > 200:
                break
            m = dict(sub)
            for v, (t, c) in zip(names, combo):
                m[next(iter(havoc[v].atoms()))] = t(k + c)
            good = True
            for v, (t, c) in zip(names, combo):
                for o, x in zip(outs_v, pend[v]):
                    base = eng.pc
                    eng.pc = base + o[0]
                    try:
                        if not eng.equal_terms(x.subs(m), t(k + 1 + c)):
                            good = False
                    finally:
                        eng.pc = base
                    if not good:
                        break
                if not good:
                    break
            if good:
                ok = dict(zip(names, combo))
                sub.update({a: m[a] for a in m if a not in sub})
                break
        if ok is None:
            self.invariant_failure(fr, pend, cands, names, havoc, sub, k, outs_v)
            raise NotEstablished("no inductive invariant for %s" % ", ".join(names))
        for v in names:
            t, c = ok[v]
            start[v] = t(k + c)
            eng._record("%s: loop invariant for %s is established and preserved" % (eng.where, "a carried variable"), "proved", "polynomial identity")
        for v in pend:
            if v not in live:
                start[v] = havoc[v]
                # its value after the loop is the body's last value
                self._over_extra = getattr(self, "_over_extra", set()) | {v}
                start[v] = Poison(v)
        for v in list(start):
            if isinstance(start[v], Rat):
                start[v] = start[v].subs(sub)

    def invariant_failure(self, *a):
        pass

    def _apply_effects(self, s, fr, outs, mods, start, over, k, ka, n):
        eng = self.eng
        one = len(outs) == 1
        if not one:
            evs = [o[2][1] for o in outs]
            if any(evs):
                raise Unsupported("conditional effects in a symbolic loop")
            for v in mods:
                vals = [o[2][0].locals.get(v) for o in outs]
                if v in start and isinstance(start[v], Rat):
                    continue
        f2, events = outs[0][2]
        at = lambda e: {ka: Rat.of(e)}      # noqa: E731
        # container effects, in order, per object
        groups = []
        for e in events:
            for gr in groups:
                if gr[0][1] is e[1]:
                    gr.append(e)
                    break
            else:
                groups.append([e])
        for gr in groups:
            obj = gr[0][1]
            if isinstance(obj, Seq):
                if len(gr) == 1 and len(gr[0][2]) == 1 and not isinstance(gr[0][2][0], SymIter) and len(gr[0][2][0][1]) == 1:
                    v = gr[0][2][0][1][0]
                    obj.add_segs([SymIter(n, lambda q, v=v: subst(v, {ka: Rat.of(q)}))])
                else:
                    allsegs = [x for e in gr for x in e[2]]
                    obj.add_segs([SymIter(n, lambda q, a=allsegs: [values._subst_seg(x, {ka: Rat.of(q)}) for x in a], flat=True)])
            elif isinstance(obj, SDict):
                for e in gr:
                    if e[0] == "gen":
                        obj.add_gen(SymIter(n, lambda q, g=e[2]: [values._subst_seg(g, {ka: Rat.of(q)})], flat=True))
                        continue
                    key, v = e[2], e[3]
                    if depends(key, {ka}):
                        obj.add_gen(SymIter(n, lambda q, key=key, v=v: (subst(key, {ka: Rat.of(q)}), subst(v, {ka: Rat.of(q)}))))
                    else:
                        if not eng.entails(n >= 1) and not bool(n >= 1):
                            continue
                        obj[key] = subst(v, at(n - 1))
            elif hasattr(obj, "loop_writes"):
                obj.loop_writes([(e[2:], outs[0][0]) for e in gr], ka, n)
            elif isinstance(obj, Store):
                for e in gr:
                    self._store_event(obj, e, ka, n)
            else:
                raise Unsupported("effect on %s" % type(obj).__name__)
        # local variables
        nonempty = None
        for v in mods:
            if v in start and isinstance(start[v], Rat) and v not in over:
                fr.locals[v] = start[v].subs(at(n))
                continue
            if v in start and hasattr(start[v], "loop_havoc"):
                fr.locals[v] = subst(start[v], at(n))
                continue
            if nonempty is None:
                nonempty = eng.entails(n >= 1)
            last = f2.locals.get(v)
            if nonempty and one and v in f2.locals and not isinstance(last, Poison):
                try:
                    fr.locals[v] = subst(last, at(n - 1))
                    continue
                except Unsupported:
                    pass
            fr.locals[v] = Poison(v)

    def _store_event(self, obj, e, ka, n):
        key, v = e[2], e[3]
        binders = ((ka, n),)
        j = values._journal(obj)
        kind = e[5] if len(e) > 5 else "set"
        if len(e) > 4:
            binders = e[4] + binders
        if j is not None:
            j["events"].append(("store", obj, key, v, binders, kind))
            j["touched"].add(id(obj))
            return
        obj.write(binders, key, v, kind)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, SymBool):
            return self.eng.decide(v)
        if isinstance(v, Rat):
            r = v != 0
            return self.eng.decide(r) if isinstance(r, SymBool) else r
        if isinstance(v, SDict):
            n = v.length()
            return bool(Rat.of(n) > 0)
        return bool(v)

    def ev(self, e, fr):
        return getattr(self, "e_" + type(e).__name__, self.e_unsup)(e, fr)

    def e_unsup(self, e, fr):
        raise Unsupported("expression %s" % type(e).__name__)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Rat.of(v)
        return v

    def e_Name(self, e, fr):
        return fr.lookup(e.id)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return Seq(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                dict.update(d, self.ev(v, fr))
            else:
                dict.__setitem__(d, self.natkey(self.ev(k, fr)), self.ev(v, fr))
        return d

    def binop(self, op, a, b):
        if op is ast.Div:
            if isinstance(a, (int, Rat, float)) and isinstance(b, (int, Rat, float)) and not isinstance(a, bool):
                if isinstance(b, (int, float)) and b == 0:
                    raise sem(ZeroDivisionError("division by zero"))
                return Rat.of(a) / Rat.of(b)
            if isinstance(a, numpy.ndarray) and isinstance(b, Rat) and a.dtype != object:
                a = a.astype(object)
            if isinstance(a, numpy.ndarray) and isinstance(b, Rat):
                b = boxed(b)
            return a / b
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (list, tuple)) and isinstance(y, (Rat, int)):
                    if isinstance(x, Seq):
                        return x * y
                    if isinstance(y, Rat) and y.concrete() is None:
                        return Seq(x) * y
                    return x * int(y)
        if op is ast.Add and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op is ast.Mod and isinstance(a, str):
            return a % (tuple(map(self.fmtv, b)) if isinstance(b, tuple) else self.fmtv(b))
        if isinstance(a, numpy.ndarray) and isinstance(b, SymArr):
            a = as_symarr(a)
        if isinstance(a, numpy.ndarray) and a.dtype != object and isinstance(b, Rat):
            c = b.concrete()
            if c is not None and isinstance(c, int):
                b = c
            else:
                a = a.astype(object)
        if isinstance(b, numpy.ndarray) and b.dtype != object and isinstance(a, Rat):
            c = a.concrete()
            if c is not None and isinstance(c, int):
                a = c
            else:
                b = b.astype(object)
        if isinstance(a, SymBool) and isinstance(b, (int, float, Rat, SymBool)):
            a = int(self.truth(a))
        if isinstance(b, SymBool) and isinstance(a, (int, float, Rat)):
            b = int(self.truth(b))
        if isinstance(a, numpy.ndarray) and isinstance(b, Rat):
            b = boxed(b)
        elif isinstance(b, numpy.ndarray) and isinstance(a, Rat):
            a = boxed(a)
        r = BIN[op](a, b)
        return r

    def fmtv(self, v):
        return nat(v) if not symbolic(v) else _Fmt(v)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op), a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SymBool):
                return bnot(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            last = i == len(e.values) - 1
            if last:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, SymBool) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, SymBool) else True
        return v

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            c = self.compare(type(op), left, right)
            if i == len(e.ops) - 1 and res is True:
                return c
            if not self.truth(c):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if op is ast.Is:
            return a is b
        if op is ast.IsNot:
            return a is not b
        if op is ast.In or op is ast.NotIn:
            r = self.contains(b, a)
            return r if op is ast.In else (bnot(r) if isinstance(r, SymBool) else not r)
        f = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
             ast.Gt: operator.gt, ast.GtE: operator.ge}[op]
        if isinstance(a, (Seq,)) and a.segs is None and isinstance(b, (list, tuple)) and op in (ast.Eq, ast.NotEq):
            if not isinstance(b, list):
                return op is ast.NotEq
            r = self.eqlist(list(a), list(b))
            return r if op is ast.Eq else bnot(r)
        if isinstance(a, tuple) and isinstance(b, tuple) and op in (ast.Eq, ast.NotEq):
            r = self.eqlist(list(a), list(b))
            return r if op is ast.Eq else bnot(r)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            h = (a if isinstance(a, Opaque) else b)._attrs.get("__eq__")
            if h is not None and op in (ast.Eq, ast.NotEq):
                r = h(b if isinstance(a, Opaque) else a)
                return r if op is ast.Eq else bnot(r)
            if op in (ast.Eq, ast.NotEq) and a is b:
                return op is ast.Eq
            raise Unsupported("comparison of opaque %r" % (a if isinstance(a, Opaque) else b))
        r = f(a, b)
        return r

    def eqlist(self, a, b):
        if len(a) != len(b):
            return False
        return band(*[self.compare(ast.Eq, x, y) for x, y in zip(a, b)])

    def contains(self, c, x):
        if isinstance(c, SDict) and not c.gens or isinstance(c, (dict, set, frozenset)) and not isinstance(c, SDict):
            x = self.natkey(x)
            if symbolic(x):
                return bor(*[self.compare(ast.Eq, x, k) for k in list(c)])
            return x in c
        if isinstance(c, SymIter):
            x = Rat.of(x)
            d = c.fn(Rat.of(1)) - c.fn(Rat.of(0))
            if isinstance(d, Rat) and d.concrete() == 1 and x is not None:
                return band(x >= c.fn(Rat.of(0)), x < c.fn(Rat.of(0)) + c.n)
            raise Unsupported("membership in a symbolic range")
        if isinstance(c, Seq) and c.segs is not None:
            return bor(*[self.in_seg(g, x) for g in c.as_segs()])
        if isinstance(c, range) and isinstance(x, Rat):
            return bor(*[x == v for v in c])
        if isinstance(c, (list, tuple)) and not (isinstance(c, Seq) and c.segs is not None):
            if symbolic(x) or symbolic(c):
                return bor(*[self.compare(ast.Eq, x, v) for v in c])
            return nat(x) in nat(c)
        return x in c

    def in_seg(self, g, x):
        """membership in a segment of a symbolic list"""
        if not isinstance(g, SymIter):
            return bor(*[self.compare(ast.Eq, x, v) for v in g[1]])
        if g.flat:
            raise Unsupported("membership in a nested symbolic list")
        x = Rat.of(x)
        k = sym.fresh("k")
        v = Rat.of(g.fn(k))
        if x is None or v is None:
            raise Unsupported("membership in a symbolic list")
        a, = k.atoms()
        if (v - k).const() is not None or a not in (v - k).atoms():
            s = v - k
            return band(x >= s, x < s + g.n)
        # families of pairwise different integers
        fx, fv = self.family(x), self.family(v)
        if fx is None or fv is None:
            raise Unsupported("membership in a symbolic list")
        if fx[0] != fv[0]:
            return False
        if not ((fv[1] - k).const() is not None or a not in (fv[1] - k).atoms()):
            raise Unsupported("membership in a symbolic list")
        s = fv[1] - k
        return band(fx[1] >= s, fx[1] < s + g.n)

    def family(self, x):
        """(name, index) when x is one application of a declared family of
        pairwise different integers (`ip.families`)"""
        if x.den or len(x.num.t) != 1:
            return None
        (m, c), = x.num.t.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1:
            return None
        a = sym.ATOMS[m[0][0]]
        if a.kind == "app" and a.name in getattr(self, "families", ()) and len(a.args) == 1:
            return a.name, a.args[0]
        return None

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.mkfun(e, fr, "<lambda>")

    def e_JoinedStr(self, e, fr):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                x = self.ev(v.value, fr)
                out += str(nat(x)) if not symbolic(x) else "<%s>" % (x,)
        return out

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, o, n):
        if isinstance(o, types.ModuleType):
            return getattr(o, n)
        if isinstance(o, Rat) and n in ("dtype",):
            return float
        if isinstance(o, Opaque):
            m = self.method_contracts.get((o._kind, n))
            if m is not None and n not in o._attrs:
                return lambda *a, **k: m(self, o, *a, **k)
            return getattr(o, n)
        if n == "shape" and isinstance(o, Seq):
            raise AttributeError("'list' object has no attribute 'shape'")
        return getattr(o, n)

    def index(self, e, fr):
        if isinstance(e, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, fr)      # noqa: E731
            return slice(g(e.lower), g(e.upper), g(e.step))
        if isinstance(e, ast.Tuple):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.ev(x.value, fr))
                else:
                    out.append(self.index(x, fr))
            return tuple(out)
        return self.ev(e, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.index(e.slice, fr))

    def getitem(self, o, k):
        if isinstance(o, numpy.ndarray):
            kk = self.concrete_key(k)
            if kk is None:
                return as_symarr(o)[k]
            v = o[self.natidx(kk)]
            if isinstance(v, numpy.floating):
                return Rat.of(v)
            return v
        if isinstance(o, (SymArr, Seq)) or hasattr(o, "_symstore"):
            if isinstance(o, Seq) and isinstance(k, Rat) and k.concrete() is not None:
                k = k.__index__()
            return o[k]
        if isinstance(o, SymIter):
            return values.seq_at(Seq.from_segs([o]), Rat.of(k)) if not isinstance(k, slice) else values.seq_slice(Seq.from_segs([o]), k)
        if isinstance(o, dict):
            k = self.natkey(k)
            if isinstance(o, SDict):
                e = o.own_write(k)
                if e is not None:
                    return e[3]
            if symbolic(k):
                if isinstance(o, SDict) and o.gens:
                    return self.lookup_gen(o, k)
                for q in list(o):
                    if self.truth(self.compare(ast.Eq, k, q)):
                        return o[q]
                raise sem(KeyError(repr(k)))
            if isinstance(o, SDict) and o.gens:
                return self.lookup_gen(o, k)
            return o[k]
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                k = slice(*[x if not isinstance(x, Rat) else x.__index__() for x in (k.start, k.stop, k.step)])
                r = o[k]
                return Seq(r) if isinstance(r, list) else r
            if isinstance(k, Rat) and k.concrete() is None:
                n = len(o)
                for i in range(n):
                    if self.truth(k == i):
                        return o[i]
                raise sem(IndexError("index out of range"))
            return o[k.__index__() if isinstance(k, Rat) else k]
        if isinstance(o, Opaque):
            g = o._attrs.get("__getitem__")
            if g is not None:
                return g(k)
            m = self.method_contracts.get((o._kind, "__getitem__"))
            if m is not None:
                return m(self, o, k)
            raise Unsupported("indexing %r" % o)
        return o[k]

    def lookup_gen(self, o, k):
        """Entry of a dict with families of keys (distinct by assumption): the
        one whose key is syntactically k."""
        for q in dict.keys(o):
            if values.same_key(q, k):
                return dict.__getitem__(o, q)
        def search(g, bound):
            if not isinstance(g, SymIter):
                for key, v in g[1]:
                    r = attempt(key, v, bound)
                    if r is not None:
                        return r
                return None
            x = sym.fresh("u")
            xa, = x.atoms()
            bound = bound + [(xa, x, g.n)]
            if not g.flat:
                return attempt(*g.fn(x), bound)
            for h in g.fn(x):
                r = search(h, bound)
                if r is not None:
                    return r
            return None

        def attempt(key, v, bound):
            m = {}
            for xa, x, n in bound:
                q = values.match(key, k, xa)
                if q is None:
                    return None
                m[xa] = q
            if not values.same_key(subst(key, m), k):
                return None
            if not self.eng.entails(band(*[band(m[xa] >= 0, m[xa] < subst(Rat.of(n), m)) for xa, x, n in bound])):
                return None
            return (subst(v, m),)
        for g in o.gens:
            r = search(g, [])
            if r is not None:
                return r[0]
        raise Unsupported("lookup in a symbolic dict")

    def concrete_key(self, k):
        if isinstance(k, tuple):
            out = [self.concrete_key(x) for x in k]
            return None if any(x is None and y is not None for x, y in zip(out, k)) else tuple(out)
        if isinstance(k, Rat):
            c = k.concrete()
            return c
        if isinstance(k, slice):
            ps = []
            for x in (k.start, k.stop, k.step):
                if isinstance(x, Rat):
                    if x.concrete() is None:
                        return None
                    x = x.concrete()
                ps.append(x)
            return slice(*ps)
        return k if k is not None else numpy.newaxis

    # --------------------------------------------------------- comprehensions
    def comp(self, e, fr, gens, leaf):
        """-> list of segments"""
        f2 = Frame(fr.fn_name, fr.globs, fr, {}, fr.cls)
        return self._comp(gens, 0, f2, leaf)

    def _comp(self, gens, i, fr, leaf):
        if i == len(gens):
            return [("items", [leaf(fr)])]
        g = gens[i]
        it = self.ev(g.iter, fr)
        out = []
        for seg in self.iter_segs(it):
            if not isinstance(seg, SymIter):
                for v in seg[1]:
                    self.assign(g.target, v, fr)
                    if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                        out += self._comp(gens, i + 1, fr, leaf)
            else:
                out.append(self._comp_sym(gens, i, fr, leaf, seg))
        # merge neighbouring concrete segments
        res = []
        for s in out:
            if res and not isinstance(s, SymIter) and not isinstance(res[-1], SymIter):
                res[-1] = ("items", res[-1][1] + list(s[1]))
            else:
                res.append(s)
        return res

    def _comp_sym(self, gens, i, fr, leaf, seg):
        eng = self.eng
        g = gens[i]
        n = seg.n
        if not eng.entails(n >= 0) and not bool(n >= 0):
            return ("items", [])
        k = sym.fresh("c")
        ka, = k.atoms()

        def body():
            j = dict(stamp=stamp(), events=[], touched=set(), fresh=set(), k=k, n=n, reads=[])
            eng.journal.append(j)
            try:
                return inner()
            finally:
                eng.journal[:] = [x for x in eng.journal if x is not j]
                if j["events"]:
                    raise Unsupported("a comprehension with side effects")

        def inner():
            eng.assume(k >= 0)
            eng.assume(k < n)
            if seg.flat:
                res = []
                for gg in seg.fn(k):
                    if isinstance(gg, SymIter):
                        res.append(self._comp_sym(gens, i, fr, leaf, gg))
                    else:
                        for v in gg[1]:
                            self.assign(g.target, v, fr)
                            if not all(self.truth(self.ev(c, fr)) for c in g.ifs):
                                continue
                            res += self._comp(gens, i + 1, fr, leaf)
                return res
            self.assign(g.target, seg.fn(k), fr)
            if not all(self.truth(self.ev(c, fr)) for c in g.ifs):
                return None
            return self._comp(gens, i + 1, fr, leaf)
        outs = eng.explore(body)
        bad = [o for o in outs if o[1] == "raise"]
        if bad:
            if len(outs) == 1 and bool(n > 0):
                raise bad[0][2]
            if len(outs) == 1:
                return ("items", [])
            raise NotEstablished("an element of a symbolic comprehension may raise %r" % (bad[0][2],))
        if not outs:
            return ("items", [])
        if len(outs) != 1:
            vals = [o[2] for o in outs]
            if all(v is None for v in vals):
                return ("items", [])
            if all(isinstance(v, (list, tuple)) and repr(v) == repr(vals[0]) and plain(v) for v in vals):
                outs = outs[:1]
            h = getattr(self, "filter_contract", None)
            if len(outs) > 1 and h is not None:
                r = h(n, k, [o[0] for o in outs if o[2] is not None], [o[0] for o in outs if o[2] is None], [o[2] for o in outs if o[2] is not None])
                if r is not None:
                    return r
            if len(outs) > 1:
                raise Unsupported("conditional symbolic comprehension")
        segs = outs[0][2]
        if segs is None:
            return ("items", [])
        if len(segs) == 1 and not isinstance(segs[0], SymIter) and len(segs[0][1]) == 1:
            v = segs[0][1][0]
            return SymIter(n, lambda q: subst(v, {ka: Rat.of(q)}))
        return SymIter(n, lambda q: [values._subst_seg(x, {ka: Rat.of(q)}) for x in segs], flat=True)

    def e_ListComp(self, e, fr):
        return Seq.from_segs(self.comp(e, fr, e.generators, lambda f: self.ev(e.elt, f)))
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        s = Seq.from_segs(self.comp(e, fr, e.generators, lambda f: self.ev(e.elt, f)))
        return set(self.natkey(x) for x in s)

    def e_DictComp(self, e, fr):
        segs = self.comp(e, fr, e.generators, lambda f: (self.natkey(self.ev(e.key, f)), self.ev(e.value, f)))
        d = SDict()
        for g in segs:
            if isinstance(g, SymIter):
                d.gens.append(g)
            else:
                for k, v in g[1]:
                    dict.__setitem__(d, k, v)
        return d

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            slf = fr
            while slf.first is None or slf.cls is None:
                slf = slf.parent
            return super(slf.cls, slf.locals[slf.first])
        f = self.ev(e.func, fr)
        if f is itertools.chain and len(e.args) == 1 and isinstance(e.args[0], ast.Starred):
            return self.call(itertools.chain.from_iterable, [self.ev(e.args[0].value, fr)], {})
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        old = self.eng.where
        try:
            return self.call(f, args, kw)
        finally:
            self.eng.where = old

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        f = fr
        while f.yields is None:
            f = f.parent
        f.yields.append(v)

    def e_YieldFrom(self, e, fr):
        fr.yields.extend(self.ev(e.value, fr))


class _Fmt(object):
    def __init__(self, v):
        self.v = v

    def __str__(self):
        return "<%s>" % (self.v,)
    __repr__ = __str__

    def __int__(self):
        return 0

    def __float__(self):
        return 0.0

    def __index__(self):
        return 0


def plain(v):
    """are all items constants or numbers (equal when they print equally)?"""
    if isinstance(v, (list, tuple)) and not (isinstance(v, Seq) and v.segs is not None):
        return all(plain(x) for x in v)
    return v is None or isinstance(v, (bool, int, float, str, Rat, sym.SymBool))


SAFE = {operator.add, operator.mul, operator.sub, isinstance, issubclass, type, id, print}
