"""Abstract interpreter for the Python subset used by the repository.

It walks the syntax trees of /repo's current sources (never imports or executes them) and
computes abstract values: normal forms for numbers (usa.terms), expanded arrays for tensors
(usa.tensor), and a concrete object graph with ownership tags for configuration containers,
modules and parameters.  Effects (writes, container updates, randomness, global writes, ...)
are recorded as events with the construct that causes them."""
import ast
import threading
import os
import math
import builtins as py_builtins
import operator
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, ZERO, ONE
from . import tensor as TT
from .tensor import Tensor, Sym, AbsRaise, Unmodelled, DType, Ctx, is_scalar, skind, sp, mk_sym


class ListV(list):
    owner = "fresh"


class IterV(ListV):
    """an iterator (its remaining values, computed in advance)"""


class GenV(IterV):
    """a generator: its body runs in a thread of its own, one value at a time, strictly in turn with the consumer"""

    def __init__(self, it, body):
        ListV.__init__(self)
        self.it, self.body = it, body
        self.state = "new"
        self.back, self.go = threading.Semaphore(0), threading.Semaphore(0)
        self.saved = []
        self.msg = self.out = None
        self.value = None

    def _run(self):
        self.go.acquire()
        try:
            if self.msg[0] == "throw":
                raise self.msg[1]
            self.out = ("return", self.body(self))
        except BaseException as e:
            self.out = ("raise", e)
        self.state = "done"
        self.back.release()

    def yield_(self, v):
        """called in the generator's thread"""
        it = self.it
        self.saved = it.stack[self.base:]
        del it.stack[self.base:]
        self.out = ("yield", v)
        self.back.release()
        self.go.acquire()
        if self.msg[0] == "throw":
            raise self.msg[1]
        return self.msg[1]

    def resume(self, kind="send", v=None):
        """(True, value) or (False, None) when it has ended"""
        if self.state == "running":
            raise AbsRaise("ValueError", "generator already executing")
        if self.state == "done":
            if kind == "throw":
                raise v
            return False, None
        it = self.it
        if self.state == "new":
            threading.stack_size(512 * 1024 * 1024)
            try:
                threading.Thread(target=self._run, daemon=True).start()
            finally:
                threading.stack_size(0)
        self.state = "running"
        self.base = len(it.stack)
        it.stack.extend(self.saved)
        self.msg = (kind, v)
        self.go.release()
        self.back.acquire()
        k, x = self.out
        if k == "yield":
            self.state = "idle"
            return True, x
        self.state = "done"
        del it.stack[self.base:]
        if k == "raise":
            if isinstance(x, AbsRaise) and x.etype == "StopIteration":
                raise AbsRaise("RuntimeError", "generator raised StopIteration")
            raise x
        self.value = x
        return False, None


class LazyV(IterV):
    """an infinite library iterator"""

    def __init__(self, nxt):
        ListV.__init__(self)
        self.nxt = nxt

    def resume(self):
        return True, self.nxt()


class CmObj:
    """the object a @contextmanager function returns"""

    def __init__(self, gen):
        self.gen = gen


class NotImpl:
    def __repr__(self):
        return "NotImplemented"


NOTIMPL = NotImpl()


class DequeV(ListV):
    maxlen = None


class DictV(dict):
    owner = "fresh"
    default = None


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Abort(Exception):
    """path abandoned (loop bound / infeasible)"""


class Mod:
    def __init__(self, name, path):
        self.name, self.path, self.g = name, path, {}

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """name inside an external library"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class PyFn:
    """function of the abstract library model; f(interp, *args, **kw)"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "<lib %s>" % self.name


class Func:
    def __init__(self, node, mod, env, name, defaults, kwdefaults, cls=None, deco=()):
        self.node, self.mod, self.env, self.name = node, mod, env, name
        self.defaults, self.kwdefaults, self.cls, self.deco = defaults, kwdefaults, cls, deco
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.name


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Prop:
    cached = False

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Class:
    def __init__(self, name, bases, d, mod=None, lib=False):
        self.name, self.bases, self.d, self.mod, self.lib = name, bases, d, mod, lib
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise AbsRaise("TypeError", "MRO")
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def find(self, name):
        for c in self.mro:
            if name in c.d:
                return c.d[name], c
        return None, None

    def issub(self, o):
        return o in self.mro

    def __repr__(self):
        return "<class %s>" % self.name


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.a = {}
        self.registered = set()
        self.inited = False

    def __repr__(self):
        return "<%s object>" % self.cls.name


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_

    def __repr__(self):
        return "<bound %r>" % self.f


class SuperP:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcV:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)
        self.a = {}


EXC = {}
for _n, _b in [("BaseException", None), ("Exception", "BaseException"), ("AssertionError", "Exception"),
               ("TypeError", "Exception"), ("ValueError", "Exception"), ("RuntimeError", "Exception"),
               ("NotImplementedError", "RuntimeError"), ("AttributeError", "Exception"), ("NameError", "Exception"),
               ("UnboundLocalError", "NameError"), ("LookupError", "Exception"),
               ("KeyError", "LookupError"), ("IndexError", "LookupError"), ("ArithmeticError", "Exception"),
               ("ZeroDivisionError", "ArithmeticError"), ("OverflowError", "ArithmeticError"),
               ("ImportError", "Exception"), ("StopIteration", "Exception"), ("Warning", "Exception"),
               ("UserWarning", "Warning"), ("DeprecationWarning", "Warning"), ("OSError", "Exception")]:
    EXC[_n] = Class(_n, [EXC[_b]] if _b else [], {}, lib=True)


class Env:
    __slots__ = ("v", "parent", "globals_", "nonlocals", "localnames")

    def __init__(self, parent=None):
        self.v = {}
        self.parent = parent
        self.globals_ = set()
        self.nonlocals = set()
        self.localnames = None


def has_yield(node):
    """the function itself (not one nested in it) yields"""
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(x))
    return False


def _locals_of(node):
    """names assigned in a function body (not nested functions)"""
    r = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            r.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                r.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # walrus targets inside comprehensions bind in the function
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        tgt(w.target)
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    tgt(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign)):
                tgt(c.target)
            elif isinstance(c, ast.For):
                tgt(c.target)
            elif isinstance(c, ast.With):
                for i in c.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            elif isinstance(c, ast.NamedExpr):
                tgt(c.target)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    r.add((al.asname or al.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                r.add(c.name)
            go(c)
    go(node)
    return r


class Interp:
    def __init__(self, root="/repo", pkg="UnarySim", decisions=(), step_limit=3000000, sources=None):
        self.root, self.pkg = root, pkg
        self.mods = {}
        self.events = []
        self.stack = []
        self.decisions = list(decisions)
        self.taken = []
        self.guard = ONE
        self.steps = 0
        self.step_limit = step_limit
        self.sources = sources if sources is not None else {}
        self.stubs = {}
        self.default_decision = True
        self.fresh_n = 0
        self.owner = "fresh"
        self.files = set()
        self.funcs = set()
        self.calls = 0
        Ctx.interp = self
        Ctx.grad_enabled = True
        from . import torchmodel
        self.lib = torchmodel.Lib(self)

    # ------------------------------------------------------------------ events
    def site(self):
        if not self.stack:
            return ("<driver>", "", 0)
        fr = self.stack[-1]
        return (fr[0], os.path.relpath(fr[1], self.root) if fr[1] else "", fr[2])

    def event(self, kind, **kw):
        kw["kind"] = kind
        kw["site"] = self.site()
        kw["chain"] = [f[0] for f in self.stack]
        self.events.append(kw)

    def fresh(self, prefix, lo=-math.inf, hi=math.inf, isint=False):
        self.fresh_n += 1
        return T.var("%s#%d" % (prefix, self.fresh_n), lo, hi, isint)

    # ------------------------------------------------------------------ modules
    def import_module(self, name):
        """repo module or external"""
        if name in self.mods:
            return self.mods[name]
        if name == self.pkg or name.startswith(self.pkg + "."):
            rel = name[len(self.pkg):].lstrip(".").replace(".", "/")
            base = os.path.join(self.root, rel) if rel else self.root
            if os.path.isdir(base):
                path = os.path.join(base, "__init__.py")
            else:
                path = base + ".py"
            if not os.path.exists(path):
                if os.path.isdir(base):
                    m = Mod(name, None)
                    self.mods[name] = m
                    return m
                raise AbsRaise("ImportError", "No module named %r" % name)
            if "." in name:
                self.import_module(name.rsplit(".", 1)[0])
                if name in self.mods:
                    return self.mods[name]
            m = Mod(name, path)
            m.g["__name__"] = name
            self.mods[name] = m
            self.files.add(os.path.relpath(path, self.root))
            tree = self.sources.get(path)
            if tree is None:
                with open(path) as f:
                    src = f.read()
                tree = ast.parse(src, path)
                self.sources[path] = tree
            old = self.owner
            self.owner = "module:" + name
            self.stack.append(["<module %s>" % name, path, 0])
            try:
                for st in tree.body:
                    self.exec_stmt(st, None, m)
            finally:
                self.stack.pop()
                self.owner = old
            if "." in name:
                par, last = name.rsplit(".", 1)
                self.mods[par].g.setdefault(last, m)
            return m
        return Ext(name)

    def mod_is_pkg(self, m):
        return m.path is None or m.path.endswith("__init__.py")

    def do_import_from(self, node, env, mod):
        name = node.module or ""
        if node.level:
            parts = mod.name.split(".")
            if not self.mod_is_pkg(mod):
                parts = parts[:-1]
            parts = parts[:len(parts) - (node.level - 1)]
            name = ".".join(parts + ([name] if name else []))
        m = self.import_module(name)
        for al in node.names:
            if al.name == "*":
                if isinstance(m, Ext):
                    raise Unmodelled("star import from %s" % name)
                names = m.g.get("__all__") or [k for k in m.g if not k.startswith("_")]
                for k in names:
                    self.store(k, m.g[k], env, mod)
                continue
            if isinstance(m, Ext):
                v = self.lib.resolve(m.path + "." + al.name)
            elif al.name in m.g:
                v = m.g[al.name]
            else:
                try:
                    v = self.import_module(name + "." + al.name)
                except AbsRaise:
                    raise AbsRaise("ImportError", "cannot import name %r from %r" % (al.name, name))
            self.store(al.asname or al.name, v, env, mod)

    # ------------------------------------------------------------------ names
    def store(self, name, v, env, mod):
        if env is None or name in env.globals_:
            if env is not None or (self.stack and not self.stack[-1][0].startswith("<module")):
                self.event("globalwrite", name="%s.%s" % (mod.name, name))
            mod.g[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.v:
                    e.v[name] = v
                    return
                e = e.parent
        env.v[name] = v

    def load(self, name, env, mod):
        e = env
        if env is not None and name in env.globals_:
            e = None
        while e is not None:
            if name in e.v:
                return e.v[name]
            if e.localnames and name in e.localnames and name not in e.globals_ and name not in e.nonlocals:
                raise AbsRaise("UnboundLocalError", "local variable %r referenced before assignment" % name)
            e = e.parent
        if name in mod.g:
            return mod.g[name]
        b = self.lib.builtins.get(name)
        if b is not None:
            return b
        if name in EXC:
            return EXC[name]
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        if hasattr(py_builtins, name) or name.startswith("__"):
            raise Unmodelled("builtin " + name)
        raise AbsRaise("NameError", "name %r is not defined" % name)

    # ------------------------------------------------------------------ truth
    def decide(self, p):
        """p: 0/1 Poly"""
        if p.is_const():
            return bool(p.cval())
        yes = T.mul(self.guard, p)
        no = T.mul(self.guard, T.sub(ONE, p))
        if not yes.t:
            return False
        if not no.t:
            return True
        k = len(self.taken)
        if k < len(self.decisions):
            d = self.decisions[k]
        else:
            d = self.default_decision
            if d is None:
                raise Abort("more data dependent branches")
        self.taken.append(d)
        if k > 400:
            raise Abort("too many data dependent branches")
        self.guard = yes if d else no
        self.event("branch", cond=p, taken=d)
        return d

    def truth(self, v):
        if isinstance(v, Sym):
            return self.decide(v.p if v.kind == "bool" and T.is_bit(v.p) else T.ne(v.p, ZERO))
        if isinstance(v, Tensor):
            if v.numel() != 1:
                raise AbsRaise("RuntimeError", "Boolean value of Tensor with %s is ambiguous" % ("no values" if v.numel() == 0 else "more than one value"))
            x = v.get()[0]
            return self.decide(x if T.is_bit(x) else T.ne(x, ZERO))
        if isinstance(v, IterV):
            return True
        if v is None or isinstance(v, (bool, int, float, str, list, dict, tuple, set, range, bytes)):
            return bool(v)
        if isinstance(v, Obj):
            f, c = v.cls.find("__bool__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            f, c = v.cls.find("__len__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            return True
        return True

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        self.calls += 1
        if isinstance(f, Bound):
            g = f.f
            if isinstance(g, (Func, PyFn)):
                return self.call(g, [f.self_] + list(args), kw)
            if isinstance(g, ClassM):
                return self.call(g.f, [f.self_.cls if isinstance(f.self_, Obj) else f.self_] + list(args), kw)
            return self.call(g, [f.self_] + list(args), kw)
        if isinstance(f, PyFn):
            return f.f(self, *args, **kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.f, args, kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, Obj):
            m, c = f.cls.find("__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kw)
            if any(c.lib for c in f.cls.mro):
                raise Unmodelled("call of a %s object" % f.cls.name)
            raise AbsRaise("TypeError", "%r object is not callable" % f.cls.name)
        if isinstance(f, Ext):
            return self.lib.call_ext(f.path, args, kw)
        if isinstance(f, DType):
            raise AbsRaise("TypeError", "'torch.dtype' object is not callable")
        if callable(f) and not isinstance(f, (Tensor, Sym)):
            return f(*args, **kw)
        if f is not None and not is_scalar(f) and not isinstance(f, (Tensor, str, list, tuple, dict, set)):
            raise Unmodelled("call of %r" % (f,))
        raise AbsRaise("TypeError", "%r object is not callable" % type(f).__name__)

    def instantiate(self, cls, args, kw):
        stub = self.stubs.get(cls.name)
        if stub is not None:
            return stub(self, cls, args, kw)
        if cls.issub(EXC["BaseException"]):
            e = ExcV(cls, args)
            init, c = cls.find("__init__")
            if init is not None:
                self.call(init, [e] + list(args), kw)
            elif kw:
                raise AbsRaise("TypeError", "%s() takes no keyword arguments" % cls.name)
            return e
        if "__members__" in cls.d:
            for m in cls.d["__members__"]:
                if len(args) == 1 and not kw and self.truth(self.compare("Eq", args[0], m.a["value"] if isinstance(m, Obj) else m)) or args and args[0] is m:
                    return m
            raise AbsRaise("ValueError", "not a valid %s" % cls.name)
        nw, c = cls.find("__new__")
        if nw is not None:
            return self.call(nw, [cls] + list(args), kw)
        o = Obj(cls)
        init, c = cls.find("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            raise AbsRaise("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def call_func(self, f, args, kw):
        node = f.node
        env = Env(f.env)
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None:
                raise AbsRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)))
            vals[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vals[n] = v
        kwx = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if k in names and k not in posonly:
                if k in vals:
                    raise AbsRaise("TypeError", "%s() got multiple values for argument %r" % (f.name, k))
                vals[k] = v
            elif a.kwarg is not None:
                kwx[k] = v
            else:
                raise AbsRaise("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, k))
        if a.kwarg is not None:
            d = DictV(kwx)
            vals[a.kwarg.arg] = d
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise AbsRaise("TypeError", "%s() missing required positional argument: %r" % (f.name, n))
                vals[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in f.kwdefaults:
                    raise AbsRaise("TypeError", "%s() missing keyword argument %r" % (f.name, x.arg))
                vals[x.arg] = f.kwdefaults[x.arg]
        env.v.update(vals)
        if len(self.stack) > 120:
            raise AbsRaise("RecursionError", "recursion in %s" % f.name)
        qn = (f.cls.name + "." if f.cls else "") + f.name
        self.funcs.add(qn)
        if isinstance(node, ast.Lambda):
            self.stack.append([qn, f.mod.path, node.lineno])
            try:
                return self.eval(node.body, env, f.mod)
            finally:
                self.stack.pop()
        if not hasattr(node, "_locals"):
            node._locals = _locals_of(node)
            node._gen = has_yield(node)
        env.localnames = node._locals
        nograd = "no_grad" in f.deco
        self.stack.append([qn, f.mod.path, node.lineno])
        oldg = Ctx.grad_enabled
        if nograd:
            Ctx.grad_enabled = False
        env.v["__class_cell__"] = f.cls
        env.v["__first__"] = vals[pos[0]] if pos else None
        if node._gen:
            self.stack.pop()
            Ctx.grad_enabled = oldg

            def body(g):
                self.stack.append([qn, f.mod.path, node.lineno])
                env.v["__yield__"] = g
                old = Ctx.grad_enabled
                if nograd:
                    Ctx.grad_enabled = False
                try:
                    self.exec_block(node.body, env, f.mod)
                    return None
                except Ret as r:
                    return r.v
                except (AbsRaise, Unmodelled, T.TermTooBig) as e:
                    if getattr(e, "site", None) is None:
                        e.site = self.site()
                        e.chain = [fr[0] for fr in self.stack]
                    raise
                finally:
                    if nograd:
                        Ctx.grad_enabled = old
            return GenV(self, body)
        try:
            self.exec_block(node.body, env, f.mod)
            return None
        except Ret as r:
            return r.v
        except (AbsRaise, Unmodelled, T.TermTooBig) as e:
            if getattr(e, "site", None) is None:
                e.site = self.site()
                e.chain = [fr[0] for fr in self.stack]
            raise
        finally:
            self.stack.pop()
            Ctx.grad_enabled = oldg

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            f, c = o.cls.find(name)
            if isinstance(f, Prop) and f.cached:
                if name not in o.a:
                    o.a[name] = self.call(f.fget, [o], {})
                return o.a[name]
            if isinstance(f, Prop):
                return self.call(f.fget, [o], {})
            if name in o.a:
                return o.a[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.a
            if f is not None:
                return self.bind(f, o, c)
            ga, c = o.cls.find("__getattr__")
            if ga is not None:
                return self.call(Bound(ga, o), [name], {})
            r = self.lib.obj_attr(o, name)
            if r is not NotImplemented:
                return r
            raise AbsRaise("AttributeError", "%r object has no attribute %r" % (o.cls.name, name))
        if isinstance(o, Class):
            if name == "__name__":
                return o.name
            if name == "__members__" and "__members__" in o.d:
                return DictV((m.a["name"] if isinstance(m, Obj) else m.name, m) for m in o.d["__members__"])
            f, c = o.find(name)
            if f is not None:
                if isinstance(f, StaticM):
                    return f.f
                if isinstance(f, ClassM):
                    return Bound(f.f, o)
                return f
            if self.lib.lib_attr(o, name) or hasattr(type, name):
                raise Unmodelled("attribute %r of class %s" % (name, o.name))
            raise AbsRaise("AttributeError", "type object %r has no attribute %r" % (o.name, name))
        if isinstance(o, SuperP):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if name in c.d:
                    return self.bind(c.d[name], o.obj, c)
            if name == "__init__":
                return PyFn("object.__init__", lambda it, *a, **k: None)
            if self.lib.lib_attr(o.cls, name):
                raise Unmodelled("super().%s" % name)
            raise AbsRaise("AttributeError", "'super' object has no attribute %r" % name)
        if isinstance(o, Mod):
            if name in o.g:
                return o.g[name]
            try:
                return self.import_module(o.name + "." + name)
            except AbsRaise:
                raise AbsRaise("AttributeError", "module %r has no attribute %r" % (o.name, name))
        if isinstance(o, Ext):
            return self.lib.resolve(o.path + "." + name)
        if isinstance(o, Tensor):
            return self.lib.tensor_attr(o, name)
        if isinstance(o, DictV):
            return self.lib.dict_attr(o, name)
        if isinstance(o, ListV):
            return self.lib.list_attr(o, name)
        if isinstance(o, Sym):
            return self.lib.sym_attr(o, name)
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
        if isinstance(o, ExcV):
            if name == "args":
                return tuple(o.args)
            if name in o.a:
                return o.a[name]
            f, c = o.cls.find(name)
            if f is not None:
                return self.bind(f, o, c)
            if name == "__class__":
                return o.cls
            if hasattr(Exception, name):
                raise Unmodelled("attribute %s of an exception" % name)
            raise AbsRaise("AttributeError", "%r object has no attribute %r" % (o.cls.name, name))
        if isinstance(o, Func) and name in o.attrs:
            return o.attrs[name]
        if isinstance(o, Bound) and isinstance(o.f, Func) and name in o.f.attrs:
            return o.f.attrs[name]
        if isinstance(o, (str, int, float, tuple, set, frozenset, slice, range, dict, list)):
            if isinstance(o, str) and name == "format":
                return PyFn("str.format", lambda it, *a, **k: it.fmt(o, a, k))
            if hasattr(o, name):
                m = getattr(o, name)
                return PyFn("%s.%s" % (type(o).__name__, name), lambda it, *a, **k: self.wrapv(m(*[self.unw(x) for x in a], **k))) if callable(m) else m
            raise AbsRaise("AttributeError", "%r object has no attribute %r" % (type(o).__name__, name))
        if o is None:
            raise AbsRaise("AttributeError", "'NoneType' object has no attribute %r" % name)
        if isinstance(o, DType):
            if name == "is_floating_point":
                return o.kind == "f"
            if name == "itemsize":
                return {"float64": 8, "int64": 8, "float32": 4, "int32": 4, "float16": 2, "bfloat16": 2, "int16": 2}.get(o.name, 1)
        r = self.lib.misc_attr(o, name)
        if r is not NotImplemented:
            return r
        raise Unmodelled("attribute %r of %r" % (name, o))

    def fmt(self, s, a, k):
        """str.format; the text of a non-constant value is opaque"""
        try:
            return s.format(*[self.unw(x) for x in a], **{n: self.unw(x) for n, x in k.items()})
        except Unmodelled:
            return s + "%" + ",".join(self.lib.to_str(x) for x in list(a) + list(k.values()))

    def unw(self, x):
        if isinstance(x, (Sym, Tensor)):
            raise Unmodelled("symbolic argument")
        return x

    def wrapv(self, x):
        if type(x) is list:
            return ListV(x)
        if type(x) is dict:
            return DictV(x)
        return x

    def bind(self, f, o, c):
        if isinstance(f, StaticM):
            return f.f
        if isinstance(f, ClassM):
            return Bound(f.f, o.cls if isinstance(o, Obj) else o)
        if isinstance(f, (Func, PyFn)):
            return Bound(f, o)
        if isinstance(f, Prop):
            return self.call(f.fget, [o], {})
        if isinstance(f, Obj) and any(f.cls.find(n)[0] is not None for n in ("__get__", "__set__")):
            raise Unmodelled("descriptor %s" % f.cls.name)
        return f

    def setattr(self, o, name, v):
        if isinstance(o, ExcV):
            o.a[name] = v
            return
        if isinstance(o, Obj):
            f, c = o.cls.find(name)
            if isinstance(f, Prop) and f.fset is not None:
                self.call(f.fset, [o, v], {})
                return
            if isinstance(f, Obj) and f.cls.find("__set__")[0] is not None:
                raise Unmodelled("descriptor %s" % f.cls.name)
            sa, c = o.cls.find("__setattr__")
            if sa is not None:
                self.call(Bound(sa, o), [name, v], {})
                return
            o.a[name] = v
            return
        if isinstance(o, Tensor):
            self.lib.tensor_setattr(o, name, v)
            return
        if isinstance(o, Class):
            self.event("globalwrite", name="class %s.%s" % (o.name, name))
            o.d[name] = v
            return
        if isinstance(o, Mod):
            self.event("globalwrite", name="%s.%s" % (o.name, name))
            o.g[name] = v
            return
        if self.lib.misc_setattr(o, name, v):
            return
        if isinstance(o, Func):
            self.event("globalwrite", name="function %s.%s" % (o.name, name))
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            self.event("globalwrite", name="%s.%s" % (o.path, name))
            return
        raise AbsRaise("AttributeError", "cannot set attribute %r of %r" % (name, o))

    # ------------------------------------------------------------------ containers
    def getitem(self, o, i):
        if isinstance(o, Tensor):
            if isinstance(i, Obj):
                raise Unmodelled("index object")
            return TT.index_get(o, i)
        if isinstance(o, dict):
            if isinstance(i, Sym):
                raise Unmodelled("symbolic key")
            try:
                if i in o:
                    return o[i]
            except TypeError:
                raise AbsRaise("TypeError", "unhashable key")
            if getattr(o, "default", None) is not None:
                v = self.call(o.default, [], {})
                if getattr(o, "counter", False):
                    return v
                self.setitem(o, i, v)
                return v
            raise AbsRaise("KeyError", repr(i))
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, Tensor):
                i = self.lib.tensor_index(i)
            if isinstance(i, Sym):
                if not isinstance(o, str) and len(o) and all(is_scalar(x) for x in o):
                    kind = max((skind(x) for x in o), key=["bool", "int", "float"].index)
                    return mk_sym(T.sel(tuple(sp(x) for x in o), i.p), kind)
                if len(o) and all(x is o[0] for x in o):
                    return o[0]
                # opaque element of a homogeneous collection
                return self.lib.opaque_element(o, i)
            if isinstance(i, slice):
                r = o[slice(self.cint(i.start), self.cint(i.stop), self.cint(i.step))]
                return ListV(r) if isinstance(o, list) else r
            if not isinstance(i, int):
                raise AbsRaise("TypeError", "indices must be integers")
            if not -len(o) <= i < len(o):
                raise AbsRaise("IndexError", "index out of range")
            return o[i]
        if isinstance(o, Obj):
            f, c = o.cls.find("__getitem__")
            if f is not None:
                return self.call(Bound(f, o), [i], {})
        if isinstance(o, Class) and "__members__" in o.d:
            for m in o.d["__members__"]:
                if m.a["name"] == i:
                    return m
            raise AbsRaise("KeyError", repr(i))
        if isinstance(o, (Ext, Class)):
            return o          # typing subscripts
        if hasattr(o, "abs_getitem"):
            return o.abs_getitem(self, i)
        if o is not None and not is_scalar(o):
            raise Unmodelled("subscript of %r" % (o,))
        raise AbsRaise("TypeError", "%r object is not subscriptable" % (type(o).__name__ if o is not None else "NoneType"))

    def cint(self, x):
        if x is None or isinstance(x, int):
            return x
        if isinstance(x, Tensor):
            return self.cint(self.lib.tensor_index(x))
        raise Unmodelled("symbolic slice bound")

    def owned_write(self, o, what):
        ow = getattr(o, "owner", "fresh")
        if ow != "fresh":
            self.event("dictwrite", owner=ow, what=what)

    def setitem(self, o, i, v):
        if isinstance(o, Tensor):
            TT.index_set(o, i, v)
            return
        if isinstance(o, dict):
            if isinstance(i, Sym):
                raise Unmodelled("symbolic key")
            self.owned_write(o, "key %r" % (i,))
            o[i] = v
            return
        if isinstance(o, list):
            if isinstance(i, Tensor):
                i = self.lib.tensor_index(i)
            if isinstance(i, Sym):
                raise Unmodelled("symbolic list index")
            self.owned_write(o, "index %r" % (i,))
            try:
                o[i] = v
            except IndexError:
                raise AbsRaise("IndexError", "list assignment index out of range")
            return
        if isinstance(o, Obj):
            f, c = o.cls.find("__setitem__")
            if f is not None:
                self.call(Bound(f, o), [i, v], {})
                return
        raise AbsRaise("TypeError", "%r object does not support item assignment" % type(o).__name__)

    def pull(self, o):
        """values of an iteration, one at a time"""
        if isinstance(o, Obj) and o.cls.find("__iter__")[0] is not None:
            o = self.call(Bound(o.cls.find("__iter__")[0], o), [], {})
        if isinstance(o, (GenV, LazyV)):
            while True:
                ok, v = o.resume()
                if not ok:
                    return
                yield v
        elif type(o) is IterV:
            while o:
                yield o.pop(0)
        elif isinstance(o, Obj) and o.cls.find("__next__")[0] is not None:
            nx = o.cls.find("__next__")[0]
            while True:
                try:
                    v = self.call(Bound(nx, o), [], {})
                except AbsRaise as e:
                    if e.etype == "StopIteration":
                        return
                    raise
                yield v
        elif isinstance(o, list):
            k = 0
            while k < len(o):
                yield o[k]
                k += 1
        else:
            yield from self.iterate(o)

    def iterate(self, o):
        if isinstance(o, LazyV):
            raise Unmodelled("an infinite iterator")
        if isinstance(o, IterV):
            r = list(o)
            del o[:]
            while isinstance(o, GenV):
                ok, v = o.resume()
                if not ok:
                    break
                r.append(v)
                if len(r) > 20000:
                    raise Unmodelled("an infinite iterator")
            return r
        if isinstance(o, (list, tuple, str, range, set, frozenset)):
            return list(o)
        if isinstance(o, dict):
            return list(o.keys())
        if isinstance(o, Class) and "__members__" in o.d:
            return list(o.d["__members__"])
        if isinstance(o, Tensor):
            if not o.shape:
                raise AbsRaise("TypeError", "iteration over a 0-d tensor")
            return [TT.index_get(o, k) for k in range(o.shape[0])]
        if type(o).__name__ in ("dict_keys", "dict_values", "dict_items", "zip", "enumerate", "map", "filter", "reversed", "list_iterator", "generator", "tuple_iterator", "range_iterator", "dict_keyiterator", "chain", "product", "repeat", "islice"):
            return list(o)
        if isinstance(o, Obj):
            if o.cls.find("__iter__")[0] is not None:
                r = []
                for v in self.pull(o):
                    r.append(v)
                    if len(r) > 20000:
                        raise Unmodelled("an infinite iterator")
                return r
            if o.cls.find("__getitem__")[0] is not None:
                raise Unmodelled("iteration through __getitem__")
        if hasattr(o, "abs_iter"):
            return o.abs_iter()
        if o is None or is_scalar(o):
            raise AbsRaise("TypeError", "%r object is not iterable" % (type(o).__name__))
        raise Unmodelled("iteration over %r" % (o,))

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env, mod):
        for st in body:
            self.exec_stmt(st, env, mod)

    def exec_stmt(self, st, env, mod):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unmodelled("analysis step limit")
        if self.stack:
            self.stack[-1][2] = st.lineno
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unmodelled("statement %s" % type(st).__name__)
        m(st, env, mod)

    def s_Expr(self, st, env, mod):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env, mod)

    def s_Pass(self, st, env, mod):
        pass

    def s_Break(self, st, env, mod):
        raise Brk()

    def s_Continue(self, st, env, mod):
        raise Cnt()

    def s_Return(self, st, env, mod):
        raise Ret(None if st.value is None else self.eval(st.value, env, mod))

    def s_Assign(self, st, env, mod):
        v = self.eval(st.value, env, mod)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, st, env, mod):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env, mod), env, mod)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, mod)
            self.setitem(o, self.eval_index(t.slice, env, mod), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iterate(v)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                n = len(t.elts) - 1
                if len(vals) < n:
                    raise AbsRaise("ValueError", "not enough values to unpack")
                tail = len(t.elts) - k - 1
                mid = vals[k:len(vals) - tail]
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, env, mod)
                self.assign(t.elts[k].value, ListV(mid), env, mod)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - tail:]):
                    self.assign(e, x, env, mod)
                return
            if len(vals) != len(t.elts):
                raise AbsRaise("ValueError", "unpack: expected %d values, got %d" % (len(t.elts), len(vals)))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env, mod)
        else:
            raise Unmodelled("assignment target")

    def s_AugAssign(self, st, env, mod):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            old = self.load(t.id, env, mod)
            self.store(t.id, self.augop(op, old, self.eval(st.value, env, mod)), env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env, mod)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(op, old, self.eval(st.value, env, mod)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, mod)
            i = self.eval_index(t.slice, env, mod)
            old = self.getitem(o, i)
            self.setitem(o, i, self.augop(op, old, self.eval(st.value, env, mod)))

    def augop(self, op, a, b):
        if isinstance(a, Tensor):
            return self.lib.inplace_op(op, a, b)
        if isinstance(a, list) and op == "Add":
            self.owned_write(a, "+=")
            a.extend(self.iterate(b))
            return a
        if isinstance(a, dict) and op == "BitOr":
            self.owned_write(a, "|=")
            a.update(b)
            return a
        return self.binop(op, a, b)

    def s_If(self, st, env, mod):
        if self.truth(self.eval(st.test, env, mod)):
            self.exec_block(st.body, env, mod)
        else:
            self.exec_block(st.orelse, env, mod)

    def s_For(self, st, env, mod):
        for x in self.pull(self.eval(st.iter, env, mod)):
            self.steps += 1
            if self.steps > self.step_limit:
                raise Unmodelled("analysis step limit")
            self.assign(st.target, x, env, mod)
            try:
                self.exec_block(st.body, env, mod)
            except Brk:
                return
            except Cnt:
                continue
        self.exec_block(st.orelse, env, mod)

    def s_While(self, st, env, mod):
        n = 0
        dec0 = len(self.taken)
        while self.truth(self.eval(st.test, env, mod)):
            n += 1
            if n > 4 and len(self.taken) > dec0 + 3:
                raise Abort("loop bound")
            if n > 5000:
                raise Unmodelled("while loop")
            try:
                self.exec_block(st.body, env, mod)
            except Brk:
                return
            except Cnt:
                continue
        self.exec_block(st.orelse, env, mod)

    def s_Match(self, st, env, mod):
        v = self.eval(st.subject, env, mod)
        for c in st.cases:
            names = {}
            if self.pattern(c.pattern, v, names, env, mod):
                for k, x in names.items():
                    self.store(k, x, env, mod)
                if c.guard is None or self.truth(self.eval(c.guard, env, mod)):
                    self.exec_block(c.body, env, mod)
                    return

    def pattern(self, p, v, names, env, mod):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.eval(p.value, env, mod)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, names, env, mod) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, names, env, mod):
                return False
            if p.name is not None:
                names[p.name] = v
            return True
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if not isinstance(v, (list, tuple, range)):
                if v is None or is_scalar(v) or isinstance(v, (str, dict)):
                    return False
                raise Unmodelled("sequence pattern")
            return len(v) == len(p.patterns) and all(self.pattern(q, x, names, env, mod) for q, x in zip(p.patterns, v))
        if isinstance(p, ast.MatchSequence) and isinstance(v, (list, tuple, range)):
            k = [isinstance(q, ast.MatchStar) for q in p.patterns].index(True)
            tail = len(p.patterns) - k - 1
            v = list(v)
            if len(v) < k + tail:
                return False
            if not all(self.pattern(q, x, names, env, mod) for q, x in zip(p.patterns[:k], v)) or \
                    not all(self.pattern(q, x, names, env, mod) for q, x in zip(p.patterns[k + 1:], v[len(v) - tail:])):
                return False
            if p.patterns[k].name is not None:
                names[p.patterns[k].name] = ListV(v[k:len(v) - tail])
            return True
        if isinstance(p, ast.MatchSequence):
            if v is None or is_scalar(v) or isinstance(v, (str, dict)):
                return False
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                if v is None or is_scalar(v) or isinstance(v, (str, list, tuple)):
                    return False
                raise Unmodelled("mapping pattern")
            ks = [self.eval(k, env, mod) for k in p.keys]
            if not all(k in v for k in ks) or not all(self.pattern(q, v[k], names, env, mod) for k, q in zip(ks, p.patterns)):
                return False
            if p.rest is not None:
                names[p.rest] = DictV((k, x) for k, x in v.items() if k not in ks)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.lib.isinstance(v, self.eval(p.cls, env, mod))
        raise Unmodelled("pattern %s" % type(p).__name__)

    def s_Assert(self, st, env, mod):
        if not self.truth(self.eval(st.test, env, mod)):
            msg = ""
            if st.msg is not None:
                msg = self.eval(st.msg, env, mod)
            raise AbsRaise("AssertionError", str(msg), ExcV(EXC["AssertionError"], (msg,)))

    def s_Raise(self, st, env, mod):
        if st.exc is None:
            e = env.v.get("__exc__") if env else None
            if e is not None:
                raise e
            raise AbsRaise("RuntimeError", "no active exception")
        v = self.eval(st.exc, env, mod)
        if isinstance(v, Class):
            v = ExcV(v, ())
        if isinstance(v, ExcV):
            raise AbsRaise(v.cls.name, str(v.args[0]) if v.args and isinstance(v.args[0], str) else "", v)
        raise AbsRaise("TypeError", "exceptions must derive from BaseException")

    def s_Try(self, st, env, mod):
        try:
            try:
                self.exec_block(st.body, env, mod)
            except AbsRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        tv = self.eval(h.type, env, mod)
                        tv = tv if isinstance(tv, tuple) else (tv,)
                        ec = e.value.cls if isinstance(e.value, ExcV) else EXC.get(e.etype, EXC["Exception"])
                        ok = any(isinstance(x, Class) and ec.issub(x) for x in tv)
                    if ok:
                        if h.name:
                            self.store(h.name, e.value if e.value is not None else ExcV(EXC.get(e.etype, EXC["Exception"]), (e.msg,)), env, mod)
                        if env is not None:
                            env.v["__exc__"] = e
                        self.exec_block(h.body, env, mod)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env, mod)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env, mod)

    def s_With(self, st, env, mod):
        self.with_items(list(st.items), st, env, mod)

    def with_items(self, items, st, env, mod):
        if not items:
            self.exec_block(st.body, env, mod)
            return
        it = items[0]
        oldg = Ctx.grad_enabled
        v = self.eval(it.context_expr, env, mod)
        r = self.lib.enter(v)
        try:
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, r, env, mod)
                self.with_items(items[1:], st, env, mod)
            except AbsRaise as e:
                if isinstance(v, (Obj, CmObj)):
                    # the body's own grad mode does not leak into __exit__
                    ev = e.value if e.value is not None else ExcV(EXC.get(e.etype, EXC["Exception"]), (e.msg,))
                    if self.lib.exit(v, e, ev):
                        return
                raise
            except (Ret, Brk, Cnt):
                self.lib.exit(v)
                raise
            self.lib.exit(v)
        finally:
            if not isinstance(v, (Obj, CmObj)):
                Ctx.grad_enabled = oldg

    def s_Delete(self, st, env, mod):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if env is not None:
                    env.v.pop(t.id, None)
                else:
                    mod.g.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env, mod)
                if isinstance(o, Obj) and t.attr in o.a:
                    del o.a[t.attr]
                    o.registered.discard(t.attr)
                else:
                    raise AbsRaise("AttributeError", t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env, mod)
                i = self.eval_index(t.slice, env, mod)
                if isinstance(o, (dict, list)):
                    self.owned_write(o, "del %r" % (i,))
                    try:
                        del o[i]
                    except (KeyError, IndexError):
                        raise AbsRaise("KeyError", repr(i))
                else:
                    raise Unmodelled("del")

    def s_Global(self, st, env, mod):
        if env is not None:
            env.globals_.update(st.names)

    def s_Nonlocal(self, st, env, mod):
        env.nonlocals.update(st.names)

    def s_Import(self, st, env, mod):
        for al in st.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store(al.asname, m, env, mod)
            else:
                top = al.name.split(".")[0]
                self.store(top, self.import_module(top), env, mod)

    def s_ImportFrom(self, st, env, mod):
        self.do_import_from(st, env, mod)

    def deco_names(self, node):
        r = []
        for d in node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            r.append(ast.unparse(e))
        return r

    def s_FunctionDef(self, st, env, mod, cls=None):
        f = self.mkfunc(st, env, mod, st.name, cls)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, f, env, mod)
        if cls is not None:
            return v
        self.store(st.name, v, env, mod)
        return v

    def decorate(self, d, v, f, env, mod):
        e = d.func if isinstance(d, ast.Call) else d
        n = ast.unparse(e)
        if n == "staticmethod":
            return StaticM(v)
        if n == "classmethod":
            return ClassM(v)
        if n in ("functools.cached_property", "cached_property"):
            p = Prop(v)
            p.cached = True
            return p
        if n == "property":
            return Prop(v)
        if n.endswith(".setter"):
            return ("setter", v)
        if n.split(".")[-1] in ("autocast", "lru_cache", "wraps", "once_differentiable", "custom_fwd", "custom_bwd", "overload", "abstractmethod", "script", "unused", "export", "ignore"):
            if n.split(".")[-1] == "lru_cache":
                return self.lib.memoised(v)
            return v
        if n in ("functools.cache", "cache", "functools.cached"):
            return self.lib.memoised(v)
        if n.split(".")[-1] == "contextmanager":
            return PyFn("contextmanager", lambda it, *a, **k: CmObj(it.call(v, list(a), k)))
        if n.split(".")[-1] in ("no_grad", "inference_mode"):
            f.deco = f.deco + ("no_grad",)
            return v
        dv = self.eval(d, env, mod)
        return self.call(dv, [v], {})

    def mkfunc(self, node, env, mod, name, cls=None):
        a = node.args
        old = self.owner
        self.owner = "default:" + ((cls.name + ".") if cls else "") + name
        try:
            d = [self.eval(x, env, mod) for x in a.defaults]
            kd = {x.arg: self.eval(v, env, mod) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        finally:
            self.owner = old
        return Func(node, mod, env, name, d, kd, cls)

    def s_ClassDef(self, st, env, mod):
        bases = []
        if [ast.unparse(b).split(".")[-1] for b in st.bases] == ["NamedTuple"]:
            self.store(st.name, self.lib.named_tuple_class(st, env, mod), env, mod)
            return
        if any(k.arg == "metaclass" and ast.unparse(k.value).split(".")[-1] != "ABCMeta" for k in st.keywords):
            raise Unmodelled("metaclass")
        mixin = None
        for b in st.bases:
            v = self.eval(b, env, mod)
            if isinstance(v, PyFn) and v.name in ("int", "str") and len(st.bases) == 2:
                mixin = v.name
                continue
            if isinstance(v, Ext) and v.path in ("enum.IntEnum", "enum.StrEnum"):
                mixin = v.path[5:8].lower()
                v = self.lib.classes["Enum"]
            if isinstance(v, Class):
                bases.append(v)
            elif isinstance(v, Ext):
                c = self.lib.ext_class(v.path)
                bases.append(c)
            else:
                raise Unmodelled("base class")
        if not bases:
            bases = [self.lib.object_class]
        cls = Class(st.name, bases, {}, mod)
        cenv = Env(env)
        for s in st.body:
            if self.stack:
                self.stack[-1][2] = s.lineno
            if isinstance(s, (ast.FunctionDef,)):
                v = self.s_FunctionDef(s, cenv, mod, cls)
                f = v
                if isinstance(v, tuple) and v[0] == "setter":
                    cls.d[s.name] = Prop(cls.d[s.name].fget, v[1])
                else:
                    cls.d[s.name] = v
                cenv.v[s.name] = cls.d[s.name]
            else:
                self.exec_stmt(s, cenv, mod)
                for k, v in cenv.v.items():
                    if k not in cls.d:
                        cls.d[k] = v
                    elif not isinstance(v, (Func, StaticM, ClassM, Prop)):
                        cls.d[k] = v
        # methods must not see class level names through the closure
        for v in cls.d.values():
            f = v
            while isinstance(f, (StaticM, ClassM)):
                f = f.f
            if isinstance(f, Prop):
                f = f.fget
            if isinstance(f, Func) and f.env is cenv:
                f.env = env
                f.cls = cls
        v = cls
        if any(b.name == "Enum" and b.lib for b in cls.mro):
            self.lib.finish_enum(cls, st, mixin)
        elif mixin:
            raise Unmodelled("subclass of %s" % mixin)
        for d in reversed(st.decorator_list):
            e = d.func if isinstance(d, ast.Call) else d
            n = ast.unparse(e).split(".")[-1]
            if n == "dataclass":
                self.lib.finish_dataclass(cls, st, {k.arg: self.eval(k.value, env, mod) for k in d.keywords} if isinstance(d, ast.Call) else {})
            elif n in ("final", "runtime_checkable"):
                pass
            elif n == "unique" and any(b.name == "Enum" and b.lib for b in cls.mro):
                pass
            else:
                dv = self.eval(d, env, mod)
                if not isinstance(dv, (Func, Bound, Obj, PyFn)):
                    raise Unmodelled("class decorator " + n)
                v = self.call(dv, [v], {})
        self.store(st.name, v, env, mod)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env, mod):
        return getattr(self, "e_" + type(e).__name__, self.e_unknown)(e, env, mod)

    def e_unknown(self, e, env, mod):
        raise Unmodelled("expression %s" % type(e).__name__)

    def e_Constant(self, e, env, mod):
        return e.value

    def e_Name(self, e, env, mod):
        return self.load(e.id, env, mod)

    def e_NamedExpr(self, e, env, mod):
        v = self.eval(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.eval(e.value, env, mod), e.attr)

    def eval_index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env, mod)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env, mod) for x in s.elts)
        return self.eval(s, env, mod)

    def e_Subscript(self, e, env, mod):
        return self.getitem(self.eval(e.value, env, mod), self.eval_index(e.slice, env, mod))

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def elts(self, xs, env, mod):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env, mod)))
            else:
                out.append(self.eval(x, env, mod))
        return out

    def e_List(self, e, env, mod):
        l = ListV(self.elts(e.elts, env, mod))
        l.owner = self.owner
        return l

    def e_Set(self, e, env, mod):
        return set(self.elts(e.elts, env, mod))

    def e_Dict(self, e, env, mod):
        d = DictV()
        d.owner = self.owner
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env, mod))
            else:
                kk = self.eval(k, env, mod)
                d[kk] = self.eval(v, env, mod)
        return d

    def e_JoinedStr(self, e, env, mod):
        return "".join(str(v.value) if isinstance(v, ast.Constant) else self.e_FormattedValue(v, env, mod) for v in e.values)

    def e_FormattedValue(self, e, env, mod):
        x = self.eval(e.value, env, mod)
        spec = self.eval(e.format_spec, env, mod) if e.format_spec is not None else ""
        if isinstance(x, (str, int, float)) and e.conversion in (-1, 115):
            try:
                return format(x, spec)
            except ValueError as q:
                raise AbsRaise("ValueError", str(q))
        return self.lib.to_str(x)

    def e_Lambda(self, e, env, mod):
        return self.mkfunc(e, env, mod, "<lambda>")

    def e_IfExp(self, e, env, mod):
        return self.eval(e.body if self.truth(self.eval(e.test, env, mod)) else e.orelse, env, mod)

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, env, mod)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, e, env, mod):
        v = self.eval(e.operand, env, mod)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, Sym):
                p = v.p if T.is_bit(v.p) else T.ne(v.p, ZERO)
                return mk_sym(T.sub(ONE, p), "bool")
            return not self.truth(v)
        if isinstance(v, Tensor):
            return self.lib.unop(op, v)
        if isinstance(v, Sym):
            if op == "USub":
                return mk_sym(T.scale(v.p, -1), "int" if v.kind == "bool" else v.kind)
            if op == "UAdd":
                return v
            if op == "Invert":
                return mk_sym(T.sub(T.scale(v.p, -1), ONE), "int")
        try:
            return {"USub": operator.neg, "UAdd": operator.pos, "Invert": operator.invert}[op](v)
        except TypeError as x:
            raise AbsRaise("TypeError", str(x))

    PYOP = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
            "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow,
            "LShift": operator.lshift, "RShift": operator.rshift, "BitAnd": operator.and_,
            "BitOr": operator.or_, "BitXor": operator.xor, "MatMult": operator.matmul}

    def e_BinOp(self, e, env, mod):
        a = self.eval(e.left, env, mod)
        b = self.eval(e.right, env, mod)
        if self.stack:
            self.stack[-1][2] = e.lineno
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            return self.lib.tbinop(op, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.sym_binop(op, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
                  "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul", "LShift": "lshift", "RShift": "rshift"}[op]
            if isinstance(a, Obj):
                f, c = a.cls.find("__%s__" % nm)
                if f is not None:
                    r = self.call(Bound(f, a), [b], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, Obj):
                f, c = b.cls.find("__r%s__" % nm)
                if f is not None:
                    r = self.call(Bound(f, b), [a], {})
                    if r is not NOTIMPL:
                        return r
            if any(c.lib for x in (a, b) if isinstance(x, Obj) for c in x.cls.mro):
                raise Unmodelled("%s of %r and %r" % (op, a, b))
            raise AbsRaise("TypeError", "unsupported operand types for %s" % op)
        if hasattr(a, "abs_binop"):
            return a.abs_binop(self, op, b, False)
        if hasattr(b, "abs_binop"):
            return b.abs_binop(self, op, a, True)
        if op == "Mod" and isinstance(a, str):
            try:
                return a % (tuple(self.unw(x) for x in b) if isinstance(b, tuple) else self.unw(b))
            except TypeError as x:
                if all(x is None or is_scalar(x) or isinstance(x, str) for x in (b if isinstance(b, tuple) else (b,))):
                    raise AbsRaise("TypeError", str(x))
                return a
            except Unmodelled:
                return a + "%" + self.lib.to_str(b)
        try:
            r = self.PYOP[op](a, b)
        except ZeroDivisionError as x:
            raise AbsRaise("ZeroDivisionError", str(x))
        except TypeError as x:
            if not all(v is None or is_scalar(v) or isinstance(v, (str, list, tuple, dict, set)) for v in (a, b)):
                raise Unmodelled("%s of %r and %r" % (op, a, b))
            raise AbsRaise("TypeError", str(x))
        except (ValueError, OverflowError) as x:
            raise AbsRaise(type(x).__name__, str(x))
        if type(r) is list:
            r = ListV(r)
        if type(r) is dict:
            r = DictV(r)
        return r

    def sym_binop(self, op, a, b):
        if not (is_scalar(a) and is_scalar(b)):
            if hasattr(a, "abs_binop"):
                return a.abs_binop(self, op, b, False)
            if hasattr(b, "abs_binop"):
                return b.abs_binop(self, op, a, True)
            for v in (a, b):
                if not (v is None or is_scalar(v) or isinstance(v, (str, list, tuple, dict, set))):
                    raise Unmodelled("%s of %r and %r" % (op, a, b))
            raise AbsRaise("TypeError", "unsupported operand type for %s" % op)
        x, y = sp(a), sp(b)
        ka, kb = skind(a), skind(b)
        k = "float" if "float" in (ka, kb) else "int"
        if op == "Add":
            return mk_sym(T.add(x, y), k)
        if op == "Sub":
            return mk_sym(T.sub(x, y), k)
        if op == "Mult":
            return mk_sym(T.mul(x, y), k)
        if op == "Div":
            if y.is_const() and y.cval() == 0:
                raise AbsRaise("ZeroDivisionError", "division by zero")
            return mk_sym(T.div(x, y), "float")
        if op == "FloorDiv":
            return mk_sym(T.floor(T.div(x, y)), k)
        if op == "Mod":
            return mk_sym(T.mod(x, y), k)
        if op == "Pow":
            if x.is_const() and x.cval() == 2:
                return mk_sym(T.pow2(y), k)
            if y.is_const() and isinstance(y.cval(), int) and 0 <= y.cval() <= 4:
                r = ONE
                for _ in range(y.cval()):
                    r = T.mul(r, x)
                return mk_sym(r, k)
            return mk_sym(T.fn("pow", (x, y)), k)
        if op in ("BitAnd", "BitOr", "BitXor"):
            f = {"BitAnd": T.band, "BitOr": T.bor, "BitXor": T.bxor}[op]
            return mk_sym(f(x, y), "bool" if ka == kb == "bool" else "int")
        if op == "LShift":
            return mk_sym(T.mul(x, T.pow2(y)), "int")
        if op == "RShift":
            return mk_sym(T.floor(T.mul(x, T.pow2(T.scale(y, -1)))), "int")
        raise Unmodelled("scalar op %s" % op)

    def e_Compare(self, e, env, mod):
        left = self.eval(e.left, env, mod)
        res = None
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env, mod)
            if self.stack:
                self.stack[-1][2] = e.lineno
            res = self.compare(type(op).__name__, left, right)
            if k < len(e.ops) - 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def same(self, a, b):
        """python == as python bool / Sym"""
        r = self.compare("Eq", a, b)
        return r

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(a, Sym) and isinstance(b, bool) and a.kind == "bool":
                r = mk_sym(T.eq(a.p, sp(b)), "bool")
                if op == "IsNot":
                    return mk_sym(T.sub(ONE, sp(r)), "bool")
                return r
            r = a is b or (type(a) is type(b) and isinstance(a, (bool, str, type(None), DType)) and a == b) \
                or (type(a) is int and type(b) is int and a == b and -5 <= a <= 256) or isinstance(a, Ext) and a == b
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else (not r)
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                if op == "Eq":
                    return False
                if op == "NotEq":
                    return True
                raise AbsRaise("TypeError", "comparison")
            return self.lib.tcompare(op, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if not (is_scalar(a) and is_scalar(b)):
                if op == "Eq":
                    return False
                if op == "NotEq":
                    return True
                raise AbsRaise("TypeError", "'%s' not supported between instances" % op)
            x, y = sp(a), sp(b)
            f = {"Eq": T.eq, "NotEq": T.ne, "Lt": T.lt, "LtE": T.le, "Gt": T.gt, "GtE": T.ge}[op]
            return mk_sym(f(x, y), "bool")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ("Eq", "NotEq"):
            r = type(a) in (list, ListV) and type(b) in (list, ListV) or isinstance(a, tuple) and isinstance(b, tuple)
            if r and len(a) == len(b):
                for x, y in zip(a, b):
                    if not self.truth(self.compare("Eq", x, y)):
                        r = False
                        break
            else:
                r = False
            return r if op == "Eq" else not r
        if isinstance(a, Obj) or isinstance(b, Obj):
            names = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
            for x, y, o in ((a, b, op), (b, a, {"Eq": "Eq", "NotEq": "NotEq", "Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}[op])):
                if not isinstance(x, Obj):
                    continue
                f, c = x.cls.find(names[o])
                if f is None and o == "NotEq":
                    f, c = x.cls.find("__eq__")
                    if f is not None:
                        r = self.call(Bound(f, x), [y], {})
                        if r is not NOTIMPL:
                            return not self.truth(r)
                        continue
                if f is not None:
                    r = self.call(Bound(f, x), [y], {})
                    if r is not NOTIMPL:
                        return r
            if op == "Eq":
                return a is b
            if op == "NotEq":
                return a is not b
            raise AbsRaise("TypeError", "comparison not supported")
        if hasattr(a, "abs_compare"):
            return a.abs_compare(self, op, b)
        try:
            return {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le,
                    "Gt": operator.gt, "GtE": operator.ge}[op](a, b)
        except TypeError as x:
            raise AbsRaise("TypeError", str(x))

    def contains(self, c, x):
        if isinstance(c, Tensor):
            r = self.lib.tcompare("Eq", c, x)
            v = r.get()
            acc = ONE
            for q in v:
                acc = T.mul(acc, T.sub(ONE, q))
            return self.decide(T.sub(ONE, acc))
        if isinstance(c, dict):
            return x in c
        if isinstance(c, str):
            if not isinstance(x, str):
                raise AbsRaise("TypeError", "'in <string>' requires string as left operand")
            return x in c
        if isinstance(c, (set, frozenset)):
            return x in c
        if isinstance(c, Obj) and c.cls.find("__contains__")[0] is not None:
            return self.truth(self.call(Bound(c.cls.find("__contains__")[0], c), [x], {}))
        for y in self.iterate(c):
            if y is x:
                return True
            if self.truth(self.compare("Eq", y, x)):
                return True
        return False

    def e_Call(self, e, env, mod):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                c = self.eval(e.args[0], env, mod)
                o = self.eval(e.args[1], env, mod)
                return SuperP(c, o)
            en = env
            while en is not None and "__class_cell__" not in en.v:
                en = en.parent
            if en is None or en.v["__class_cell__"] is None:
                raise AbsRaise("RuntimeError", "super(): no arguments")
            return SuperP(en.v["__class_cell__"], en.v["__first__"])
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and env is not None:
            return DictV({k: v for k, v in env.v.items() if not k.startswith("__")})
        f = self.eval(e.func, env, mod)
        args = self.elts(e.args, env, mod)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env, mod)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        if self.stack:
            self.stack[-1][2] = e.lineno
        return self.call(f, args, kw)

    def e_Starred(self, e, env, mod):
        raise Unmodelled("starred")

    def comp(self, e, env, mod, f):
        env2 = Env(env)

        def go(k):
            if k == len(e.generators):
                f(env2)
                return
            g = e.generators[k]
            for x in self.pull(self.eval(g.iter, env2, mod)):
                self.assign(g.target, x, env2, mod)
                if all(self.truth(self.eval(c, env2, mod)) for c in g.ifs):
                    go(k + 1)
        go(0)

    def e_ListComp(self, e, env, mod):
        out = ListV()
        out.owner = self.owner
        self.comp(e, env, mod, lambda en: out.append(self.eval(e.elt, en, mod)))
        return out

    def e_GeneratorExp(self, e, env, mod):
        return IterV(self.e_ListComp(e, env, mod))

    def e_SetComp(self, e, env, mod):
        out = set()
        self.comp(e, env, mod, lambda en: out.add(self.eval(e.elt, en, mod)))
        return out

    def e_DictComp(self, e, env, mod):
        out = DictV()
        out.owner = self.owner

        def f(en):
            k = self.eval(e.key, en, mod)
            out[k] = self.eval(e.value, en, mod)
        self.comp(e, env, mod, f)
        return out

    def generator(self, env):
        en = env
        while "__yield__" not in en.v:
            en = en.parent
        return en.v["__yield__"]

    def e_Yield(self, e, env, mod):
        v = None if e.value is None else self.eval(e.value, env, mod)
        return self.generator(env).yield_(v)

    def e_YieldFrom(self, e, env, mod):
        g = self.generator(env)
        src = self.eval(e.value, env, mod)
        for v in self.pull(src):
            g.yield_(v)
        return src.value if isinstance(src, GenV) else None
