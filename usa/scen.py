"""Scenario layer: summaries of the stateful units as a finite graph of heap phases, each with a
value-numbered transfer function.

A scenario fixes one *configuration* of a unit (modes, dtypes, widths, representative shapes) and
leaves everything else abstract: constructor tensors, the bits of every cycle, and the state the
unit is in.  The summary is the least fixpoint of the usual dataflow equations: abstract states
(constant | interval+integrality per heap cell) are propagated along the transfer functions until
they are stable (with widening), so the final transfer functions hold in every reachable state.
"""
import math
import os
from fractions import Fraction
from . import terms as T
from . import tensor as TT
from .tensor import Tensor, Storage, Sym, DType, AbsRaise, Unmodelled, DT
from .interp import Interp, Obj, DictV, ListV, Func, PyFn, Bound, Class, Ext, Mod, Abort
from .terms import P, ZERO, ONE, Poly

inf = math.inf


class Undecided(Exception):
    pass


class MissingAnchor(Exception):
    """a public name the analysis starts from no longer exists"""


class In:
    """one tensor the caller supplies on every call"""

    def __init__(self, name, shape, dtype="float32", kind="bit", lo=None, hi=None, value=None):
        self.name, self.shape, self.dtype, self.kind = name, tuple(shape), dtype, kind
        self.lo, self.hi, self.value = lo, hi, value

    def atoms(self):
        n = TT.numel(self.shape)
        if self.kind == "bit":
            return [T.bit("%s[%d]" % (self.name, i)) for i in range(n)]
        if self.kind == "int":
            return [T.var("%s[%d]" % (self.name, i), -inf if self.lo is None else self.lo, inf if self.hi is None else self.hi, True) for i in range(n)]
        if self.kind == "const":
            return [P(v) for v in self.value]
        return [T.var("%s[%d]" % (self.name, i), -inf if self.lo is None else self.lo, inf if self.hi is None else self.hi) for i in range(n)]

    def tensor(self):
        t = TT.new(self.atoms(), self.shape, DT[self.dtype])
        t.owner = t.st.owner = "caller:%s" % self.name
        return t


def owned(t, owner):
    t.owner = t.st.owner = owner
    return t


class Env:
    """what a scenario may use to build its unit"""

    def __init__(self, it):
        self.it = it
        self.params = {}
        self.cfgs = []

    def get(self, path):
        mod, name = path.rsplit(".", 1)
        try:
            m = self.it.import_module(self.it.pkg + "." + mod)
            return self.it.getattr(m, name)
        except AbsRaise as e:
            raise MissingAnchor("%s: %s" % (path, e))

    def cfg(self, d, name="hwcfg"):
        r = DictV()
        for k, v in d.items():
            if isinstance(v, str) and v.startswith("torch."):
                v = DT[v[6:]]
            r[k] = v
        r.owner = "caller:" + name
        self.cfgs.append(r)
        return r

    def param(self, name, shape, dtype="float32", lo=-1, hi=1, isint=False, vals=None):
        n = TT.numel(shape)
        if vals is None:
            vals = [T.var("p:%s[%d]" % (name, i), lo, hi, isint) for i in range(n)]
        else:
            vals = [P(v) for v in vals]
        t = owned(TT.new(vals, tuple(shape), DT[dtype]), "caller:" + name)
        self.params[name] = t
        return t

    def tensor(self, vals, shape, dtype="float32", owner="fresh"):
        return owned(TT.new([P(v) for v in vals], tuple(shape), DT[dtype]), owner)

    def call(self, f, *a, **k):
        return self.it.call(f, list(a), k)

    def make(self, path, *a, **k):
        return self.it.call(self.get(path), list(a), k)

    def method(self, o, name, *a, **k):
        return self.it.call(self.it.getattr(o, name), list(a), k)


class Scn:
    def __init__(self, name, unit, build, ins, call=None, ref=None, tags=(), info=None, pkg=None):
        self.name, self.unit, self.build, self.ins, self.ref = name, unit, build, ins, ref
        self._call = call
        self.tags = set(tags)
        self.info = info or {}

    def call(self, env, obj, ins):
        if self._call is not None:
            return self._call(env, obj, ins)
        return env.it.call(obj, list(ins), {})


# ---------------------------------------------------------------------------------- heap
class Heap:
    """canonical description of everything reachable from the unit"""

    def __init__(self, root, widened=()):
        self.sig = []
        self.cells = {}          # key -> ("st", storage, i) | ("py", container, key, kind)
        self.storages = {}       # id -> (path, storage)
        self.tensors = []        # (path, tensor)
        self.dicts = []          # (path, dict/list)
        self.ids = {}
        self.widened = widened
        self.go(root, "self")
        self.sig = tuple(self.sig)

    def put(self, path, *x):
        self.sig.append((path,) + x)

    def go(self, o, path, slot=None):
        if isinstance(o, Tensor):
            if id(o) in self.ids:
                self.put(path, "ref", self.ids[id(o)])
                return
            self.ids[id(o)] = path
            self.tensors.append((path, o))
            st = o.st
            if st.id not in self.storages:
                self.storages[st.id] = (path, st)
                used = sorted(set(o.positions())) if len(o.positions()) else []
                for i in range(len(st.data)):
                    self.cells["%s[%d]" % (path, i)] = ("st", st, i)
            sp = self.storages[st.id][0]
            strides = None if o.is_contig() else o.strides
            self.put(path, "T", o.shape, strides, o.off, o.dtype.name, sp, len(st.data))
            return
        if isinstance(o, bool) or o is None or isinstance(o, (str, bytes, Fraction, float, int)):
            if path in self.widened and isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
                self.put(path, "sym")
                self.cells[path] = ("py", slot[0], slot[1], "int" if isinstance(o, int) else "float")
                return
            self.put(path, "v", type(o).__name__, o if not isinstance(o, float) or o == o else "nan")
            return
        if isinstance(o, Sym):
            self.put(path, "sym")
            self.cells[path] = ("py", slot[0], slot[1], o.kind)
            return
        if isinstance(o, DType):
            self.put(path, "dtype", o.name)
            return
        if isinstance(o, Obj):
            if id(o) in self.ids:
                self.put(path, "ref", self.ids[id(o)])
                return
            self.ids[id(o)] = path
            self.put(path, "O", o.cls.name)
            for k in sorted(o.a, key=str):
                self.go(o.a[k], "%s.%s" % (path, k), (o.a, k))
            return
        if isinstance(o, dict):
            if id(o) in self.ids:
                self.put(path, "ref", self.ids[id(o)])
                return
            self.ids[id(o)] = path
            self.dicts.append((path, o))
            self.put(path, "D", len(o))
            for k in sorted(o, key=repr):
                self.go(o[k], "%s[%r]" % (path, k), (o, k))
            return
        if isinstance(o, (list, tuple)):
            if isinstance(o, list):
                if id(o) in self.ids:
                    self.put(path, "ref", self.ids[id(o)])
                    return
                self.ids[id(o)] = path
                self.dicts.append((path, o))
            self.put(path, "L", type(o).__name__, len(o))
            for i, v in enumerate(o):
                self.go(v, "%s[%d]" % (path, i), (o, i))
            return
        if isinstance(o, Bound):
            self.put(path, "bound")
            self.go(o.self_, path + ".__self__")
            return
        self.put(path, "x", type(o).__name__, getattr(o, "name", getattr(o, "path", "")) or "")

    def read(self):
        out = {}
        for k, c in self.cells.items():
            if c[0] == "st":
                out[k] = c[1].data[c[2]]
            else:
                v = c[1][c[2]]
                out[k] = v.p if isinstance(v, Sym) else P(v)
        return out

    def write(self, vals):
        for k, c in self.cells.items():
            if k not in vals:
                continue
            v = vals[k]
            if c[0] == "st":
                if c[1].data[c[2]] is not v:
                    c[1].data[c[2]] = v
            elif isinstance(c[1], (dict, list)):
                c[1][c[2]] = TT.mk_sym(v, c[3]) if not v.is_const() else (int(v.cval()) if c[3] == "int" else v.cval())


def flat(v):
    """canonical list of what a call returned"""
    if isinstance(v, Tensor):
        return [("T", v.shape, v.dtype.name, tuple(v.get()))]
    if isinstance(v, Sym):
        return [("S", (), v.kind, (v.p,))]
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return [("C", (), type(v).__name__, v)]
    if isinstance(v, (int, float, Fraction)):
        return [("S", (), type(v).__name__, (P(v),))]
    if isinstance(v, (tuple, list)):
        r = []
        for x in v:
            r += flat(x)
        return r
    if isinstance(v, dict):
        r = []
        for k in sorted(v, key=repr):
            r += flat(v[k])
        return r
    return [("X", (), type(v).__name__, None)]


def out_tensors(v):
    if isinstance(v, Tensor):
        return [v]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in out_tensors(x)]
    return []


# ---------------------------------------------------------------------------------- running
class Raised:
    def __init__(self, e):
        self.etype, self.msg = e.etype, str(e.msg)
        self.site = getattr(e, "site", None)
        self.chain = getattr(e, "chain", None)

    def __repr__(self):
        s = self.site or ("?", "?", 0)
        return "%s: %s (at %s, %s:%s)" % (self.etype, self.msg[:160], s[0], s[1], s[2])


class Sources(dict):
    pass


ROOT = os.environ.get("USA_ROOT", "/repo")   # another root only for development
SOURCES = {}


class Stats:
    def __init__(self):
        self.files, self.funcs, self.calls, self.runs, self.steps = set(), set(), 0, 0, 0

    def add(self, it):
        self.files |= it.files
        self.funcs |= it.funcs
        self.calls += it.calls
        self.steps += it.steps
        self.runs += 1

    def merge(self, o):
        self.files |= o.files
        self.funcs |= o.funcs
        self.calls += o.calls
        self.runs += o.runs
        self.steps += o.steps


STATS = Stats()


def interp(decisions=(), stubs=None):
    it = Interp(ROOT, decisions=decisions, sources=SOURCES)
    if stubs:
        it.stubs.update(stubs)
    return it


def preload():
    """parse every source file once (a file that does not parse is met again where it is used)"""
    import ast
    for d in ("kernel", "stream", "metric"):
        base = os.path.join(ROOT, d)
        for f in sorted(os.listdir(base)) if os.path.isdir(base) else ():
            if f.endswith(".py"):
                path = os.path.join(base, f)
                try:
                    with open(path) as h:
                        SOURCES[path] = ast.parse(h.read(), path)
                except (SyntaxError, ValueError):
                    pass


class Build:
    """result of constructing the unit"""
    pass


def construct(scn, decisions=()):
    it = interp(decisions, scn.info.get("stubs"))
    env = Env(it)
    for m in ("stream", "kernel", "metric"):
        it.import_module(it.pkg + "." + m)
    it.events = []
    b = Build()
    b.it, b.env = it, env
    b.raised = None
    it.default_decision = scn.info.get("build_default", True)
    try:
        b.obj = scn.build(env)
    except AbsRaise as e:
        b.raised = Raised(e)
        b.obj = None
    it.default_decision = True
    b.events = it.events
    b.guard = it.guard
    b.ndec = len(it.taken)
    return b


class Edge:
    __slots__ = ("src", "dst", "guard", "outs", "post", "raised", "events", "heap_dicts")


class Phase:
    def __init__(self, pid, sig, prefix):
        self.id, self.sig, self.prefix = pid, sig, prefix
        self.state = {}
        self.count = {}
        self.edges = []
        self.dirty = True
        self.atoms = {}


class Summary:
    def __init__(self, scn):
        self.scn = scn
        self.phases = []
        self.raised = None          # constructor failed
        self.build_events = []
        self.widened = set()
        self.params = {}


def is_param_term(p):
    for i in T.deep_vars(p):
        n = T.atom(i).data[0]
        if not (n.startswith("p:") or n.startswith("junk") or n.startswith("lfsr") or n.startswith("rand")):
            return False
    return True


def abs_of(p):
    if p.is_const() or is_param_term(p):
        return ("c", p)
    lo, hi = T.interval(p)
    return ("r", lo, hi, T.is_int(p))


def as_range(a):
    if a[0] == "r":
        return a
    lo, hi = T.interval(a[1])
    return ("r", lo, hi, T.is_int(a[1]))


def cell_atom(key, a):
    if a[0] == "c":
        return a[1]
    return T.var("s:" + key, a[1], a[2], a[3])


MAXPHASE = 8
MAXLEAVES = 48


def analyse(scn, max_rounds=60):
    """least fixpoint over heap phases"""
    S = Summary(scn)
    while True:
        r = _analyse(scn, S, max_rounds)
        if r is None:
            return S
        S2 = Summary(scn)
        S2.widened = S.widened | r
        if len(S2.widened) == len(S.widened):
            raise Undecided("heap shape keeps changing")
        S = S2


def _run_to(scn, S, prefix, last_state, suffix):
    """construct, replay the prefix (list of (state, decisions)), then one more call from
    last_state exploring decisions `suffix`"""
    dec = list(prefix[0][1])
    for st, d in prefix[1:]:
        dec += d
    dec += suffix
    b = construct(scn, dec)
    it, env = b.it, b.env
    try:
        if b.raised is not None:
            return b, None, None, None
        for st, d in prefix[1:]:
            h = Heap(b.obj, S.widened)
            h.write({k: cell_atom(k, a) for k, a in st.items()})
            it.guard = ONE
            ins = [i.tensor() for i in scn.ins]
            scn.call(env, b.obj, ins)
        n0 = len(it.taken)
        pre = Heap(b.obj, S.widened)
        atoms = None
        if last_state is not None:
            atoms = {k: cell_atom(k, a) for k, a in last_state.items()}
            pre.write(atoms)
        it.guard = ONE
        it.events = []
        ins = [i.tensor() for i in scn.ins]
        rec = {"ins": ins, "pre": pre, "atoms": atoms, "n0": n0, "raised": None, "out": None}
        try:
            rec["out"] = scn.call(env, b.obj, ins)
        except AbsRaise as e:
            rec["raised"] = Raised(e)
        rec["events"] = it.events
        rec["guard"] = it.guard
        rec["taken"] = list(it.taken[n0:])
        rec["post"] = Heap(b.obj, S.widened) if rec["raised"] is None else None
        return b, rec, it, env
    finally:
        STATS.add(it)


def _explore(scn, S, ph, by_sig, work, grow):
    """all paths of one call from the abstract state of the phase; with grow, the post states are
    joined into their phases (and widened), otherwise they must already be included"""
    ph.edges = []
    suffix = []
    leaves = 0
    ph.atoms = {k: cell_atom(k, a) for k, a in ph.state.items()}
    while True:
        leaves += 1
        if leaves > MAXLEAVES:
            raise Undecided("too many data dependent paths")
        b, rec, it, env = _run_to(scn, S, ph.prefix, ph.state if ph.id else None, suffix)
        e = Edge()
        e.src, e.guard, e.raised, e.events = ph.id, rec["guard"], rec["raised"], rec["events"]
        if e.raised is None:
            e.outs = flat(rec["out"])
            post = rec["post"]
            e.post = post.read()
            q = by_sig.get(post.sig)
            if q is None:
                if not grow:
                    return False
                if len(S.phases) >= MAXPHASE:
                    return _widen(S, by_sig, post.sig)
                q = Phase(len(S.phases), post.sig, ph.prefix + [(dict(ph.state) if ph.id else {}, list(rec["taken"]))])
                by_sig[post.sig] = q
                S.phases.append(q)
                work.append(q)
            e.dst = q.id
            ch = False
            for k, v in e.post.items():
                old = q.state.get(k)
                if ph.id and ph.atoms.get(k) is v or v == ph.atoms.get(k):
                    a = ph.state[k]
                else:
                    a = abs_of(v)
                if not grow:
                    if old is None or not _below(a, old):
                        return False
                    continue
                if old is None:
                    q.state[k] = a
                    ch = True
                elif old != a:
                    if old[0] == "c" and a[0] == "c" and old[1] == a[1]:
                        continue
                    x, y = as_range(old), as_range(a)
                    lo, hi, ii = min(x[1], y[1]), max(x[2], y[2]), x[3] and y[3]
                    n = ("r", lo, hi, ii)
                    if n != old:
                        c = q.count.get(k, 0) + 1
                        q.count[k] = c
                        if c > 4:
                            lo = -inf if lo < x[1] else lo
                            hi = inf if hi > x[2] else hi
                            n = ("r", lo, hi, ii)
                        q.state[k] = n
                        ch = True
            if ch and not q.dirty:
                q.dirty = True
                if q not in work:
                    work.append(q)
        else:
            e.outs, e.post, e.dst = None, None, None
        ph.edges.append(e)
        tk = rec["taken"]
        while tk and tk[-1] is False:
            tk.pop()
        if not tk:
            return None
        suffix = tk[:-1] + [False]


def _below(a, b):
    if b[0] == "c":
        return a[0] == "c" and a[1] == b[1]
    x = as_range(a)
    return x[1] >= b[1] and x[2] <= b[2] and (x[3] or not b[3])


def _narrow(scn, S, by_sig):
    """one descending step for bounds lost by widening; kept only when it is again inductive"""
    new = {}
    for p in S.phases:
        for e in p.edges:
            if e.raised is not None:
                continue
            for k, v in e.post.items():
                d = S.phases[e.dst]
                old = d.state.get(k)
                if old is None or old[0] != "r" or (old[1] != -inf and old[2] != inf):
                    continue
                if p.id == e.dst and (p.atoms.get(k) is v or v == p.atoms.get(k)):
                    continue
                y = as_range(p.state[k] if p.id and v == p.atoms.get(k) else abs_of(v))
                x = new.get((e.dst, k))
                new[(e.dst, k)] = y if x is None else ("r", min(x[1], y[1]), max(x[2], y[2]), x[3] and y[3])
    ch = {c: a for c, a in new.items() if a != S.phases[c[0]].state[c[1]] and _below(a, S.phases[c[0]].state[c[1]])}
    if not ch:
        return False
    save = [(p, dict(p.state), p.edges, p.atoms) for p in S.phases]
    for (i, k), a in ch.items():
        S.phases[i].state[k] = a
    for p in S.phases:
        if _explore(scn, S, p, by_sig, [], False) is not None:
            for p, st, ed, at in save:
                p.state, p.edges, p.atoms = st, ed, at
            return False
    return True


def _analyse(scn, S, max_rounds):
    S.phases = []
    by_sig = {}
    # construction
    try:
        b = construct(scn)
    except Abort:
        if "build_default" not in scn.info:
            raise
        scn.info["build_default"] = not scn.info["build_default"]
        b = construct(scn)
    STATS.add(b.it)
    S.build_events = b.events
    S.params = dict(b.env.params)
    if b.raised is not None:
        S.raised = b.raised
        return None
    if b.ndec and "build_default" not in scn.info:
        # constructor branches on abstract data: follow the canonical leaf only when it is the only one
        raise Undecided("constructor branches on abstract values")
    h = Heap(b.obj, S.widened)
    p0 = Phase(0, None, [(None, list(b.it.taken))])
    p0.state = {k: ("c", v) for k, v in h.read().items()}
    p0.init_sig = h.sig
    S.phases.append(p0)
    work = [p0]
    rounds = 0
    seen_sigs = []
    while work:
        ph = work.pop(0)
        ph.dirty = False
        rounds += 1
        if rounds > max_rounds:
            raise Undecided("no fixpoint after %d rounds" % max_rounds)
        q = _explore(scn, S, ph, by_sig, work, True)
        if q is not None:
            return q
    for _ in range(3):
        if not _narrow(scn, S, by_sig):
            break
    return None


def _widen(S, by_sig, sig):
    """python numbers that keep changing become abstract cells"""
    last = dict((x[0], x) for x in sig)
    out = set()
    sigs = [p.sig for p in S.phases if p.sig is not None] + [sig]
    vals = {}
    for s in sigs:
        for x in s:
            if len(x) == 4 and x[1] == "v" and x[2] in ("int", "float", "Fraction"):
                vals.setdefault(x[0], set()).add(x[3])
    for p, v in vals.items():
        if len(v) > 2:
            out.add(p)
    return out


def changing_cells(S):
    """cells of the state that are not constant in the fixpoint"""
    r = set()
    for p in S.phases:
        for k, a in p.state.items():
            if a[0] == "r":
                r.add(k)
    return r
