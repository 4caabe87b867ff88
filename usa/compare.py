"""Comparison of extracted transfer functions with reference transfer functions.

 proof       : a cell-to-cell simulation relation is inferred (never by name) and every output and
               every next-state component has the same normal form in every abstract state;
               components that differ syntactically may still be equal by exhaustion over a finite
               abstract domain.
 refutation  : the two transfer functions are iterated together from the initial state; a
               difference in something the caller can observe is a witness.
 otherwise   : undecided (never reported as a violation).
"""
import math
import random
import time
from fractions import Fraction
from itertools import product
from . import terms as T
from . import tensor as TT
from .terms import P, ZERO, ONE, Poly, EvalError

inf = math.inf


# ------------------------------------------------------------------------------- compilation
class Compiled:
    """evaluates a list of normal forms for concrete values of their variables"""

    def __init__(self, polys, varids):
        self.polys = polys
        self.varids = list(varids)
        self.lines = []
        self.names = {}
        self.consts = {"EvalError": EvalError, "Fraction": Fraction}
        for n, i in enumerate(self.varids):
            self.names[i] = "v[%d]" % n
        self.n = 0
        try:
            exprs = [self.poly(p) for p in polys]
            src = "def f(v):\n" + "".join("    %s\n" % l for l in self.lines) + "    return [%s]\n" % ", ".join(exprs)
            exec(compile(src, "<summary>", "exec"), self.consts)
            self.f = self.consts["f"]
        except (RecursionError, KeyError):
            self.f = None

    def cname(self, c):
        if isinstance(c, int):
            return str(c) if c >= 0 else "(%d)" % c
        k = "c%d" % len(self.consts)
        self.consts[k] = c
        return k

    def poly(self, p):
        if not p.t:
            return "0"
        parts = []
        for m, c in p.t.items():
            f = [self.at(i) for i in m]
            if c != 1 or not f:
                f = [self.cname(c)] + f
            parts.append("*".join(f))
        return "(" + "+".join(parts) + ")"

    def at(self, i):
        n = self.names.get(i)
        if n is not None:
            return n
        a = T.atom(i)
        if a.kind == "var":
            raise KeyError(i)
        if a.kind in ("ge", "gt"):
            e = "1 if %s %s 0 else 0" % (self.poly(Poly(dict(a.data))), ">=" if a.kind == "ge" else ">")
        else:
            name, args, par = a.data
            if name == "sel" and all(q.is_const() for q in args[1:]):
                k = "t%d" % len(self.consts)
                self.consts[k] = _Tab([q.cval() for q in args[1:]])
                e = "%s[%s]" % (k, self.poly(args[0]))
            else:
                k = "g_" + name
                if T.FN[name][1] is None:
                    raise KeyError(name)
                self.consts[k] = _wrapf(T.FN[name][1])
                k2 = "p%d" % len(self.consts)
                self.consts[k2] = par
                e = "%s([%s], %s)" % (k, ", ".join(self.poly(q) for q in args), k2)
        self.n += 1
        n = "a%d" % self.n
        self.lines.append("%s = %s" % (n, e))
        self.names[i] = n
        return n

    def __call__(self, vals):
        if self.f is not None:
            try:
                return self.f(vals)
            except EvalError:
                pass
        env = dict(zip(self.varids, vals))
        memo = {}
        return [T.evaluate(p, env, memo) for p in self.polys]


class _Tab:
    def __init__(self, v):
        self.v = v
        self.n = len(v)

    def __getitem__(self, i):
        if i != int(i) or not -self.n <= i < self.n:
            raise EvalError("index out of range")
        return self.v[int(i)]


def _wrapf(f):
    def g(v, par):
        try:
            return f(v, par)
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            raise EvalError("domain")
    return g


def varids_of(polys):
    s = set()
    for p in polys:
        s |= T.deep_vars(p)
    return s


# ------------------------------------------------------------------------------- equality
def finite_domain(i):
    a = T.atom(i)
    if a.isint and a.lo > -inf and a.hi < inf:
        return range(int(a.lo), int(a.hi) + 1)
    return None


def is_zero(p, limit=20000):
    """True / False (with a witness valuation) / None"""
    if not p.t:
        return True, None
    vs = sorted(T.deep_vars(p))
    n = 1
    doms = []
    for i in vs:
        d = finite_domain(i)
        if d is None:
            return None, None
        n *= len(d)
        if n > limit:
            return None, None
        doms.append(d)
    c = Compiled([p], vs)
    for vals in product(*doms):
        try:
            if c(list(vals))[0] != 0:
                return False, dict(zip(vs, vals))
        except EvalError:
            return None, None
    return True, None


def implied(guard):
    """bits whose value follows from guard == 1"""
    m = {}
    for i in T.atoms_of(guard):
        if T.atom(i).isbit:
            if not T.substitute(guard, {i: ZERO}).t:
                m[i] = ONE
            elif not T.substitute(guard, {i: ONE}).t:
                m[i] = ZERO
    return m


def equal(p, q, guard=ONE):
    if p == q:
        return True
    if guard is not ONE:
        m = implied(guard)
        if m:
            p, q, guard = T.substitute(p, m), T.substitute(q, m), T.substitute(guard, m)
            if p == q:
                return True
    d = T.sub(p, q)
    if guard is not ONE:
        d = T.mul(guard, d)
    r = is_zero(d)[0]
    if r is None and T.loosen(d) == ZERO:
        return True
    return r is True


# ------------------------------------------------------------------------------- reference
class Ref:
    """reference automaton; subclasses define init() and step()"""
    kinds = {}
    mods = {}           # state variables that only matter modulo n

    def init(self, params):
        return {}

    def step(self, st, ins):
        raise NotImplementedError

    def svars(self, st):
        """fresh reference state atoms shaped like st"""
        out = {}
        for k, v in st.items():
            kind = self.kinds.get(k, "int")
            if kind == "bit":
                out[k] = [T.bit("r:%s[%d]" % (k, i)) for i in range(len(v))]
            elif kind == "real":
                out[k] = [T.var("r:%s[%d]" % (k, i)) for i in range(len(v))]
            elif isinstance(kind, tuple):
                out[k] = [T.var("r:%s[%d]" % (k, i), kind[0], kind[1], True) for i in range(len(v))]
            else:
                out[k] = [T.var("r:%s[%d]" % (k, i), -inf, inf, True) for i in range(len(v))]
        return out


def ins_terms(scn):
    return {i.name: i.atoms() for i in scn.ins}


class Result:
    def __init__(self, scn, status, why="", witness=None, stats=None):
        self.scn, self.status, self.why, self.witness, self.stats = scn, status, why, witness, stats or {}
        self.site = None


def observable(e, outs_ref, ref_meta):
    """pairs (index, impl vals, ref vals) or a structural difference"""
    got = [o for o in e.outs if not (o[0] == "C" and o[3] is None)]
    if len(got) != len(outs_ref):
        return "number of results is %d, expected %d" % (len(got), len(outs_ref))
    for n, (o, r) in enumerate(zip(got, outs_ref)):
        shape, dtype, vals = r
        if o[0] not in ("T", "S"):
            return "result %d is %s, expected a tensor" % (n, o[2])
        if shape is not None and tuple(o[1]) != tuple(shape):
            return "result %d has shape %s, expected %s" % (n, tuple(o[1]), tuple(shape))
        if dtype is not None and o[2] != dtype:
            return "result %d has dtype %s, expected %s" % (n, o[2], dtype)
        if len(o[3]) != len(vals):
            return "result %d has %d elements, expected %d" % (n, len(o[3]), len(vals))
    return None


def candidates(S, ref, steps=36, walks=4):
    """which state cells could hold which reference state variable: cells whose value agrees along
    sample evaluations of the two transfer functions (a heuristic; every candidate is then checked
    inductively).  -> {(var, index): [cells]} or a witness of an output difference"""
    from . import refs
    refs.WRAPPED.clear()
    scn = S.scn
    common = None
    for p in S.phases[1:]:
        ks = set(p.state)
        common = ks if common is None else common & ks
    cand = None
    big = max([n for n in ref.mods.values() if n] or [0])
    long = min(big + 12, 600) if big > 16 else 0         # far enough to see an index wrap around
    steps = max(steps, min(getattr(ref, "delay", 0), 520) + 20)
    done, fail = 0, None
    for n, penv in enumerate(param_envs(S, all_param_ids(S), 10)):
        if done == 2:
            break
        try:
            m = Machine(S, penv)
            rm = RefMachine(ref, S, penv, m.in_ids, n)
            rng = random.Random(11 + n)
            alpha, full = input_alphabet(scn, rng, 64)
            if cand is None:
                cand = {k: set(common or ()) for k in rm.names}
                trace = []
            cvals = [{} for _ in S.phases]
            for p in S.phases[1:]:
                for k in common or ():
                    a = p.state[k]
                    if a[0] == "c":
                        ids = sorted(T.deep_vars(a[1]))
                        try:
                            cvals[p.id][k] = Compiled([a[1]], ids)([m.pval(i) for i in ids])[0]
                        except EvalError:
                            cvals[p.id][k] = None
            for w in range(walks):
                pid, st, rst = 0, (), rm.init
                for c in range(long if w in (0, 1) and long else steps):
                    ins = alpha[-1] if w == 0 and (c < 4 or long) else alpha[0] if w == 1 and long else rng.choice(alpha)
                    o, q, s2 = m.step(pid, st, ins)
                    if o == "raise":
                        break
                    ro, rs2 = rm.step(rst, ins)
                    pid, st, rst = q, s2, rs2
                    vals = dict(cvals[pid])
                    vals.update(zip(m.ph[pid]["keys"], st))
                    trace.append((vals, dict(zip(rm.names, rs2))))
                    for nm, x in zip(rm.names, rs2):
                        s = cand[nm]
                        if s:
                            cand[nm] = {k for k in s if vals.get(k) == x}
            done += 1
        except EvalError as ex:
            fail = ex
    if not done and fail is not None:
        raise fail
    out = {}
    wrapped = set()
    for nm, s in cand.items():
        out[nm] = {(c, 1, 0, None) for c in s}
        if nm[0] in wrapped:
            continue
        n = ref.mods.get(nm[0])
        if s and n is not None:
            out[nm] |= {(c, 1, 0, n) for c in common or () if c not in s and all(isinstance(v.get(c), int) and v[c] == r[nm] % n for v, r in trace)}
        if not s:
            if n is not None:
                f = {c for c in common or () if all(isinstance(v.get(c), int) and v[c] == r[nm] % n for v, r in trace)}
                if f:
                    wrapped.add(nm[0])
                    continue
        if not s:
            for c in common or ():
                f = affine([(v.get(c), r[nm]) for v, r in trace])
                if f:
                    out[nm].add((c,) + f + (None,))
        if trace:
            vs = {r[nm] for v, r in trace}
            if len(vs) == 1:
                out[nm].add((CONST, vs.pop(), 0, None))
    for nm in cand:
        if nm[0] in wrapped:
            n = ref.mods[nm[0]]
            out[nm] = {(c, 1, 0, None) for c in common or () if all(isinstance(v.get(c), int) and v[c] == r[nm] % n for v, r in trace)}
    refs.WRAPPED |= wrapped
    return out


CONST = ""


def agrees(y, x, c, g):
    """does cell value y relate to variable value x as pair c says"""
    if c[3] is not None:
        return equal(y, T.mod(x, c[3]), g)
    return equal(y * c[1] + c[2], x, g)


def classes(pairs, atoms):
    """cells tied to each other through the variables they are candidates for, each with the value
    of its class (a constant, else its cell of least range)"""
    up = {}

    def find(x):
        while up.setdefault(x, x) != x:
            up[x] = x = up[up[x]]
        return x
    for v, l in pairs.items():
        for c, k, b, m in l:
            if m is None and b == 0 and (k == 1 or c == CONST):
                up[find((1, (CONST, k) if c == CONST else c))] = find((0, v))
    rep = {}

    def width(c):
        lo, hi = T.interval(atoms[c])[:2]
        return (hi - lo, c)
    for x in sorted((x for x in up if x[0] == 1), key=lambda x: (0, x[1]) if type(x[1]) is tuple else (1, width(x[1]))):
        c = x[1]
        rep.setdefault(find(x), ONE * c[1] if type(c) is tuple else atoms[c])
    return {x[1]: rep[find(x)] for x in up if x[0] == 1 and type(x[1]) is not tuple}


def affine(pts):
    """(a, b) with y == a*x + b on all points and a != 0"""
    x0, y0 = pts[0]
    if x0 is None or isinstance(x0, float):
        return None
    for x, y in pts:
        if x is None or isinstance(x, float) or isinstance(y, float):
            return None
        if x != x0:
            a = Fraction(y - y0) / Fraction(x - x0)
            b = y0 - a * x0
            if a == 0:
                return None
            for x, y in pts:
                if y != a * x + b:
                    return None
            return a, b
        if y != y0:
            return None
    return None


def results(e):
    return [o for o in e.outs if not (o[0] == "C" and o[3] is None)]


def prove(S, ref, single=False):
    """-> (True, stats, "") | (False, reason, kind)"""
    scn = S.scn
    ins = ins_terms(scn)
    st0 = ref.init(S.params)
    outs0, st1 = ref.step(st0, ins)
    stats = {"out_obligations": 0, "state_obligations": 0, "phases": len(S.phases)}
    for p in S.phases:
        for e in p.edges:
            if e.raised is not None:
                S.suspect = e
                return False, "a call can raise %s" % e.raised, "raise"
    for p in S.phases:
        for e in p.edges:
            s = observable(e, outs0, None)
            if s:
                S.suspect = e
                return False, s, "structure"
    for e in S.phases[0].edges:
        for o, r in zip(results(e), outs0):
            for x, y in zip(o[3], r[2]):
                stats["out_obligations"] += 1
                if not equal(x, y, e.guard):
                    return False, "first-cycle output differs: %s instead of %s" % (T.show(x), T.show(y)), "output"
    if not st0:
        for p in S.phases[1:]:
            for e in p.edges:
                for o, r in zip(results(e), outs0):
                    for x, y in zip(o[3], r[2]):
                        stats["out_obligations"] += 1
                        if not equal(x, y, e.guard):
                            return False, "output differs in phase %d: %s instead of %s" % (p.id, T.show(x), T.show(y)), "output"
        return True, stats, ""
    try:
        cand = candidates(S, ref)
    except EvalError as ex:
        return False, "cannot evaluate (%s)" % ex, "limit"
    changing = set()
    for p in S.phases:
        for k, a in p.state.items():
            if a[0] == "r":
                changing.add(k)
    pairs = {}
    for k, s in cand.items():
        l = sorted(s)
        fixed = [x for x in l if x[0] not in changing]
        l = fixed[:2] + [x for x in l if x[0] in changing]
        if not l:
            return False, "no state cell corresponds to reference state %s[%d]" % k, "relation"
        pairs[k] = l
    if single:
        # one cell per variable, no cell used twice when that can be avoided
        used = set()
        for k in sorted(pairs, key=lambda k: len(pairs[k])):
            l = pairs[k]
            l = [c for c in l if c[3] is None] or l
            c = next((c for c in l if c[0] not in used), None) or l[0]
            used.add(c[0])
            pairs[k] = [c]
    # Houdini: the conjunction of all `variable == a*cell + b` pairs, weakened until inductive
    for attempt in range(60):
        bad = {}
        outbad = None
        for p in S.phases:
            st = {}
            smap = {}
            if p.id:
                val = {}
                atoms = dict(p.atoms)
                atoms[CONST] = ONE
                val.update(classes(pairs, atoms))
                for c, y in val.items():
                    if p.atoms[c] != y and p.state[c][0] == "r":
                        smap[next(iter(T.atoms_of(p.atoms[c])))] = y
                for v, vals in st0.items():
                    st[v] = []
                    for j in range(len(vals)):
                        l = pairs[(v, j)]
                        e = [c for c in l if c[3] is None]
                        if not e:
                            return False, "no state cell corresponds to reference state %s[%d]" % (v, j), "relation"
                        x = next((val[c] * k + b for c, k, b, m in e if c in val), None)
                        if x is None:
                            c, k, b, m = e[0]
                            x = atoms[c] * k + b
                        st[v].append(x)
                        for c, k, b, m in l:
                            if c in val or c == CONST:
                                continue
                            y = T.mod(x, m) if m is not None else (x - b) * Fraction(1, k) if k != 1 else x - b
                            val[c] = y
                            if p.atoms[c] != y and p.state[c][0] == "r":
                                smap[next(iter(T.atoms_of(p.atoms[c])))] = y
            else:
                st = st0
            memo = {}

            def imp(x):
                return T.substitute(x, smap, memo) if smap else x
            outs, nst = ref.step(st, ins)
            for e in p.edges:
                g = imp(e.guard)
                for v, vals in nst.items():
                    for j, x in enumerate(vals):
                        for c in pairs[(v, j)]:
                            stats["state_obligations"] += 1
                            y = ONE if c[0] == CONST else e.post.get(c[0])
                            if y is None or not agrees(imp(y), x, c, g):
                                bad.setdefault((v, j), {})[c] = (x, y)
                if bad or outbad:
                    continue
                for o, r in zip(results(e), outs):
                    for x, y in zip(o[3], r[2]):
                        stats["out_obligations"] += 1
                        if outbad is None and not equal(imp(x), y, g):
                            outbad = "output differs in phase %d: %s instead of %s" % (p.id, T.show(imp(x)), T.show(y))
        if not bad:
            if outbad:
                return False, outbad, "output"
            stats["relation"] = sum(len(l) for l in pairs.values())
            return True, stats, ""
        for k, d in bad.items():
            pairs[k] = [c for c in pairs[k] if c not in d]
            if not pairs[k]:
                c, (x, y) = next(iter(d.items()))
                why = "next state of %s[%d] differs" % k
                if y is not None:
                    why += ": %s instead of %s" % (T.show(y), T.show(x))
                return False, why, "relation"
    return False, "no simulation relation found", "relation"


# ------------------------------------------------------------------------------- lockstep
class Machine:
    """the summary as an executable transition system"""

    def __init__(self, S, penv):
        """penv: param atom id -> value"""
        self.S = S
        scn = S.scn
        self.in_ids = [a for i in scn.ins for p in i.atoms() for a in T.atoms_of(p)]
        self.penv = penv
        self.ph = []
        for p in S.phases:
            keys = sorted(k for k, a in p.state.items() if a[0] == "r") if p.id else []
            cvars = {}
            sids = []
            for k in keys:
                (i,) = T.atoms_of(p.atoms[k])
                sids.append(i)
            self.ph.append({"keys": keys, "sids": sids, "edges": []})
        for p in S.phases:
            d = self.ph[p.id]
            for e in p.edges:
                if e.raised is not None:
                    polys, meta = [e.guard], (e, None, None)
                else:
                    outs = [x for o in e.outs if o[0] in ("T", "S") for x in o[3]]
                    nk = self.ph[e.dst]["keys"]
                    polys = [e.guard] + outs + [e.post[k] for k in nk]
                    meta = (e, len(outs), nk)
                ids = d["sids"] + self.in_ids
                extra = sorted(varids_of(polys) - set(ids))
                c = Compiled(polys, ids + extra)
                d["edges"].append((c, meta, [self.pval(i) for i in extra]))

    def pval(self, i):
        v = self.penv.get(i)
        if v is None:
            raise EvalError("no value for %s" % T.show_atom(T.atom(i)))
        return v

    def step(self, pid, st, ins):
        """-> (outs, pid', st') or ('raise', Raised)"""
        d = self.ph[pid]
        for c, (e, n, nk), extra in d["edges"]:
            r = c(list(st) + list(ins) + extra)
            if r[0] == 0:
                continue
            if e.raised is not None:
                return "raise", e.raised, None
            return r[1:1 + n], e.dst, tuple(r[1 + n:])
        raise EvalError("no path applies")


class RefMachine:
    def __init__(self, ref, S, penv, in_ids, n=0):
        self.ref = ref

        def val(i):
            # a free parameter that the source does not read has any value
            a = T.atom(i)
            if i not in penv and a.data[0].startswith("p:"):
                penv[i] = sample_value(a, random.Random("%s/%d" % (a.data[0], n)), n)
            return penv[i]
        st0 = ref.init(S.params)
        self.names = [(k, j) for k, v in st0.items() for j in range(len(v))]
        sv = ref.svars(st0)
        self.init_polys = [st0[k][j] for k, j in self.names]
        ids0 = sorted(varids_of(self.init_polys))
        self.init = tuple(Compiled(self.init_polys, ids0)([val(i) for i in ids0]))
        outs, nst = ref.step(sv, ins_terms(S.scn))
        self.meta = outs
        polys = [x for o in outs for x in o[2]]
        self.nout = len(polys)
        polys = polys + [nst[k][j] for k, j in self.names]
        ids = [list(T.atoms_of(sv[k][j]))[0] for k, j in self.names] + in_ids
        extra = sorted(varids_of(polys) - set(ids))
        self.extra = [val(i) for i in extra]
        self.c = Compiled(polys, ids + extra)

    def step(self, st, ins):
        r = self.c(list(st) + list(ins) + self.extra)
        return r[:self.nout], tuple(r[self.nout:])


def sample_value(a, rng, k):
    lo, hi = a.lo, a.hi
    if a.isbit:
        return rng.randint(0, 1)
    if lo == -inf and hi == inf:
        lo, hi = -4, 4
    elif lo == -inf:
        lo = hi - 8
    elif hi == inf:
        if a.isint and k % 2:
            return int(lo) + rng.getrandbits(rng.randint(3, 34))      # past every narrow type and every table length
        hi = lo + 8
    if a.isint:
        return rng.randint(int(lo), int(hi))
    if k == 0:
        g = 4
    else:
        g = 16
    n = rng.randint(0, g)
    return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(n, g)


def param_envs(S, polys_ids, count=3):
    envs = []
    rng = random.Random(7)
    ids = sorted(polys_ids)
    for k in range(count):
        env = {}
        for i in ids:
            a = T.atom(i)
            env[i] = sample_value(a, rng, k)
        envs.append(env)
        if not ids:
            break
    return envs


def all_param_ids(S, ref=None):
    ids = set()
    for p in S.phases:
        for e in p.edges:
            ids |= T.deep_vars(e.guard)
            if e.outs:
                for o in e.outs:
                    if o[0] in ("T", "S"):
                        for x in o[3]:
                            ids |= T.deep_vars(x)
            if e.post:
                for x in e.post.values():
                    ids |= T.deep_vars(x)
    for t in S.params.values():
        for x in t.get():
            ids |= T.deep_vars(x)
    return {i for i in ids if T.atom(i).data[0].split(":")[0] not in ("s", "r") and not T.atom(i).data[0].endswith("]") or T.atom(i).data[0].startswith("p:")}


def input_alphabet(scn, rng, limit):
    doms = []
    n = 1
    bits = True
    for i in scn.ins:
        for p in i.atoms():
            for a in T.atoms_of(p):
                d = finite_domain(a)
                if d is None:
                    bits = False
                    doms.append(None)
                else:
                    doms.append(d)
                    n *= len(d)
    if bits and n <= limit:
        return [tuple(v) for v in product(*doms)], True
    ids = [a for i in scn.ins for p in i.atoms() for a in T.atoms_of(p)]
    out = []

    def pick(k):
        return tuple(rng.choice(d) if d is not None else sample_value(T.atom(i), rng, k) for d, i in zip(doms, ids))
    if bits:
        out.append(tuple(d[0] for d in doms))
        out.append(tuple(d[-1] for d in doms))
        for j in range(min(len(doms), limit // 3)):
            out.append(tuple(d[-1] if k == j else d[0] for k, d in enumerate(doms)))
            out.append(tuple(d[0] if k == j else d[-1] for k, d in enumerate(doms)))
    while len(out) < limit:
        out.append(pick(len(out)))
    return out[:limit], False


class Budgeted(Exception):
    pass


def lockstep(S, ref, max_states=6000, alpha_limit=64, walks=14, walk_len=400, nparams=3, seed=1, seconds=6.0):
    """-> ('equal', n) exhaustively equal; ('diff', witness); ('bounded', n)"""
    scn = S.scn
    total = 0
    complete = True
    deadline = time.time() + seconds
    penvs = param_envs(S, all_param_ids(S), nparams)
    if any(T.atom(i).lo != T.atom(i).hi for i in penvs[0]):
        complete = False
    for n, penv in enumerate(penvs):
        t0 = time.time()
        deadline = t0 + seconds / len(penvs)
        m = Machine(S, penv)
        rm = RefMachine(ref, S, penv, m.in_ids, n)
        rng = random.Random(seed)
        alpha, full = input_alphabet(scn, rng, alpha_limit)
        if not full:
            complete = False

        def compare(pid, st, rst, ins):
            try:
                o, q, s2 = m.step(pid, st, ins)
            except EvalError as ex:
                if str(ex).startswith("index"):
                    return ("raise", "IndexError: " + str(ex)), None
                raise
            if o == "raise":
                return ("raise", q), None
            ro, rs2 = rm.step(rst, ins)
            if len(o) != len(ro):
                return ("structure", o, ro), None
            for k, (x, y) in enumerate(zip(o, ro)):
                if x != y and not (abs(x - y) <= (1e-6 if isinstance(x, float) or isinstance(y, float) else 1e-9) * max(1, abs(x))):
                    return ("output", k, x, y, o, ro), None
            return None, (q, s2, rs2)

        def witness(d, hist, ins):
            return {"difference": describe(d), "history": [named(S, h) for h in hist] + [named(S, ins)],
                    "params": {T.show_atom(T.atom(i)): str(v) for i, v in penv.items()}}
        # breadth first over the product
        start = (0, (), rm.init)
        seen = {start: None}
        layer = [start]
        back = {}
        stop = False
        while layer and not stop:
            nxt = []
            for node in layer:
                if time.time() > (deadline + t0) / 2:
                    stop = True
                    complete = False
                    break
                for ins in alpha:
                    try:
                        d, r = compare(node[0], node[1], node[2], ins)
                    except EvalError as ex:
                        complete = False
                        continue
                    total += 1
                    if d is not None:
                        hist = []
                        x = node
                        while seen[x] is not None:
                            x, i = seen[x]
                            hist.append(i)
                        return "diff", witness(d, list(reversed(hist)), ins)
                    if r not in seen:
                        if len(seen) >= max_states:
                            stop = True
                            complete = False
                            break
                        seen[r] = (node, ins)
                        nxt.append(r)
                if stop:
                    break
            layer = nxt
        if stop or not full:
            # deep walks
            for w in range(walks):
                pid, st, rst = 0, (), rm.init
                hist = []
                for c in range(walk_len):
                    if c > 30 and time.time() > deadline:
                        break
                    ins = pattern(w, c, alpha, rng, scn)
                    try:
                        d, r = compare(pid, st, rst, ins)
                    except EvalError:
                        break
                    total += 1
                    if d is not None:
                        return "diff", witness(d, hist, ins)
                    hist.append(ins)
                    pid, st, rst = r
    return ("equal" if complete else "bounded"), total


def pattern(w, c, alpha, rng, scn):
    n = len(alpha)
    if w == 0:
        return alpha[-1] if n > 1 else alpha[0]
    if w == 1:
        return alpha[0]
    if w == 2:
        return alpha[1 % n]
    if w == 3:
        return alpha[(c // 40) % n]
    if w == 4:
        return alpha[c % n]
    if w == 5:
        return alpha[0] if (c // 100) % 2 else alpha[1 % n]
    if w == 6:
        return alpha[1 % n] if (c // 150) % 2 else alpha[0]
    if w == 7:
        return alpha[(c % 2)] if n > 1 else alpha[0]
    return rng.choice(alpha)


def describe(d):
    if d[0] == "raise":
        return "the call raises %s" % d[1]
    if d[0] == "structure":
        return "wrong number of output elements"
    return "output element %d is %s, the property requires %s (all outputs: %s, required: %s)" % (d[1], d[2], d[3], [str(x) for x in d[4][:16]], [str(x) for x in d[5][:16]])


def named(S, ins):
    out = {}
    k = 0
    for i in S.scn.ins:
        n = sum(len(T.atoms_of(p)) for p in i.atoms())
        out[i.name] = [str(x) for x in ins[k:k + n]]
        k += n
    return out


def check(S, ref, **kw):
    """full decision for one scenario -> Result"""
    scn = S.scn
    if S.raised is not None:
        return Result(scn, "VIOLATION", "construction raises %s" % S.raised, {"difference": str(S.raised)})
    first = None
    for single in (False, True):
        try:
            ok, st, kind = prove(S, ref, single)
        except T.TermTooBig:
            ok, st, kind = False, "normal forms too large", "limit"
        first = first or st
        if ok is True or kind in ("structure", "raise"):
            break
    if ok is True:
        return Result(scn, "PROVED", "", None, st)
    why = first
    if kind == "structure":
        # shape/dtype/arity of a result: holds on every execution of that edge
        e = S.suspect
        if e.guard == ONE and (e.src == 0 or len(S.phases[e.src].edges) == 1):
            return Result(scn, "VIOLATION", why, {"difference": why})
    try:
        r, w = lockstep(S, ref, **kw)
    except (EvalError, T.TermTooBig, KeyError) as ex:
        return Result(scn, "UNDECIDED", "%s; no concretisation (%s)" % (why, ex))
    if r == "diff":
        res = Result(scn, "VIOLATION", why, w)
        if kind == "raise" and S.suspect.raised.site:
            res.site = S.suspect.raised.site
        return res
    if r == "equal":
        return Result(scn, "PROVED", "all reachable product states agree (%d transitions)" % w, None, {"out_obligations": w, "state_obligations": 0, "phases": len(S.phases)})
    return Result(scn, "UNDECIDED", why + "; no difference within %d product transitions" % w, None, {"bounded": w})
