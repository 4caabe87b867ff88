"""Effect, aliasing, dependency and typestate analyses over the scenario summaries."""
import math
import random
import time
from fractions import Fraction
from . import terms as T
from . import tensor as TT
from .tensor import Tensor, AbsRaise, Sym, Unmodelled
from .interp import Obj, DictV, Abort
from .terms import P, ZERO, ONE, EvalError
from .scen import Heap, analyse, construct, Undecided, flat, out_tensors, STATS, Raised, Env, interp
from .compare import Machine, Compiled, param_envs, all_param_ids, input_alphabet, pattern, named, Result, varids_of, sample_value, is_zero, finite_domain

inf = math.inf


def R(scn, status, why="", witness=None, stats=None, site=None, rule=None):
    r = Result(scn, status, why, witness, stats)
    r.site, r.rule = site, rule
    return r


def ev_site(e):
    s = e.get("site") or ("?", "?", 0)
    return s


def where(site):
    return "%s (%s:%s)" % (site[0], site[1], site[2])


# ------------------------------------------------------------------------------- reachability
class Walk:
    """iterate an extracted summary from its initial state; visit(pid, st, ins, edge, outs) returns
    something not None to stop"""

    def __init__(self, S, seconds=4.0, nparams=2, walks=10, walk_len=200):
        self.S, self.seconds, self.nparams, self.walks, self.walk_len = S, seconds, nparams, walks, walk_len

    def run(self, visit):
        S = self.S
        penvs = param_envs(S, all_param_ids(S), self.nparams)
        total = 0
        for penv in penvs:
            deadline = time.time() + self.seconds / len(penvs)
            m = Machine(S, penv)
            rng = random.Random(5)
            alpha, full = input_alphabet(S.scn, rng, 64)
            for w in range(self.walks):
                pid, st, hist = 0, (), []
                for c in range(self.walk_len):
                    if time.time() > deadline:
                        break
                    ins = pattern(w, c, alpha, rng, S.scn)
                    try:
                        e, o, q, st2 = step_edge(m, pid, st, ins)
                    except EvalError as ex:
                        if str(ex).startswith("index"):
                            r = visit(pid, st, ins, None, "IndexError: " + str(ex))
                            if r is not None:
                                return r, total, self.witness(hist + [ins], penv)
                        break
                    total += 1
                    r = visit(pid, st, ins, e, o)
                    if r is not None:
                        return r, total, self.witness(hist + [ins], penv)
                    if e.raised is not None:
                        break
                    hist.append(ins)
                    pid, st = q, st2
        return None, total, None

    def witness(self, hist, penv):
        return {"history": [named(self.S, h) for h in hist[-12:]], "calls": len(hist), "params": {T.show_atom(T.atom(i)): str(v) for i, v in penv.items()}}


def step_edge(m, pid, st, ins):
    d = m.ph[pid]
    for c, (e, n, nk), extra in d["edges"]:
        r = c(list(st) + list(ins) + extra)
        if r[0] == 0:
            continue
        if e.raised is not None:
            return e, None, None, None
        return e, r[1:1 + n], e.dst, tuple(r[1 + n:])
    raise EvalError("no path applies")


def feasible_edge(S, edge, seconds=3.0):
    """witness that `edge` is taken from the initial state, or None"""
    ph = S.phases[edge.src]
    if edge.guard == ONE and edge.src == 0:
        return {"history": ["first call"]}
    if edge.guard == ONE and len(ph.edges) == 1:
        return {"history": ["any call after the first"]}
    r, n, w = Walk(S, seconds).run(lambda pid, st, ins, e, o: True if e is edge else None)
    return w


def settle(root, n, params=()):
    """forget the exact value of every non-constant state cell (its range is kept), remembering only
    whether it carries a taint; called between two abstract calls"""
    h = Heap(root)
    vals = h.read()
    new = {}
    for k, v in vals.items():
        if v.is_const():
            continue
        c = h.cells[k]
        if c[0] == "st" and id(c[1]) in params:
            continue
        names = [T.atom(a).data[0] for a in T.deep_vars(v)]
        t = [x for x in names if x.startswith("taint:")]
        if not t and all(x.startswith("p:") for x in names):
            continue
        lo, hi = T.interval(v)
        new[k] = T.var("%s~%d:%s" % (t[0] if t else "s:", n, k), lo, hi, T.is_int(v))
    h.write(new)


# ------------------------------------------------------------------------------- C28
def runs(scn, expect=None):
    """every reachable call returns; result kinds as expected"""
    S = analyse(scn)
    if S.raised is not None:
        return R(scn, "VIOLATION", "construction raises %s" % S.raised, {"difference": str(S.raised)}, site=S.raised.site, rule="an accepted configuration constructs")
    n = 0
    bad = [e for p in S.phases for e in p.edges if e.raised is not None]
    n = sum(len(p.edges) for p in S.phases)
    for e in bad:
        w = feasible_edge(S, e)
        if w is not None:
            w["difference"] = str(e.raised)
            return R(scn, "VIOLATION", "a call raises %s" % e.raised, w, site=e.raised.site, rule="an accepted configuration runs")
    if bad:
        return R(scn, "UNDECIDED", "a path that raises could not be shown (in)feasible: %s" % bad[0].raised)
    # table look-ups stay in range
    r, k, w = Walk(S, 1.5).run(lambda pid, st, ins, e, o: o if e is None else None)
    if r is not None:
        w["difference"] = r
        return R(scn, "VIOLATION", "a call raises %s" % r, w, rule="an accepted configuration runs")
    if expect:
        for p in S.phases:
            for e in p.edges:
                got = [(tuple(o[1]), o[2]) for o in e.outs if o[0] == "T"]
                if got != expect:
                    return R(scn, "VIOLATION", "results are %s, expected %s" % (got, expect), {"difference": "shape/dtype"}, rule="results have the documented shape and type")
                n += 1
    return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": 0, "phases": len(S.phases)})


# ------------------------------------------------------------------------------- C01
def bits(scn, stype, which=None):
    """every element of every stream result is 0 or 1 and has the stream type"""
    S = analyse(scn)
    if S.raised is not None:
        return R(scn, "UNDECIDED", "construction raises %s" % S.raised)
    n = 0
    open_ = []
    for p in S.phases:
        for e in p.edges:
            if e.raised is not None:
                continue
            outs = [o for o in e.outs if o[0] == "T"]
            for k, o in enumerate(outs):
                if which is not None and k not in which:
                    continue
                if o[2] != stype:
                    w = feasible_edge(S, e)
                    if w:
                        w["difference"] = "result %d has type %s, the stream type is %s" % (k, o[2], stype)
                        return R(scn, "VIOLATION", w["difference"], w, rule="a stream result has the configured stream type")
                for j, x in enumerate(o[3]):
                    n += 1
                    if T.is_bit(x) or x == ZERO or x == ONE:
                        continue
                    d = T.mul(x, T.sub(x, ONE))
                    z, _ = is_zero(d)
                    if z is True:
                        continue
                    open_.append((e, k, j, x))
    if not open_:
        return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": 0, "phases": len(S.phases)})

    idx = {}
    for e in [e for p in S.phases for e in p.edges if e.raised is None]:
        k = 0
        s = set()
        for t, o in enumerate([o for o in e.outs if o[0] in ("T", "S")]):
            for j in range(len(o[3])):
                if o[0] == "T" and (which is None or t in which):
                    s.add(k)
                k += 1
        idx[id(e)] = s

    def visit(pid, st, ins, e, o):
        if e is None or e.raised is not None:
            return None
        for k in idx[id(e)]:
            if o[k] not in (0, 1):
                return "output element %d is %s" % (k, o[k])
    r, k, w = Walk(S).run(visit)
    if r is not None:
        w["difference"] = r
        return R(scn, "VIOLATION", r, w, rule="a stream only contains 0 and 1")
    return R(scn, "UNDECIDED", "not shown to be 0/1: %s" % T.show(open_[0][3])[:200])


# ------------------------------------------------------------------------------- C03 / C04 / C06
def caller_writes(scn):
    S = analyse(scn)
    n = len(S.build_events)
    todo = [(None, e) for e in S.build_events] + [(x, e) for p in S.phases for x in p.edges for e in x.events]
    for edge, e in todo:
        if e["kind"] not in ("write", "rebind", "resize"):
            continue
        n += 1
        ow = e.get("owner") or ""
        if not str(ow).startswith("caller:"):
            continue
        if e["kind"] == "write" and not e.get("changed", True):
            continue
        w = {"history": ["construction"]} if edge is None else feasible_edge(S, edge)
        if w is None:
            continue
        w["difference"] = "%s modifies the tensor '%s' owned by the caller" % (e.get("op"), str(ow)[7:])
        return R(scn, "VIOLATION", "%s at %s" % (w["difference"], where(ev_site(e))), w, site=ev_site(e), rule="no write reaches storage owned by the caller")
    return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": 0, "phases": len(S.phases)})


def config_writes(scn):
    S = analyse(scn)
    n = 0
    todo = [(None, e) for e in S.build_events] + [(x, e) for p in S.phases for x in p.edges for e in x.events]
    for edge, e in todo:
        if e["kind"] not in ("dictwrite", "globalwrite"):
            continue
        n += 1
        w = {"history": ["construction"]} if edge is None else feasible_edge(S, edge)
        if w is None:
            continue
        if e["kind"] == "dictwrite":
            w["difference"] = "%s written in a container owned by %s" % (e["what"], e["owner"])
        else:
            w["difference"] = "global state %s written" % e["name"]
        return R(scn, "VIOLATION", "%s at %s" % (w["difference"], where(ev_site(e))), w, site=ev_site(e), rule="configurations of the caller, defaults and module globals are read-only")
    # retained configuration + two instances
    it = interp((), scn.info.get("stubs"))
    it.default_decision = scn.info.get("build_default", True)
    env = Env(it)
    try:
        for m in ("stream", "kernel", "metric"):
            it.import_module(it.pkg + "." + m)
        it.events = []
        a = scn.build(env)
        it.guard = ONE
        b = scn.build(env)
        it.default_decision = True
        ha, hb = Heap(a), Heap(b)
        for path, d in ha.dicts:
            n += 1
            ow = str(getattr(d, "owner", "fresh"))
            if ow.startswith(("caller:", "default")) and isinstance(d, dict):
                # the caller edits its own dictionary afterwards: must not reach the unit
                return retained(scn, path, ow, d, n)
        params = {id(t.st) for t in env.params.values()}
        common = [(ha.storages[k][0]) for k in set(ha.storages) & set(hb.storages) if id(ha.storages[k][1]) not in params]
        before = hb.read()
        sig = hb.sig
        for c in range(3):
            it.guard = ONE
            scn.call(env, a, [i.tensor() for i in scn.ins])
            settle(a, c, params | set(hb.storages))
        h2 = Heap(b)
        after = h2.read()
        n += len(after)
        if h2.sig != sig:
            d = next((x, y) for x, y in zip(sig, h2.sig) if x != y) if len(sig) == len(h2.sig) else (len(sig), len(h2.sig))
            return R(scn, "VIOLATION", "using one instance changes another one: %s" % (d,), {"difference": str(d)[:300], "history": ["two instances, three calls on the first"]}, rule="instances are independent")
        for k, v in after.items():
            if before.get(k) != v:
                return R(scn, "VIOLATION", "using one instance changes %s of another one" % k, {"difference": k, "history": ["two instances, three calls on the first"]}, rule="instances are independent")
    except AbsRaise:
        pass
    finally:
        STATS.add(it)
    return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": 0, "phases": len(S.phases)})


POISON = "-- the caller reused this dictionary --"


def retained(scn, path, ow, d, n):
    """a dictionary of the caller is kept by reference: does editing it later change what the unit does?"""
    def outs(poison):
        it = interp((), scn.info.get("stubs"))
        it.default_decision = scn.info.get("build_default", True)
        env = Env(it)
        for m in ("stream", "kernel", "metric"):
            it.import_module(it.pkg + "." + m)
        o = scn.build(env)
        it.default_decision = True
        if poison:
            for c in env.cfgs:
                for k in list(c):
                    c[k] = POISON
        res = []
        for _ in range(2):
            it.guard = ONE
            res.append(flat(scn.call(env, o, [i.tensor() for i in scn.ins])))
        return res
    if ow.startswith("default"):
        return R(scn, "UNDECIDED", "%s keeps a default configuration by reference" % path)
    a = outs(False)
    try:
        b = outs(True)
        same = len(a) == len(b) and all(x == y for x, y in zip(a, b))
        why = "results change"
    except AbsRaise as e:
        same, why = False, "the call raises %s: %s" % (e.etype, str(e.msg)[:120])
    if same:
        return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": 0, "phases": 1})
    return R(scn, "VIOLATION", "the unit keeps the configuration of its caller (%s is %s): after the caller edits it, %s" % (path, ow, why),
             {"difference": path, "history": ["construct, edit the configuration dictionary, call"]}, rule="configurations are copied")


def ambient(scn):
    """results depend on nothing but configuration, operands and inputs"""
    S = analyse(scn)
    n = 0
    ins = {a for i in scn.ins for p in i.atoms() for a in T.atoms_of(p)}
    BAD = ("rand", "ambient", "junk", "init", "time", "undef", "lfsr", "seed")
    for p in S.phases:
        svars = set()
        for a in p.atoms.values():
            svars |= T.deep_vars(a)
        for e in p.edges:
            if e.raised is not None:
                continue
            for o in e.outs:
                if o[0] not in ("T", "S"):
                    continue
                for j, x in enumerate(o[3]):
                    n += 1
                    for i in T.deep_vars(x):
                        nm = T.atom(i).data[0]
                        if i in ins or nm.startswith(("p:", "s:")):
                            continue
                        if nm.startswith(BAD) or "#" in nm:
                            w = feasible_edge(S, e)
                            if w is None:
                                continue
                            src = next((ev for ev in S.build_events + e.events if ev["kind"] in ("random", "ambient")), None)
                            w["difference"] = "output element %d depends on %s%s" % (j, nm, " (%s)" % src.get("source") if src else "")
                            return R(scn, "VIOLATION", w["difference"], w, site=ev_site(src) if src else None, rule="results are a function of configuration, operands and inputs")
    for edge, ev in [(None, e) for e in S.build_events] + [(x, e) for p in S.phases for x in p.edges for e in x.events]:
        n += 1
        if ev["kind"] == "globalwrite":
            w = {"history": ["construction"]} if edge is None else feasible_edge(S, edge)
            if w is None:
                continue
            w["difference"] = "global state %s written" % ev["name"]
            return R(scn, "VIOLATION", "%s at %s" % (w["difference"], where(ev_site(ev))), w, site=ev_site(ev), rule="no hidden global state")
    r = reproducible(scn, BAD)
    if r is not None:
        return r
    return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": 0, "phases": len(S.phases)})


def reproducible(scn, bad):
    """a unit built after another one has been built and used behaves as the first one did"""
    it = interp((), scn.info.get("stubs"))
    env = Env(it)
    res = []
    try:
        for m in ("stream", "kernel", "metric"):
            it.import_module(it.pkg + "." + m)
        for k in range(2):
            it.guard = ONE
            it.default_decision = scn.info.get("build_default", True)
            o = scn.build(env)
            it.default_decision = True
            it.guard = ONE
            f = flat(scn.call(env, o, [i.tensor() for i in scn.ins]))
            st = Heap(o).read()
            res.append((f, st))
            it.guard = ONE
            settle(o, k, {id(t.st) for t in env.params.values()})
            scn.call(env, o, [i.tensor() for i in scn.ins])
    except AbsRaise as e:
        if len(res) == 1:
            return R(scn, "VIOLATION", "a second instance with the same configuration and inputs raises %s: %s" % (e.etype, str(e.msg)[:120]),
                     {"difference": "second instance raises", "history": ["build and use one instance, then build and call another one"]}, site=getattr(e, "site", None), rule="results are a function of configuration, operands and inputs")
        return None
    finally:
        STATS.add(it)
    (fa, sa), (fb, sb) = res
    pairs = []
    if len(fa) != len(fb) or any(x[:3] != y[:3] for x, y in zip(fa, fb)):
        return R(scn, "UNDECIDED", "two instances return different kinds of results")
    for i, (x, y) in enumerate(zip(fa, fb)):
        if x[0] in ("T", "S"):
            pairs += [("output %d element %d" % (i, j), p, q) for j, (p, q) in enumerate(zip(x[3], y[3])) if p != q]
    for k in sa:
        if k in sb and sa[k] != sb[k]:
            pairs.append((k, sa[k], sb[k]))
    for what, p, q in pairs:
        names = [T.atom(i).data[0] for i in T.deep_vars(p) | T.deep_vars(q)]
        if any(nm.startswith(bad) or "#" in nm for nm in names):
            continue
        w = differ(p, q)
        if w is None:
            continue
        w.update(difference="%s of a second instance with the same configuration and inputs differs from the first one's" % what,
                 history=["build and use one instance, then build and call another one"])
        return R(scn, "VIOLATION", w["difference"], w, rule="results are a function of configuration, operands and inputs")
    return None


# ------------------------------------------------------------------------------- C05
def snapshots(scn, calls=5, results=True):
    """results handed out earlier do not change later; later results and state do not depend on
    what the caller does with earlier inputs and (results=True) earlier results"""
    it = interp((), scn.info.get("stubs"))
    it.default_decision = scn.info.get("build_default", True)
    env = Env(it)
    n = 0
    try:
        for m in ("stream", "kernel", "metric"):
            it.import_module(it.pkg + "." + m)
        o = scn.build(env)
        it.default_decision = True
        params = {id(t.st) for t in env.params.values()}
        hist = []
        for c in range(calls):
            it.guard = ONE
            ins = [i.tensor() for i in scn.ins]
            before = [(t, list(t.get()), k) for t, k in hist]
            r = scn.call(env, o, ins)
            outs = out_tensors(r)
            for k, x in enumerate(flat(r)):
                if x[0] not in ("T", "S"):
                    continue
                for j, v in enumerate(x[3]):
                    n += 1
                    for a in T.deep_vars(v):
                        nm = T.atom(a).data[0]
                        if nm.startswith("taint:"):
                            return R(scn, "VIOLATION", "element %d of result %d depends on what the caller wrote into %s of an earlier call" % (j, k, nm[6:]),
                                     {"difference": nm[6:], "history": ["%d calls, the caller overwrites its tensors after each" % (c + 1)]}, rule="earlier inputs and results are not shared with the unit")
            for t, v, (k, cc, shape) in before:
                n += len(v)
                if list(t.get()) != v or t.shape != shape:
                    return R(scn, "VIOLATION", "result %d of call %d changes during call %d" % (k, cc, c), {"difference": "result %d of call %d" % (k, cc), "history": ["%d calls" % (c + 1)]}, rule="a result is a snapshot")
            hist += [(t, (k, c, t.shape)) for k, t in enumerate(outs)]
            # the caller now overwrites everything it passed in and got
            if results:
                for k, t in enumerate(outs):
                    if id(t.st) in params:
                        continue
                    for i in set(t.positions()):
                        t.st.data[i] = T.var("taint:result%d[%d]" % (k, i), -1, 1)
            for i, t in zip(scn.ins, ins):
                if isinstance(t, Tensor):
                    for k in range(len(t.st.data)):
                        t.st.data[k] = T.var("taint:%s[%d]" % (i.name, k), -1, 1)
            settle(o, c, params)
    except AbsRaise as e:
        return R(scn, "UNDECIDED", "raises %s" % Raised(e))
    finally:
        STATS.add(it)
    return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": 0, "phases": calls})


# ------------------------------------------------------------------------------- C13
def independent(scn, allowed):
    """allowed(output number, element) -> set of (input name, element) it may depend on, over the
    whole history"""
    S = analyse(scn)
    if S.raised is not None:
        return R(scn, "UNDECIDED", "construction raises")
    inv = {}
    for i in scn.ins:
        for k, p in enumerate(i.atoms()):
            for a in T.atoms_of(p):
                inv[a] = (i.name, k)
    # dependency closure over state cells
    dep = {}
    ch = True
    while ch:
        ch = False
        for p in S.phases:
            back = {}
            for k, a in p.atoms.items():
                if p.state[k][0] == "r":
                    for i in T.atoms_of(a):
                        back[i] = k
            for e in p.edges:
                if e.raised is not None:
                    continue
                g = set()
                if len(p.edges) > 1:
                    g = T.deep_vars(e.guard)
                for k, x in e.post.items():
                    s = dep.setdefault((e.dst, k), set())
                    m = len(s)
                    for i in T.deep_vars(x) | g:
                        if i in inv:
                            s.add(inv[i])
                        elif i in back:
                            s |= dep.get((p.id, back[i]), set())
                    ch = ch or len(s) != m
    n = 0
    bad = []
    for p in S.phases:
        back = {}
        for k, a in p.atoms.items():
            if p.state[k][0] == "r":
                for i in T.atoms_of(a):
                    back[i] = k
        for e in p.edges:
            if e.raised is not None:
                continue
            g = T.deep_vars(e.guard) if len(p.edges) > 1 else set()
            t = -1
            k0 = 0
            for o in e.outs:
                if o[0] != "T":
                    continue
                t += 1
                for j, x in enumerate(o[3]):
                    s = set()
                    for i in T.deep_vars(x) | g:
                        if i in inv:
                            s.add(inv[i])
                        elif i in back:
                            s |= dep.get((p.id, back[i]), set())
                    n += 1
                    x = s - allowed(t, j)
                    if x:
                        bad.append((k0, t, j, x))
                    k0 += 1
    if not bad:
        return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": len(dep), "phases": len(S.phases)})
    # confirm: two histories that agree on everything allowed and differ elsewhere
    for k0, t, j, x in bad[:6]:
        w = confirm_dep(S, k0, allowed(t, j))
        if w is not None:
            w["difference"] = "element %d of result %d depends on %s" % (j, t, sorted(x)[:4])
            return R(scn, "VIOLATION", w["difference"], w, rule="elements and batch entries do not influence each other")
    return R(scn, "UNDECIDED", "element %d of result %d may depend on %s" % (bad[0][2], bad[0][1], sorted(bad[0][3])[:4]))


def confirm_dep(S, k0, ok, seconds=2.0):
    scn = S.scn
    pos = []
    for i in scn.ins:
        for k, p in enumerate(i.atoms()):
            for a in T.atoms_of(p):
                pos.append((i.name, k) in ok)
    rng = random.Random(9)
    for penv in param_envs(S, all_param_ids(S), 2):
        m = Machine(S, penv)
        deadline = time.time() + seconds / 2
        for w in range(40):
            a, b = (0, ()), (0, ())
            hist = []
            alpha, full = input_alphabet(scn, rng, 64)
            for c in range(60):
                if time.time() > deadline:
                    break
                x = pattern(w, c, alpha, rng, scn)
                y = rng.choice(alpha)
                y = tuple(p if f else q for p, q, f in zip(x, y, pos))
                hist.append((x, y))
                try:
                    e1, o1, q1, s1 = step_edge(m, a[0], a[1], x)
                    e2, o2, q2, s2 = step_edge(m, b[0], b[1], y)
                except EvalError:
                    break
                if o1 is None or o2 is None:
                    break
                if k0 < len(o1) and k0 < len(o2) and o1[k0] != o2[k0] and abs(o1[k0] - o2[k0]) > 1e-9:
                    return {"history": [{"A": named(S, u), "B": named(S, v)} for u, v in hist[-6:]], "calls": len(hist), "outputs": [str(o1[k0]), str(o2[k0])]}
                a, b = (q1, s1), (q2, s2)
    return None


# ------------------------------------------------------------------------------- C18
def rejects(scn, by=("build",)):
    """an illegal configuration or operand raises instead of computing something"""
    b = construct(scn)
    STATS.add(b.it)
    if b.raised is not None:
        if not b.raised.site or b.raised.site[0] == "?":
            return R(scn, "UNDECIDED", "rejected outside the analysed code: %s" % b.raised)
        return R(scn, "PROVED", "", None, {"out_obligations": 1, "state_obligations": 0, "phases": 0, "how": str(b.raised)[:120]})
    if "call" in by:
        S = analyse(scn)
        for e in S.phases[0].edges:
            if e.raised is None:
                w = feasible_edge(S, e)
                if w is None:
                    return R(scn, "UNDECIDED", "a path that accepts the operand could not be shown feasible")
                w["difference"] = "accepted"
                return R(scn, "VIOLATION", "the illegal operand is accepted", w, rule="illegal configurations and operands are rejected")
        return R(scn, "PROVED", "", None, {"out_obligations": len(S.phases[0].edges), "state_obligations": 0, "phases": 1})
    return R(scn, "VIOLATION", "the illegal configuration is accepted", {"difference": "construction returns normally", "history": ["construction"]}, rule="illegal configurations are rejected")


# ------------------------------------------------------------------------------- C14
def ste(scn, kind="linear", inputs=None):
    """the custom gradient functions behind the unit: gradients with respect to the three tensor
    arguments are those of the exact linear layer, one result per forward argument"""
    it = interp((), scn.info.get("stubs"))
    env = Env(it)
    n = 0
    seen = 0
    try:
        for m in ("stream", "kernel", "metric"):
            it.import_module(it.pkg + "." + m)
        o = scn.build(env)
        it.events = []
        ins = []
        for i in scn.ins:
            t = i.tensor()
            t.rg = True
            ins.append(t)
        for c in range(2):
            r = scn.call(env, o, ins)
        evs = [e for e in it.events if e["kind"] == "function_apply"]
        for e in evs:
            seen += 1
            cls, ctx, args, res = e["cls"], e["ctx"], e["args"], e["result"]
            f, _ = cls.find("backward")
            if f is None:
                return R(scn, "VIOLATION", "%s defines no gradient" % cls.name, {"difference": "no backward"}, site=ev_site(e), rule="straight-through gradient")
            f = getattr(f, "f", f)
            g = TT.new([T.var("g[%d]" % k) for k in range(res.numel())], res.shape, TT.DT["float32"])
            ctx.d["needs_input_grad"] = tuple(isinstance(a, Tensor) for a in args)
            try:
                gs = it.call(f, [ctx, g], {})
            except AbsRaise as ex:
                x = Raised(ex)
                return R(scn, "VIOLATION", "the gradient of %s raises %s" % (cls.name, x), {"difference": str(x)}, site=x.site, rule="straight-through gradient")
            gs = list(gs) if isinstance(gs, tuple) else [gs]
            site = (cls.name + ".backward",) + tuple(ev_site(e)[1:])
            while len(gs) > len(args) and gs[-1] is None:
                gs.pop()
            if len(gs) != len(args):
                return R(scn, "VIOLATION", "%s returns %d gradients for %d arguments" % (cls.name, len(gs), len(args)), {"difference": "arity"}, site=site, rule="one gradient per argument")
            want = expected_grads(kind, args, g, res)
            for k, (a, b, w) in enumerate(zip(args, gs, want)):
                n += 1
                if not isinstance(a, Tensor) or not a.dtype.kind == "f" or w == "none":
                    if b is not None:
                        return R(scn, "VIOLATION", "%s returns a gradient for argument %d, which has none" % (cls.name, k), {"difference": "argument %d" % k}, site=site, rule="non-differentiable arguments get None")
                    continue
                if w is None:
                    continue
                if b is None:
                    return R(scn, "VIOLATION", "%s returns no gradient for argument %d" % (cls.name, k), {"difference": "argument %d" % k}, site=site, rule="straight-through gradient")
                if b.shape != a.shape:
                    return R(scn, "VIOLATION", "%s: gradient %d has shape %s, the argument %s" % (cls.name, k, b.shape, a.shape), {"difference": "argument %d" % k}, site=site, rule="straight-through gradient")
                for x, y in zip(b.get(), w):
                    n += 1
                    if x != y:
                        v = differ(x, y)
                        if v is None:
                            return R(scn, "UNDECIDED", "%s: gradient %d: %s vs %s" % (cls.name, k, T.show(x)[:200], T.show(y)[:200]))
                        v["difference"] = "gradient of argument %d is %s instead of %s" % (k, T.show(x)[:300], T.show(y)[:300])
                        return R(scn, "VIOLATION", "%s: %s" % (cls.name, v["difference"]), v, site=site, rule="straight-through gradient")
        # parameters that do not require a gradient request none (and None bias is handled)
        for e in evs:
            cls, ctx, args, res = e["cls"], e["ctx"], e["args"], e["result"]
            f = cls.find("backward")[0]
            f = getattr(f, "f", f)
            g = TT.new([T.var("g[%d]" % k) for k in range(res.numel())], res.shape, TT.DT["float32"])
            ctx.d["needs_input_grad"] = tuple(False for a in args)
            try:
                it.call(f, [ctx, g], {})
                n += 1
            except AbsRaise as ex:
                x = Raised(ex)
                return R(scn, "VIOLATION", "the gradient of %s raises %s when no argument needs one" % (cls.name, x), {"difference": str(x)}, site=x.site, rule="straight-through gradient")
    finally:
        STATS.add(it)
    if not seen:
        return R(scn, "UNDECIDED", "no custom gradient function is applied")
    return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": 0, "phases": seen})


def differ(x, y):
    ids = sorted(varids_of([x, y]))
    c = Compiled([x, y], ids)
    rng = random.Random(2)
    for k in range(40):
        v = [sample_value(T.atom(i), rng, 1) for i in ids]
        try:
            a, b = c(v)
        except EvalError:
            continue
        if a != b:
            return {"params": {T.show_atom(T.atom(i)): str(q) for i, q in zip(ids, v)}, "values": [str(a), str(b)]}
    return None


def expected_grads(kind, args, g, res):
    out = [None if isinstance(a, Tensor) else "none" for a in args]
    gv = list(g.get())
    if kind == "pass":
        out = [gv if k == 0 else "none" for k in range(len(args))]
        return out
    x, w = args[0], args[1]
    B, I = x.shape
    O = w.shape[0]
    xv, wv = list(x.get()), list(w.get())
    out[0] = [sum((gv[b * O + o] * wv[o * I + i] for o in range(O)), ZERO) for b in range(B) for i in range(I)]
    out[1] = [sum((gv[b * O + o] * xv[b * I + i] for b in range(B)), ZERO) for o in range(O) for i in range(I)]
    if len(args) > 2 and isinstance(args[2], Tensor):
        out[2] = [sum((gv[b * O + o] for b in range(B)), ZERO) for o in range(O)]
    for k in range(3, len(args)):
        out[k] = "none"
    return out


# ------------------------------------------------------------------------------- C07: random tables
def lfsr_table(scn):
    """entry k of the table is the content of the register after k shifts, and the register never
    starts from the state it cannot leave"""
    b = construct(scn)
    STATS.add(b.it)
    w, rtype = scn.info["width"], scn.info["rtype"]
    if b.raised is not None:
        return R(scn, "VIOLATION", "construction raises %s" % b.raised, {"difference": str(b.raised)}, site=b.raised.site, rule="an accepted configuration constructs")
    for e in b.events:
        if e["kind"] == "mayraise":
            return R(scn, "VIOLATION", "%s at %s" % (e["what"], where(ev_site(e))), {"difference": e["what"], "history": ["construction"]}, site=ev_site(e), rule="the register starts from a state it can leave")
    o = flat(b.it.call(b.obj, [], {}))
    if len(o) != 1 or o[0][0] != "T" or tuple(o[0][1]) != (2 ** w,) or o[0][2] != rtype:
        got = [(x[1], x[2]) for x in o]
        return R(scn, "VIOLATION", "the table is %s, expected shape (%d,) of %s" % (got, 2 ** w, rtype), {"difference": "shape/dtype"}, rule="a table has 2^width entries of the table type")
    regs = {}
    for k, x in enumerate(o[0][3]):
        ids = sorted(T.deep_vars(x))
        names = [T.atom(i).data[0] for i in ids]
        p = [n.split(".") for n in names]
        if len(names) != w or not all(len(q) == 3 and q[0].startswith("lfsr") for q in p):
            if not names:
                return R(scn, "VIOLATION", "entry %d of the table is the constant %s" % (k, T.show(x)[:100]), {"difference": "entry %d" % k, "history": ["construction"]}, rule="entry k is the register content after k shifts")
            return R(scn, "UNDECIDED", "entry %d is %s" % (k, T.show(x)[:200]))
        want = sum((T.bit(n) * 2 ** (w - 1 - int(q[2])) for n, q in zip(names, p)), ZERO)
        steps = {(q[0], q[1]) for q in p}
        if x != want or steps != {(p[0][0], str(k))}:
            return R(scn, "VIOLATION", "entry %d of the table is %s, not the register content after %d shifts" % (k, T.show(x)[:200], k), {"difference": "entry %d" % k, "history": ["construction"]}, rule="entry k is the register content after k shifts")
    return R(scn, "PROVED", "", None, {"out_obligations": 2 ** w + 2, "state_obligations": 0, "phases": 1})


def permutation(scn):
    """the table contains every value exactly once: it is one random permutation, each element used once"""
    b = construct(scn)
    STATS.add(b.it)
    w, rtype = scn.info["width"], scn.info["rtype"]
    if b.raised is not None:
        return R(scn, "VIOLATION", "construction raises %s" % b.raised, {"difference": str(b.raised)}, site=b.raised.site, rule="an accepted configuration constructs")
    o = flat(b.it.call(b.obj, [], {}))
    if len(o) != 1 or o[0][0] != "T" or tuple(o[0][1]) != (2 ** w,) or o[0][2] != rtype:
        got = [(x[1], x[2]) for x in o]
        return R(scn, "VIOLATION", "the table is %s, expected shape (%d,) of %s" % (got, 2 ** w, rtype), {"difference": "shape/dtype"}, rule="a table has 2^width entries of the table type")
    evs = [e for e in b.events if e["kind"] == "random"]
    seen = set()
    for k, x in enumerate(o[0][3]):
        ids = T.deep_vars(x)
        if x.is_const():
            seen.add(("c", x))
            continue
        if len(ids) != 1 or not T.atom(min(ids)).data[0].startswith("randperm"):
            return R(scn, "UNDECIDED", "entry %d is %s" % (k, T.show(x)[:200]))
        if x != T.from_atom(T.atom(min(ids))):
            return R(scn, "VIOLATION", "entry %d of the table is %s" % (k, T.show(x)[:200]), {"difference": "entry %d" % k, "history": ["construction"]}, rule="the table is a permutation of 0..2^width-1")
        if min(ids) in seen:
            return R(scn, "VIOLATION", "entry %d of the table repeats an earlier one" % k, {"difference": "entry %d" % k, "history": ["construction"]}, rule="the table is a permutation of 0..2^width-1")
        seen.add(min(ids))
    names = {T.atom(i).data[0] for i in seen if not isinstance(i, tuple)}
    if len(seen) != 2 ** w or len(evs) != 1:
        return R(scn, "UNDECIDED", "%d distinct entries from %d random sources" % (len(seen), len(evs)))
    his = {T.atom(i).hi for i in seen if not isinstance(i, tuple)}
    if his and his != {2 ** w - 1}:
        return R(scn, "VIOLATION", "the permutation ranges up to %s" % max(his), {"difference": "range", "history": ["construction"]}, rule="the table is a permutation of 0..2^width-1")
    return R(scn, "PROVED", "", None, {"out_obligations": 2 ** w + 2, "state_obligations": 0, "phases": 1})


# ------------------------------------------------------------------------------- C27: weight initialisation
def truncated(scn, depth=3):
    """on every path that returns after at most `depth` rounds, every element is one of the normal
    samples drawn and lies within two standard deviations of the mean"""
    from itertools import product
    mean, std, shape = scn.info["mean"], scn.info["std"], scn.info["shape"]
    exits = n = 0
    for m in range(1, depth + 1):
        for dec in product((True, False), repeat=m):
            it = interp(dec, scn.info.get("stubs"))
            it.default_decision = None
            env = Env(it)
            try:
                for q in ("stream", "kernel", "metric"):
                    it.import_module(it.pkg + "." + q)
                o = scn.build(env)
                it.events = []
                ins = [i.tensor() for i in scn.ins]
                try:
                    r = scn.call(env, o, ins)
                except AbsRaise as e:
                    x = Raised(e)
                    return R(scn, "VIOLATION", "the call raises %s" % x, {"difference": str(x)}, site=x.site, rule="initialisation returns")
            except Abort:
                continue
            finally:
                STATS.add(it)
            if len(it.taken) != m:
                continue
            exits += 1
            f = flat(r)
            if len(f) != 1 or f[0][0] != "T" or tuple(f[0][1]) != shape or f[0][2] != "float32":
                return R(scn, "VIOLATION", "the result is %s" % [(x[1], x[2]) for x in f], {"difference": "shape/dtype"}, rule="the result has the shape of the argument")
            for e in it.events:
                if e["kind"] != "random" or "normal" not in e["source"]:
                    continue
                a, kw = list(e.get("args", [])), e.get("kw", {})
                mu, sd = kw.get("mean", a[0] if a else 0), kw.get("std", a[1] if len(a) > 1 else 1)
                for got, want, nm in ((mu, mean, "mean"), (sd, std, "standard deviation")):
                    n += 1
                    got = got.p if isinstance(got, Sym) else P(got)
                    if not got.is_const():
                        return R(scn, "UNDECIDED", "%s of the samples is %s" % (nm, T.show(got)))
                    if abs(got.cval() - want) > Fraction(1, 10 ** 9):
                        return R(scn, "VIOLATION", "samples are drawn with %s %s instead of %s" % (nm, got.cval(), want), {"difference": nm}, site=ev_site(e), rule="samples follow the requested distribution")
            for k, x in enumerate(f[0][3]):
                n += 2
                ids = sorted(T.deep_vars(x))
                samples = [T.from_atom(T.atom(i)) for i in ids if T.atom(i).data[0].startswith("init")]
                if len(samples) != len(ids) or not samples:
                    if not x.is_const() and len(samples) != len(ids):
                        w = differ_on(x, it.guard, lambda v, env: any(v == s for s in env))
                        if w:
                            return R(scn, "VIOLATION", "element %d is not one of the samples: %s" % (k, T.show(x)[:200]), w, rule="every element is a sample")
                    return R(scn, "UNDECIDED", "element %d is %s" % (k, T.show(x)[:200]))
                for name, bad in (("below", T.gt(P(mean - 2 * std), x)), ("above", T.gt(x, P(mean + 2 * std)))):
                    g = T.mul(it.guard, bad)
                    if not g.t or is_zero(g)[0] is True:
                        continue
                    w = differ_on(g, ONE, lambda v, env: v == 0)
                    if w is None:
                        return R(scn, "UNDECIDED", "element %d may lie %s the interval" % (k, name))
                    w["difference"] = "element %d lies %s the interval mean +- 2 std" % (k, name)
                    return R(scn, "VIOLATION", w["difference"], w, rule="every element lies within two standard deviations")
                d = ONE
                for s in samples:
                    d = T.mul(d, T.sub(x, s))
                if is_zero(T.mul(it.guard, d))[0] is not True:
                    w = differ_on(T.mul(it.guard, d), ONE, lambda v, env: v == 0)
                    if w is None:
                        return R(scn, "UNDECIDED", "element %d may not be a sample" % k)
                    w["difference"] = "element %d is %s, not a sample" % (k, T.show(x)[:200])
                    return R(scn, "VIOLATION", w["difference"], w, rule="every element is a sample")
    if exits < 2:
        return R(scn, "UNDECIDED", "only %d returning paths" % exits)
    return R(scn, "PROVED", "", None, {"out_obligations": n, "state_obligations": 0, "phases": exits})


def differ_on(p, guard, ok, tries=4000):
    """sample assignment where the guard holds and ok(value, samples) does not"""
    ids = sorted(varids_of([p, guard]))
    c = Compiled([p, guard], ids)
    rng = random.Random(4)
    for k in range(tries):
        v = [Fraction(rng.randint(-60, 60), 1000) if k % 2 else Fraction(rng.randint(-400, 400), 100) for i in ids]
        try:
            a, g = c(v)
        except EvalError:
            continue
        if g and not ok(a, v):
            return {"params": {T.show_atom(T.atom(i)): str(q) for i, q in zip(ids, v)}, "values": [str(a)]}
    return None
