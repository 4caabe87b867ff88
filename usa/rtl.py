"""SystemVerilog front end: parse, elaborate, and extract the transition function of a clocked module.

Nothing is simulated by a tool: the module hierarchy is flattened into one dataflow graph per output and per
next-state bit group, registers become the state vector, and the graph is tabulated over its finite domain.  Values are
pairs (bits, unknown mask); a register that no reset branch assigns starts unknown, and unknown bits propagate."""
import os
import re


class RTLError(Exception):
    """the source is not well formed"""

    def __init__(self, why, line=None):
        Exception.__init__(self, why)
        self.line = line


class RTLUnmodelled(Exception):
    """a construct outside the modelled subset"""


class Return(Exception):
    """return statement of a function"""


LOCAL = " "         # names of variables of processes and functions start with it


TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<num>(?:\d[\d_]*\s*)?'[sS]?[bodhBODH]\s*[0-9a-fA-FxXzZ_?]+|'[01xXzZ](?![0-9a-zA-Z_])|\d[\d_]*)
 |(?P<str>"[^"\n]*")
 |(?P<dir>`[a-zA-Z_]\w*)
 |(?P<id>[a-zA-Z_$][\w$]*|\\\S+)
 |(?P<op><<<|>>>|===|!==|<<|>>|<=|>=|==|!=|&&|\|\||\*\*|~&|~\||~\^|\^~|\+:|-:|\+\+|--|<<=|>>=|\+=|-=|\*=|\|=|&=|\^=|::|[-+*/%&|^~!<>=?:;,.(){}\[\]@#'])
""", re.X | re.S)


def tokens(text, fname):
    out, i, line = [], 0, 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise RTLError("unexpected character %r" % text[i], line)
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group(), line))
        line += m.group().count("\n")
        i = m.end()
    out.append(("eof", "", line))
    return out


KEY = set("module endmodule input output inout logic wire reg bit assign always always_ff always_comb always_latch begin end if else case casez casex endcase "
          "default for posedge negedge or parameter localparam int integer genvar generate endgenerate signed unsigned initial function endfunction automatic "
          "return unique priority typedef enum".split())


# reserved words of the language that the parser does not handle: a syntax error in a file that uses one of them says nothing
BEYOND = set("accept_on alias and assert assume before bind bins binsof break buf bufif0 bufif1 byte cell chandle checker class clocking cmos config const constraint context continue cover "
             "covergroup coverpoint cross deassign defparam design disable dist do edge endchecker endclass endclocking endconfig endgroup endinterface endpackage endprimitive endprogram endproperty "
             "endspecify endsequence endtable endtask event eventually expect export extends extern final first_match force foreach forever fork forkjoin global highz0 highz1 iff ifnone ignore_bins "
             "illegal_bins implements implies import incdir inside instance interconnect interface intersect join join_any join_none large let liblist library local macromodule matches medium "
             "modport nand negedge_ nettype new nexttime nmos nor noshowcancelled not notif0 notif1 null package pmos primitive program property protected pull0 pull1 pulldown pullup pulsestyle_ondetect "
             "pulsestyle_onevent pure rand randc randcase randsequence rcmos real realtime ref reject_on release repeat restrict rnmos rpmos rtran rtranif0 rtranif1 s_always s_eventually s_nexttime s_until "
             "s_until_with scalared sequence shortint shortreal showcancelled small soft solve specify specparam static string strong strong0 strong1 struct super supply0 supply1 sync_accept_on "
             "sync_reject_on table tagged task this throughout time timeprecision timeunit tran tranif0 tranif1 tri tri0 tri1 triand trior trireg type union unique0 until until_with untyped use uwire var "
             "vectored virtual void wait wait_order wand weak weak0 weak1 while wildcard with within wor xnor xor longint initial casez casex".split())


class Module:
    def __init__(self, name, fname, line):
        self.name, self.file, self.line = name, fname, line
        self.params = []          # (name, expr, local, line)
        self.ports = []           # names in order
        self.dirs = {}            # name -> input/output
        self.decls = {}           # name -> (packed range or None, unpacked, signed, line)
        self.items = []           # assign / always / inst / generate
        self.funcs = {}


def directives(toks, defs, load):
    """conditional compilation, object-like macros and includes; load(file, line) handles an included file"""
    out, k, live, line = [], 0, [], 0
    on = lambda: all(x[0] for x in live)
    while k < len(toks):
        t = toks[k]
        k += 1
        if t[0] != "dir":
            if on() or t[0] == "eof":
                out.append(t)
            continue
        d, line = t[1], t[2]
        if d in ("`ifdef", "`ifndef", "`elsif"):
            n = toks[k][1]
            k += 1
            hit = (n in defs) == (d != "`ifndef")
            if d == "`elsif":
                if not live:
                    raise RTLError("`elsif without `ifdef", line)
                live[-1] = (hit and not live[-1][1], hit or live[-1][1])
            else:
                live.append((hit, hit))
        elif d == "`else":
            if not live:
                raise RTLError("`else without `ifdef", line)
            live[-1] = (not live[-1][1], True)
        elif d == "`endif":
            if not live:
                raise RTLError("`endif without `ifdef", line)
            live.pop()
        elif not on():
            continue
        elif d == "`define":
            n = toks[k]
            k += 1
            body = []
            while toks[k][0] != "eof" and toks[k][2] == line:
                body.append(toks[k])
                k += 1
            if body and body[0][1] == "(":
                raise RTLUnmodelled("macro with arguments")
            if any(b[1] == "\\" for b in body):
                raise RTLUnmodelled("macro of several lines")
            defs[n[1]] = body
        elif d == "`undef":
            defs.pop(toks[k][1], None)
            k += 1
        elif d == "`include":
            if toks[k][0] != "str":
                raise RTLError("syntax error in `include", line)
            load(toks[k][1].strip('"'), line)
            k += 1
        elif d in ("`timescale", "`default_nettype", "`resetall", "`celldefine", "`endcelldefine", "`begin_keywords", "`end_keywords", "`line", "`pragma"):
            while toks[k][0] != "eof" and toks[k][2] == line:
                k += 1
        elif d[1:] in defs:
            toks = toks[:k] + [(b[0], b[1], line) for b in defs[d[1:]]] + toks[k:]
            if len(toks) > 200000:
                raise RTLUnmodelled("recursive macro")
        else:
            raise RTLError("macro %s is not defined" % d, line)
    if live:
        raise RTLError("`ifdef without `endif", line)
    return out


class Parser:
    def __init__(self, text, fname, defs=None, load=None, types=None):
        self.f = fname
        self.includes = []
        raw = tokens(text, fname)
        self.beyond = sorted({t[1] for t in raw if t[0] == "id" and t[1] in BEYOND})
        self.t, self.i = directives(raw, {} if defs is None else defs, load or (lambda f, ln: self.includes.append((f, ln)))), 0
        self.mods = []
        self.types = {} if types is None else types
        self.scopes = []
        self.nlocal = 0
        self.m = None

    # tokens
    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def kind(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][0]

    @property
    def line(self):
        return self.t[self.i][2]

    def next(self):
        t = self.t[self.i]
        if t[0] == "eof":
            raise RTLError("unexpected end of file", t[2])
        self.i += 1
        return t[1]

    def at(self, *s):
        return self.kind() in ("op", "id") and self.peek() in s

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise RTLError("syntax error: expected %r before %r" % (s, self.peek() or "end of file"), self.line)

    def ident(self):
        if self.kind() != "id" or self.peek() in KEY:
            raise RTLError("syntax error: expected a name, found %r" % self.peek(), self.line)
        return self.next()

    # file
    def parse(self):
        while self.kind() != "eof":
            if self.at("module"):
                self.mods.append(self.module())
            elif self.eat(";") or self.attribute():
                pass
            elif self.at("typedef"):
                self.typedef(None)
            elif self.at("localparam", "parameter", "function", "int", "logic", "wire", "bit", "integer"):
                raise RTLUnmodelled("declaration outside a module")
            else:
                raise RTLError("syntax error: expected a module, found %r" % self.peek(), self.line)
        return self

    def attribute(self):
        """(* ... *)"""
        if self.at("(") and self.peek(1) == "*" and self.peek(2) != ")":
            while not (self.at("*") and self.peek(1) == ")"):
                self.next()
            self.i += 2
            return True
        return False

    def datatype(self):
        """-> (range, signed) of a data type if one is next, else None"""
        if self.at("logic", "wire", "reg", "bit", "int", "integer"):
            k = self.next()
            if k == "wire" and self.at("logic", "reg"):
                self.next()
            sg = k in ("int", "integer")
            rng = (("num", 31, None, True), ("num", 0, None, True)) if sg else None
        elif self.at("signed", "unsigned") or self.at("["):
            rng, sg = None, False
        elif self.kind() == "id" and self.peek() in self.types and self.kind(1) == "id":
            return self.types[self.next()]
        else:
            return None
        if self.at("signed", "unsigned"):
            sg = self.next() == "signed"
        if self.at("["):
            rng = self.range()
            if self.at("["):
                raise RTLUnmodelled("packed array of several dimensions")
        return rng, sg

    def typedef(self, m):
        self.need("typedef")
        ln = self.line
        if self.eat("enum"):
            t = self.datatype() or ((("num", 31, None, True), ("num", 0, None, True)), True)
            self.need("{")
            last = None
            while True:
                n = self.ident()
                if self.at("["):
                    raise RTLUnmodelled("enumeration range")
                last = self.expr() if self.eat("=") else ("num", 0, None, True) if last is None else ("bin", "+", last, ("num", 1, None, True))
                if m is None:
                    raise RTLUnmodelled("enumeration outside a module")
                m.params.append((n, last, True, ln, t))
                if not self.eat(","):
                    break
            self.need("}")
        else:
            t = self.datatype()
            if t is None:
                raise RTLUnmodelled("typedef")
        n = self.ident()
        if self.at("["):
            raise RTLUnmodelled("array type")
        self.types[n] = t
        self.need(";")

    def local(self, t, n, ln):
        """declare a variable of a process or function under a name of its own"""
        self.nlocal += 1
        q = "%s %s.%d" % (LOCAL, n, self.nlocal)
        self.m.decls[q] = (t[0], None, t[1], ln)
        self.scopes[-1][n] = q
        return q

    def name(self, n):
        for sc in reversed(self.scopes):
            if n in sc:
                return sc[n]
        return n

    def function(self, m):
        self.need("function")
        if self.at("automatic"):
            self.next()
        ln = self.line
        t = (None, False) if self.kind(1) == "op" and self.peek(1) in "(;" else self.datatype() or (None, False)
        f = self.ident()
        self.scopes.append({})
        ret = self.local(t, f, ln)
        args = []

        def arg(d, one):
            while True:
                n = self.ident()
                args.append(self.local(d, n, ln))
                if one or not self.eat(","):
                    break
        if self.eat("("):
            d = (None, False)
            while not self.eat(")"):
                if self.at("output", "inout"):
                    raise RTLUnmodelled("function with output arguments")
                if self.eat("input"):
                    d = self.datatype() or (None, False)
                else:
                    d = self.datatype() or d
                arg(d, True)
                if not self.at(")"):
                    self.need(",")
        self.need(";")
        while self.eat("input"):
            arg(self.datatype() or (None, False), False)
            self.need(";")
        body = []
        while not self.eat("endfunction"):
            body.append(self.stmt())
        if self.eat(":"):
            self.ident()
        self.scopes.pop()
        m.funcs[f] = (ret, args, ("block", body))

    def module(self):
        self.need("module")
        self.m = m = Module(self.ident(), self.f, self.line)
        if self.eat("#"):
            self.need("(")
            if not self.at(")"):
                while True:
                    if self.eat("parameter"):
                        pass
                    local = self.eat("localparam")
                    if self.at("type"):
                        raise RTLUnmodelled("type parameter")
                    t = self.datatype()
                    n, ln = self.ident(), self.line
                    e = self.expr() if self.eat("=") else None
                    m.params.append((n, e, local, ln, t))
                    if not self.eat(","):
                        break
            self.need(")")
        if self.eat("("):
            d, rng, sg = "input", None, False
            if not self.at(")"):
                while True:
                    self.attribute()
                    if self.at("input", "output", "inout"):
                        d = self.next()
                        rng, sg = self.datatype() or (None, False)
                    elif not m.ports and not self.at("logic", "wire", "reg", "bit", "["):
                        raise RTLUnmodelled("non-ANSI port list")
                    else:
                        rng, sg = self.datatype() or (rng, sg)
                    ln = self.line
                    n = self.ident()
                    un = self.range() if self.at("[") else None
                    if n in m.decls:
                        raise RTLError("port %s declared twice" % n, ln)
                    m.ports.append(n)
                    m.dirs[n] = d
                    m.decls[n] = (rng, un, sg, ln)
                    if not self.eat(","):
                        break
            self.need(")")
        self.need(";")
        while not self.at("endmodule"):
            m.items += self.item(m)
        self.need("endmodule")
        if self.eat(":"):
            self.ident()
        return m

    def range(self):
        self.need("[")
        a = self.expr()
        self.need(":")
        b = self.expr()
        self.need("]")
        return (a, b)

    def item(self, m):
        ln = self.line
        while self.attribute():
            ln = self.line
        if self.at("typedef"):
            self.typedef(m)
            return []
        if self.at("function"):
            self.function(m)
            return []
        k = self.peek()
        t = None
        if self.eat("genvar"):
            t = None, False
        elif self.at("enum"):
            raise RTLUnmodelled("anonymous enumeration")
        elif not self.at("signed", "unsigned", "["):
            t = self.datatype()
        if t is not None:
            rng, sg = t
            out = []
            while True:
                ln = self.line
                n = self.ident()
                un = self.range() if self.at("[") else None
                if n in m.decls:
                    raise RTLError("%s declared twice" % n, ln)
                if k != "genvar":
                    m.decls[n] = (rng, un, sg, ln)
                if self.eat("="):
                    if k != "wire":
                        raise RTLUnmodelled("variable with an initial value")
                    out.append(("assign", ("id", n), self.expr(), ln))
                if not self.eat(","):
                    break
            self.need(";")
            return out
        if self.at("input", "output"):
            raise RTLUnmodelled("non-ANSI port declaration")
        if self.at("parameter", "localparam"):
            local = self.next() == "localparam"
            t = self.datatype()
            while True:
                n = self.ident()
                self.need("=")
                m.params.append((n, self.expr(), local, ln, t))
                if not self.eat(","):
                    break
            self.need(";")
            return []
        if self.eat("assign"):
            out = []
            while True:
                l = self.lhs()
                self.need("=")
                out.append(("assign", l, self.expr(), ln))
                if not self.eat(","):
                    break
            self.need(";")
            return out
        if self.at("always_ff", "always", "always_comb", "always_latch"):
            k = self.next()
            sens = None
            if self.eat("@"):
                if self.eat("*"):
                    sens = "*"
                else:
                    self.need("(")
                    if self.eat("*"):
                        sens = "*"
                    else:
                        sens = []
                        while True:
                            e = self.next() if self.at("posedge", "negedge") else None
                            sens.append((e, self.ident()))
                            if not (self.eat("or") or self.eat(",")):
                                break
                    self.need(")")
            s = self.stmt()
            if k == "always_comb" or sens == "*" or (k == "always" and sens and all(e is None for e, _ in sens)):
                return [("comb", s, ln)]
            if sens is None:
                raise RTLUnmodelled(k + " without sensitivity list")
            return [("ff", sens, s, ln, k)]
        if self.eat("generate"):
            out = []
            while not self.eat("endgenerate"):
                out += self.item(m)
            return out
        if self.at("for"):
            self.next()
            self.need("(")
            self.eat("genvar")
            v = self.ident()
            self.need("=")
            a = self.expr()
            self.need(";")
            c = self.expr()
            self.need(";")
            step = self.step(v)
            self.need(")")
            body = self.genblock(m)
            return [("genfor", v, a, c, step, body, ln)]
        if self.at("if"):
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.genblock(m)
            b = self.genblock(m) if self.eat("else") else []
            return [("genif", c, a, b, ln)]
        if self.at("initial", "always_latch"):
            raise RTLUnmodelled(self.peek())
        if self.eat(";"):
            return []
        # instance
        if self.kind() == "id" and self.peek() not in KEY:
            mod = self.ident()
            pars = []
            if self.eat("#"):
                self.need("(")
                pars = self.conns()
            inst = self.ident()
            self.need("(")
            ports = self.conns()
            self.need(";")
            return [("inst", mod, inst, pars, ports, ln)]
        raise RTLError("syntax error: unexpected %r" % self.peek(), ln)

    def genblock(self, m):
        if self.eat("begin"):
            if self.eat(":"):
                self.ident()
            out = []
            while not self.eat("end"):
                out += self.item(m)
            if self.eat(":"):
                self.ident()
            return out
        return self.item(m)

    def conns(self):
        out = []
        if self.eat(")"):
            return out
        while True:
            if self.eat("."):
                if self.eat("*"):
                    out.append(("*", None))
                else:
                    n = self.ident()
                    if self.eat("("):
                        e = None if self.at(")") else self.expr()
                        self.need(")")
                    else:
                        e = ("id", n)
                    out.append((n, e))
            else:
                out.append((None, self.expr()))
            if not self.eat(","):
                break
        self.need(")")
        return out

    def step(self, v):
        for o in ("++", "--"):
            if self.eat(o):
                if self.name(self.ident()) != v:
                    raise RTLUnmodelled("loop step of another variable")
                return ("bin", o[0], ("id", v), ("num", 1, None, True))
        n = self.name(self.ident())
        if n != v:
            raise RTLUnmodelled("loop step of another variable")
        if self.eat("++"):
            return ("bin", "+", ("id", v), ("num", 1, None, True))
        if self.eat("--"):
            return ("bin", "-", ("id", v), ("num", 1, None, True))
        for o in ("+=", "-=", "*=", "<<=", ">>="):
            if self.eat(o):
                return ("bin", o[:-1], ("id", v), self.expr())
        self.need("=")
        return self.expr()

    # statements
    def stmt(self):
        ln = self.line
        while self.attribute():
            ln = self.line
        if self.eat("begin"):
            if self.eat(":"):
                self.ident()
            out = []
            self.scopes.append({})
            while not self.eat("end"):
                out.append(self.stmt())
            self.scopes.pop()
            if self.eat(":"):
                self.ident()
            return ("block", out)
        if self.eat(";"):
            return ("block", [])
        if self.eat("return"):
            e = self.expr()
            self.need(";")
            return ("return", e)
        if self.at("unique", "priority"):
            self.next()
        if self.eat("automatic") or self.at("logic", "bit", "reg", "int", "integer") or self.kind() == "id" and self.peek() in self.types and self.kind(1) == "id":
            t = self.datatype()
            if t is None or not self.scopes:
                raise RTLUnmodelled("local declaration")
            out = []
            while True:
                n = self.ident()
                if self.at("["):
                    raise RTLUnmodelled("local array")
                e = self.expr() if self.eat("=") else None
                q = self.local(t, n, ln)
                if e is not None:
                    out.append(("b", ("id", q), e, ln))
                if not self.eat(","):
                    break
            self.need(";")
            return ("block", out)
        if self.eat("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            b = self.stmt() if self.eat("else") else None
            return ("if", c, a, b)
        if self.at("case", "casez", "casex"):
            k = self.next()
            if k != "case":
                raise RTLUnmodelled(k)
            self.need("(")
            e = self.expr()
            self.need(")")
            arms, dflt = [], None
            while not self.eat("endcase"):
                if self.eat("default"):
                    self.eat(":")
                    dflt = self.stmt()
                else:
                    labs = [self.expr()]
                    while self.eat(","):
                        labs.append(self.expr())
                    self.need(":")
                    arms.append((labs, self.stmt()))
            return ("case", e, arms, dflt)
        if self.eat("for"):
            self.need("(")
            self.scopes.append({})
            t = self.datatype()
            v = self.ident()
            v = self.local(t, v, ln) if t else self.name(v)
            self.need("=")
            a = self.expr()
            self.need(";")
            c = self.expr()
            self.need(";")
            st = self.step(v)
            self.need(")")
            body = self.stmt()
            self.scopes.pop()
            return ("for", v, a, c, st, body)
        l = self.lhs()
        if self.eat("<="):
            k = "nb"
        else:
            for o in ("+=", "-=", "&=", "|=", "^=", "*=", "<<=", ">>="):
                if self.eat(o):
                    e = self.expr()
                    self.need(";")
                    return ("b", l, ("bin", o[:-1], l, e), ln)
            for o in ("++", "--"):
                if self.eat(o):
                    self.need(";")
                    return ("b", l, ("bin", o[0], l, ("num", 1, None, True)), ln)
            self.need("=")
            k = "b"
        e = self.expr()
        self.need(";")
        return (k, l, e, ln)

    def lhs(self):
        if self.eat("{"):
            out = [self.lhs()]
            while self.eat(","):
                out.append(self.lhs())
            self.need("}")
            return ("cat", out)
        n = self.ident()
        return self.select(("id", self.name(n)))

    def select(self, e):
        while self.at("["):
            self.next()
            a = self.expr()
            if self.eat(":"):
                b = self.expr()
                e = ("part", e, a, b)
            elif self.at("+:", "-:"):
                up = self.next() == "+:"
                e = ("ipart", e, a, self.expr(), up)
            else:
                e = ("idx", e, a)
            self.need("]")
        return e

    # expressions
    LEVELS = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"], ["==", "!=", "===", "!=="], ["<", "<=", ">", ">="], ["<<", ">>", "<<<", ">>>"],
              ["+", "-"], ["*", "/", "%"], ["**"]]

    def expr(self):
        c = self.binary(0)
        if self.eat("?"):
            a = self.expr()
            self.need(":")
            return ("cond", c, a, self.expr())
        return c

    def binary(self, k):
        if k == len(self.LEVELS):
            return self.unary()
        e = self.binary(k + 1)
        while self.kind() == "op" and self.peek() in self.LEVELS[k]:
            o = self.next()
            e = ("bin", o, e, self.binary(k + 1))
        return e

    def unary(self):
        if self.kind() == "op" and self.peek() in ("~", "!", "-", "+", "&", "|", "^", "~&", "~|", "~^", "^~"):
            o = self.next()
            return ("un", o, self.unary())
        return self.primary()

    def primary(self):
        k, ln = self.kind(), self.line
        if k == "num":
            e = self.number(self.next(), ln)
            return self.cast(e) if self.at("'") else e
        if self.eat("("):
            e = self.expr()
            self.need(")")
            return self.cast(e) if self.at("'") else e
        if self.at("int", "integer", "logic", "bit", "reg", "signed", "unsigned") and self.peek(1) == "'":
            t = self.next()
            w = {"int": 32, "integer": 32, "signed": None, "unsigned": None}.get(t, 1)
            self.next()
            self.need("(")
            e = self.expr()
            self.need(")")
            if w is None:
                return ("call", "$" + t, [e])
            return ("cast", ("num", w, None, True), e, t in ("int", "integer"))
        if self.eat("{"):
            e = self.expr()
            if self.at("{"):
                self.next()
                l = [self.expr()]
                while self.eat(","):
                    l.append(self.expr())
                self.need("}")
                self.need("}")
                return self.select(("rep", e, l))
            l = [e]
            while self.eat(","):
                l.append(self.expr())
            self.need("}")
            return self.select(("cat", l))
        if k == "id" and self.peek().startswith("$"):
            n = self.next()
            self.need("(")
            a = [self.expr()]
            while self.eat(","):
                a.append(self.expr())
            self.need(")")
            return ("call", n, a)
        if k == "id" and self.peek() not in KEY:
            n = self.next()
            if n in self.types and self.at("'"):
                t = self.types[n]
                w = ("bin", "+", ("bin", "-", t[0][0], t[0][1]), ("num", 1, None, True)) if t[0] else ("num", 1, None, True)
                self.next()
                self.need("(")
                e = self.expr()
                self.need(")")
                return ("cast", w, e, t[1])
            if self.at("("):
                self.next()
                a = [] if self.at(")") else [self.expr()]
                while self.eat(","):
                    a.append(self.expr())
                self.need(")")
                return ("ucall", n, a)
            e = self.select(("id", self.name(n)))
            return self.cast(e) if self.at("'") and e[0] == "id" else e
        raise RTLError("syntax error: unexpected %r in an expression" % (self.peek() or "end of file"), ln)

    def cast(self, w):
        self.need("'")
        self.need("(")
        e = self.expr()
        self.need(")")
        return ("cast", w, e, None)

    def number(self, s, ln):
        s = s.replace("_", "").replace(" ", "")
        if s[0] == "'" and len(s) == 2:
            return ("fill", s[1])
        if "'" not in s:
            return ("num", int(s), None, True)
        w, r = s.split("'")
        sg = r[0] in "sS"
        if sg:
            r = r[1:]
        base = {"b": 2, "o": 8, "d": 10, "h": 16}[r[0].lower()]
        d = r[1:]
        if re.search("[xXzZ?]", d):
            raise RTLUnmodelled("x or z digits")
        try:
            v = int(d, base)
        except ValueError:
            raise RTLError("malformed number " + s, ln)
        width = int(w) if w else None
        return ("num", v & ((1 << (width or 32)) - 1), width or 32, sg)


# ---- values: (bits, unknown mask) of a known width
def mask(w):
    return (1 << w) - 1


def sx(v, w, nw, signed):
    b, x = v
    if nw <= w:
        return b & mask(nw), x & mask(nw)
    if signed and w:
        top = mask(nw) & ~mask(w)
        if x >> (w - 1) & 1:
            return b, x | top
        if b >> (w - 1) & 1:
            return b | top, x
    return b, x


LEAF = object()


class Inst:
    """one elaborated module instance"""

    def __init__(self, top, mod, path, params, conn, parent):
        self.top, self.mod, self.path, self.conn, self.parent = top, mod, path, conn, parent
        self.params, self.ptypes, self.sizes, self.tries = {}, {}, {}, {}
        for n, e, local, ln, t in mod.params:
            if n in params and not local:
                self.params[n], own = params[n], (32, True)
            elif e is None:
                raise RTLError("parameter %s of %s has no value" % (n, mod.name), ln)
            else:
                self.params[n], own = self.const(e), self.size(e, {}, True)
            if t is not None and t[0] is not None:
                own = abs(self.const(t[0][0]) - self.const(t[0][1])) + 1, t[1]
            elif t is not None and n in params and not local:
                own = own[0], own[1]
            v = self.params[n] & mask(own[0])
            self.params[n] = v - (1 << own[0]) if own[1] and v >> (own[0] - 1) & 1 else v
            self.ptypes[n] = own
        for n in params:
            if n not in [p[0] for p in mod.params if not p[2]]:
                raise RTLError("%s has no parameter %s" % (mod.name, n), None)
        self.widths, self.low, self.signed, self.down = {}, {}, {}, set()
        for n, (rng, un, sg, ln) in mod.decls.items():
            if un is not None:
                raise RTLUnmodelled("unpacked array " + n)
            if rng is None:
                hi = lo = 0
            else:
                hi, lo = self.const(rng[0]), self.const(rng[1])
            if hi < lo:
                self.down.add(n)
                hi, lo = lo, hi
            self.widths[n], self.low[n], self.signed[n] = hi - lo + 1, lo, sg
        self.drivers = {n: [] for n in mod.decls}     # name -> [(lo, width, kind, payload, line)]
        self.ffs, self.combs, self.kids = [], [], []
        self.regs = {}                                # name -> bits held in registers
        self.elab(mod.items, {})
        for n in mod.decls:
            d = self.drivers[n]
            if mod.dirs.get(n) == "input" and d:
                raise RTLError("input port %s of %s is driven inside it" % (n, mod.name), d[0][4])
            seen, loose = 0, False
            for lo, w, kind, payload, ln in d:
                bits = mask(w) << lo
                soft = kind in ("comb", "reg") and payload[-1]
                if seen & bits:
                    if soft or loose:
                        raise RTLUnmodelled("%s of %s is assigned in several processes" % (n, mod.name))
                    raise RTLError("%s of %s has several drivers" % (n, mod.name), ln)
                seen |= bits
                loose = loose or soft

    # elaboration
    def const(self, e, env=None):
        w, s = self.size(e, env or {}, True)
        b, x = self.ev(e, max(w, 32), True if s else False, env or {}, True)
        if x:
            raise RTLError("constant expression with unknown bits", None)
        w = max(w, 32)
        return b - (1 << w) if s and b >> (w - 1) & 1 else b

    def elab(self, items, env):
        for it in items:
            k = it[0]
            if k == "assign":
                self.drive(it[1], ("expr", it[2], env), it[3], env)
            elif k == "comb":
                for n, lo, w, soft in self.pieces(it[1], env, it[2]):
                    self.drivers[n].append((lo, w, "comb", ("comb", it[1], env, it[2], soft), it[2]))
            elif k == "ff":
                for e, n in it[1]:
                    self.known(n, it[3])
                own = {}
                for n, lo, w, soft in self.pieces(it[2], env, it[3]):
                    own[n] = own.get(n, 0) | mask(w) << lo
                    self.drivers[n].append((lo, w, "reg", (soft or it[4] == "always",), it[3]))
                for n, bits in own.items():
                    self.regs[n] = self.regs.get(n, 0) | bits
                self.ffs.append((it[1], it[2], env, it[3], own))
            elif k == "genfor":
                _, v, a, c, st, body, ln = it
                i, n = self.const(a, env), 0
                while self.const(c, dict(env, **{v: i})):
                    self.elab(body, dict(env, **{v: i}))
                    i = self.const(st, dict(env, **{v: i}))
                    n += 1
                    if n > 4096:
                        raise RTLUnmodelled("long generate loop")
            elif k == "genif":
                self.elab(it[2] if self.const(it[1], env) else it[3], env)
            elif k == "inst":
                self.instance(it, env)
            else:
                raise RTLUnmodelled(k)

    def instance(self, it, env):
        _, mod, name, pars, ports, ln = it
        m = self.top.modules.get(mod)
        if m is None:
            raise RTLError("module %s is not defined in any included file" % mod, ln)
        if isinstance(m, Exception):
            raise m
        self.top.visible(self.mod, mod, ln)
        pv = {}
        own = [p[0] for p in m.params if not p[2]]
        for k, (n, e) in enumerate(pars):
            if n is None:
                if k >= len(own):
                    raise RTLError("too many parameters for %s" % mod, ln)
                n = own[k]
            if n not in own:
                raise RTLError("%s has no parameter %s" % (mod, n), ln)
            if e is not None:
                pv[n] = self.const(e, env)
        conn = {}
        for k, (n, e) in enumerate(ports):
            if n == "*":
                for q in m.ports:
                    if q not in conn and q in self.mod.decls:
                        conn[q] = ("id", q)
                continue
            if n is None:
                if k >= len(m.ports):
                    raise RTLError("too many ports for %s" % mod, ln)
                n = m.ports[k]
            if n not in m.dirs:
                raise RTLError("%s has no port %s" % (mod, n), ln)
            if n in conn:
                raise RTLError("port %s of %s connected twice" % (n, mod), ln)
            conn[n] = e
        kid = Inst(self.top, m, self.path + "." + name, pv, {n: (e, env) for n, e in conn.items()}, self)
        self.kids.append(kid)
        for n, e in conn.items():
            if e is not None and m.dirs[n] == "output":
                self.drive(e, ("kid", kid, n), ln, env)
        for n in m.ports:
            if m.dirs[n] == "input" and conn.get(n) is None:
                raise RTLError("input port %s of instance %s is not connected" % (n, name), ln)

    def pieces(self, st, env, ln):
        """parts of the signals that a process assigns: (name, lowest bit, width, whether only an upper bound), overlaps joined"""
        bits, soft = {}, set()

        def one(l, env, loop):
            if l[0] == "cat":
                for p in l[1]:
                    one(p, env, loop)
                return
            n = l[1] if l[0] == "id" else l[1][1]
            if n.startswith(LOCAL):
                return
            self.known(n, ln)
            try:
                _, lo, w = self.target(l, env, ln)
                if loop:
                    soft.add(n)
            except (RTLError, RTLUnmodelled):
                lo, w = 0, self.widths[n]
                soft.add(n)
            bits[n] = bits.get(n, 0) | mask(w) << lo

        def go(st, env, loop):
            k = st[0]
            if k == "block":
                for x in st[1]:
                    go(x, env, loop)
            elif k == "if":
                go(st[2], env, loop)
                if st[3]:
                    go(st[3], env, loop)
            elif k == "case":
                for _, x in st[2]:
                    go(x, env, loop)
                if st[3]:
                    go(st[3], env, loop)
            elif k == "for":
                _, v, a, c, step, body = st
                try:
                    i, m = self.const(a, env), 0
                    while self.const(c, dict(env, **{v: i})) and m <= 4096:
                        go(body, dict(env, **{v: i}), True)
                        i, m = self.const(step, dict(env, **{v: i})), m + 1
                except (RTLError, RTLUnmodelled):
                    go(body, env, True)
            elif k in ("nb", "b"):
                one(st[1], env, loop)
            elif k == "return":
                raise RTLUnmodelled("return outside a function")
        go(st, env, False)
        out = []
        for n in sorted(bits):
            b, lo = bits[n], 0
            while b >> lo:
                while not b >> lo & 1:
                    lo += 1
                w = 0
                while b >> (lo + w) & 1:
                    w += 1
                out.append((n, lo, w, n in soft))
                lo += w
        return out

    def place(self, n, i, w=1):
        """lowest position of the w elements of n from index i on (i: the lowest index)"""
        return self.low[n] + self.widths[n] - i - w if n in self.down else i - self.low[n]

    def known(self, n, ln):
        if n not in self.mod.decls:
            raise RTLError("%s is not declared in %s" % (n, self.mod.name), ln)

    def drive(self, l, payload, ln, env):
        """register a driver of an assignment target, piece by piece for concatenations"""
        if l[0] == "cat":
            off = sum(self.lw(p, env) for p in l[1])
            for p in l[1]:
                w = self.lw(p, env)
                off -= w
                self.drive(p, ("slice", payload, off, w), ln, env)
            return
        n, lo, w = self.target(l, env, ln)
        self.drivers[n].append((lo, w, "net", (payload, self.lw(l, env)), ln))

    def lw(self, l, env):
        if l[0] == "cat":
            return sum(self.lw(p, env) for p in l[1])
        return self.target(l, env, None)[2]

    def target(self, l, env, ln):
        if l[0] == "id":
            self.known(l[1], ln)
            return l[1], 0, self.widths[l[1]]
        if l[0] in ("idx", "part", "ipart") and l[1][0] == "id":
            n = l[1][1]
            self.known(n, ln)
            if l[0] == "idx":
                lo, w = self.const(l[2], env), 1
            elif l[0] == "part":
                lo, w = self.bounds(l, env, n, ln)
            else:
                w = self.const(l[3], env)
                lo = self.const(l[2], env) - (0 if l[4] else w - 1)
            lo = self.place(n, lo, w)
            if lo < 0 or w < 1 or lo + w > self.widths[n]:
                raise RTLError("assignment outside the range of %s" % n, ln)
            return n, lo, w
        raise RTLUnmodelled("assignment target")

    def bounds(self, e, env, n, ln=None):
        """lowest index and width of a part select of n"""
        a, b = self.const(e[2], env), self.const(e[3], env)
        if n in self.down:
            a, b = b, a
        if a < b:
            raise RTLError("part select of %s runs against its range" % n, ln)
        return b, a - b + 1

    # sizes
    def size(self, e, env, const=False):
        if const or env and not (len(env) == 1 and " local" in env):
            return self.size_(e, env, const)
        r = self.sizes.get(id(e))
        if r is None:
            r = self.sizes[id(e)] = self.size_(e, env, const)
        return r

    def size_(self, e, env, const=False):
        k = e[0]
        if k == "num":
            return (e[2] or 32), e[3]
        if k == "fill":
            return 1, False
        if k == "id":
            n = e[1]
            if n in env:
                return 32, True
            if n in self.params:
                return self.ptypes[n]
            if const:
                raise RTLError("%s is not a constant" % n, None)
            self.known(n, None)
            return self.widths[n], self.signed[n]
        if k == "idx":
            return 1, False
        if k == "part":
            return abs(self.const(e[2], env) - self.const(e[3], env)) + 1, False
        if k == "ipart":
            return self.const(e[3], env), False
        if k == "cat":
            return sum(self.size(x, env, const)[0] for x in e[1]), False
        if k == "rep":
            n = self.const(e[1], env)
            if n < 0:
                raise RTLError("negative replication", None)
            return n * sum(self.size(x, env, const)[0] for x in e[2]), False
        if k == "un":
            if e[1] in ("~", "-", "+"):
                return self.size(e[2], env, const)
            return 1, False
        if k == "bin":
            o = e[1]
            if o in ("==", "!=", "===", "!==", "<", "<=", ">", ">=", "&&", "||"):
                return 1, False
            a = self.size(e[2], env, const)
            if o in ("<<", ">>", "<<<", ">>>", "**"):
                return a
            b = self.size(e[3], env, const)
            return max(a[0], b[0]), a[1] and b[1]
        if k == "cond":
            a, b = self.size(e[2], env, const), self.size(e[3], env, const)
            return max(a[0], b[0]), a[1] and b[1]
        if k == "call":
            if e[1] in ("$signed", "$unsigned"):
                return self.size(e[2][0], env, const)[0], e[1] == "$signed"
            if e[1] == "$clog2":
                return 32, True
            if e[1] == "$countones":
                return 32, True
            raise RTLUnmodelled(e[1])
        if k == "cast":
            return self.const(e[1], ints(env)), self.size(e[2], env, const)[1] if e[3] is None else e[3]
        if k == "ucall":
            ret = self.function(e[1])[0]
            return self.widths[ret], self.signed[ret]
        raise RTLUnmodelled(k)

    def function(self, n):
        if n not in self.mod.funcs:
            raise RTLError("function %s is not declared in %s" % (n, self.mod.name), None)
        return self.mod.funcs[n]

    # evaluation in a context of the given width and signedness
    def ev(self, e, w, s, env, const=False):
        k = e[0]
        if k == "num":
            v = e[1]
            ow = e[2] or 32
            return sx((v & mask(ow), 0), ow, w, s and e[3]) if ow < w else (v & mask(w), 0)
        if k == "fill":
            return (mask(w) if e[1] == "1" else 0, 0) if e[1] in "01" else (0, mask(w))
        if k == "id":
            n = e[1]
            if n in env:
                v = env[n]
                if isinstance(v, int):
                    return v & mask(w), 0
            if n in self.params:
                ow, os_ = self.ptypes[n]
                return sx((self.params[n] & mask(ow), 0), ow, w, s and os_)
            if const:
                raise RTLError("%s is not a constant" % n, None)
            return sx(self.read(n, 0, self.widths[n], env), self.widths[n], w, s and self.signed[n])
        if k in ("idx", "part", "ipart"):
            return self.selected(e, w, env, const)
        if k == "cat":
            b = x = 0
            for p in e[1]:
                pw, ps = self.size(p, env, const)
                pb, px = self.ev(p, pw, ps, env, const)
                b, x = b << pw | pb, x << pw | px
            return b & mask(w), x & mask(w)
        if k == "rep":
            n = self.const(e[1], env)
            b, x = self.ev(("cat", e[2]), 10 ** 6, False, env, const) if n else (0, 0)
            pw = sum(self.size(p, env, const)[0] for p in e[2])
            rb = rx = 0
            for _ in range(n):
                rb, rx = rb << pw | b, rx << pw | x
            return rb & mask(w), rx & mask(w)
        if k == "un":
            o = e[1]
            if o in ("~", "-", "+"):
                b, x = self.ev(e[2], w, s, env, const)
                if o == "~":
                    return ~b & mask(w) & ~x, x
                if x:
                    return 0, mask(w)
                return (-b if o == "-" else b) & mask(w), 0
            ow, os_ = self.size(e[2], env, const)
            b, x = self.ev(e[2], ow, os_, env, const)
            if o in ("!", "|", "~|"):
                r = 1 if b & ~x else None if x else 0
                inv = o != "|"
            elif o in ("&", "~&"):
                r = 0 if (~b & ~x) & mask(ow) else None if x else 1
                inv = o == "~&"
            else:
                r = None if x else bin(b).count("1") & 1
                inv = o != "^"
            return (0, 1) if r is None else (r ^ inv, 0)
        if k == "bin":
            o = e[1]
            if o in ("&&", "||"):
                a, b = self.truth(e[2], env, const), self.truth(e[3], env, const)
                if o == "&&":
                    r = 0 if a == 0 or b == 0 else None if None in (a, b) else 1
                else:
                    r = 1 if a == 1 or b == 1 else None if None in (a, b) else 0
                return (0, 1) if r is None else (r, 0)
            if o in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
                (aw, as_), (bw, bs) = self.size(e[2], env, const), self.size(e[3], env, const)
                cw, cs = max(aw, bw), as_ and bs
                a, ax = self.ev(e[2], cw, cs, env, const)
                b, bx = self.ev(e[3], cw, cs, env, const)
                if ax or bx:
                    if o in ("===", "!=="):
                        return int(((a, ax) == (b, bx)) == (o == "===")), 0
                    return 0, 1
                if cs:
                    a = a - (1 << cw) if a >> (cw - 1) & 1 else a
                    b = b - (1 << cw) if b >> (cw - 1) & 1 else b
                return int({"==": a == b, "===": a == b, "!=": a != b, "!==": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]), 0
            if o in ("<<", ">>", "<<<", ">>>", "**"):
                a, ax = self.ev(e[2], w, s, env, const)
                bw, bs = self.size(e[3], env, const)
                b, bx = self.ev(e[3], bw, bs, env, const)
                if bx or (ax and o == "**"):
                    return 0, mask(w)
                if o == "**":
                    return pow(a, b) & mask(w), 0
                if o in ("<<", "<<<"):
                    return a << b & mask(w), ax << b & mask(w)
                if o == ">>>" and s:
                    if ax:
                        return 0, mask(w)
                    a = a - (1 << w) if a >> (w - 1) & 1 else a
                    return a >> b & mask(w), 0
                return a >> b, ax >> b
            a, ax = self.ev(e[2], w, s, env, const)
            b, bx = self.ev(e[3], w, s, env, const)
            if o == "&":
                zero = (~a & ~ax) | (~b & ~bx)
                x = (ax | bx) & ~zero
                return a & b & ~x & mask(w), x & mask(w)
            if o == "|":
                one = (a & ~ax) | (b & ~bx)
                x = (ax | bx) & ~one
                return (one & mask(w)), x & mask(w)
            if o in ("^", "~^", "^~"):
                x = ax | bx
                r = a ^ b if o == "^" else ~(a ^ b)
                return r & ~x & mask(w), x
            if ax or bx:
                return 0, mask(w)
            if o == "+":
                return a + b & mask(w), 0
            if o == "-":
                return a - b & mask(w), 0
            if o == "*":
                return a * b & mask(w), 0
            if s:
                a = a - (1 << w) if a >> (w - 1) & 1 else a
                b = b - (1 << w) if b >> (w - 1) & 1 else b
            if b == 0:
                return 0, mask(w)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return (q if o == "/" else a - q * b) & mask(w), 0
        if k == "cond":
            c = self.truth(e[1], env, const)
            if c is not None:
                return self.ev(e[2] if c else e[3], w, s, env, const)
            a, ax = self.ev(e[2], w, s, env, const)
            b, bx = self.ev(e[3], w, s, env, const)
            x = ax | bx | (a ^ b)
            return a & ~x, x
        if k == "call":
            if e[1] in ("$signed", "$unsigned"):
                ow, os_ = self.size(e[2][0], env, const)
                return sx(self.ev(e[2][0], ow, os_, env, const), ow, w, s)
            ow, os_ = self.size(e[2][0], env, const)
            b, x = self.ev(e[2][0], ow, os_, env, const)
            if x:
                return 0, mask(w)
            if e[1] == "$clog2":
                return max(b - 1, 0).bit_length() & mask(w), 0
            return bin(b).count("1") & mask(w), 0
        if k == "cast":
            n = self.const(e[1], ints(env))
            ow, os_ = self.size(e[2], env, const)
            v = self.ev(e[2], max(ow, n), os_, env, const)
            return sx((v[0] & mask(n), v[1] & mask(n)), n, w, s and (os_ if e[3] is None else e[3]))
        if k == "ucall":
            if const:
                raise RTLUnmodelled("function call in a constant")
            ret, args, body = self.function(e[1])
            if len(args) != len(e[2]):
                raise RTLError("call of %s with %d arguments" % (e[1], len(e[2])), None)
            local = {ret: (0, mask(self.widths[ret]))}
            for q, x in zip(args, e[2]):
                ow, os_ = self.size(x, env)
                v = self.ev(x, max(ow, self.widths[q]), os_, env)
                local[q] = (v[0] & mask(self.widths[q]), v[1] & mask(self.widths[q]))
            try:
                new = dict(local)
                self.do(body, {" local": local, " in": ret}, new, local, True)
                v = new[ret]
            except Return as r:
                v = r.args[0]
            return sx(v, self.widths[ret], w, s and self.signed[ret])
        raise RTLUnmodelled(k)

    def truth(self, e, env, const=False):
        w, s = self.size(e, env, const)
        b, x = self.ev(e, w, s, env, const)
        return 1 if b & ~x else None if x else 0

    def selected(self, e, w, env, const):
        base = e[1]
        if base[0] != "id" or base[1] in self.params or base[1] in env and isinstance(env[base[1]], int):
            bw, bs = self.size(base, env, const)
            v, place = self.ev(base, bw, bs, env, const), lambda i, n=1: i
            rd = lambda lo, n: ((v[0] >> lo & mask(n)), (v[1] >> lo & mask(n)))
        else:
            n_ = base[1]
            self.known(n_, None)
            bw, place = self.widths[n_], lambda i, n=1: self.place(n_, i, n)
            rd = lambda lo, n: self.read(n_, lo, n, env)
        if e[0] == "idx":
            iw, is_ = self.size(e[2], env, const)
            i, ix = self.ev(e[2], iw, is_, env, const)
            if ix:
                return 0, 1
            if is_ and i >> (iw - 1) & 1:
                i -= 1 << iw
            lo, n = place(i), 1
        elif e[0] == "part":
            lo, n = self.bounds(e, ints(env), base[1] if base[0] == "id" else None)
            lo = place(lo, n)
        else:
            n = self.const(e[3], env)
            iw, is_ = self.size(e[2], env, const)
            i, ix = self.ev(e[2], iw, is_, env, const)
            if ix:
                return 0, mask(n) & mask(w)
            if is_ and i >> (iw - 1) & 1:
                i -= 1 << iw
            lo = place(i - (0 if e[4] else n - 1), n)
        if lo < 0 or lo + n > bw:
            return 0, mask(min(n, w))
        b, x = rd(lo, n)
        return b & mask(w), x & mask(w)

    # reads: demand driven
    def read(self, n, lo, w, env):
        loc = env.get(" local") if env else None
        if loc is not None and n in loc:
            b, x = loc[n]
            return b >> lo & mask(w), x >> lo & mask(w)
        v = self.fetch(n, lo, w)
        rec = self.top.rec
        if rec:
            rec[-1].append((self, n, lo, w, v))
        return v

    def traced(self, key, f):
        """f() depends only on the signals it reads: a decision tree over their values replaces repeated evaluation"""
        root = self.tries.setdefault(key, [None, None])     # [read, children] or [LEAF, result]
        rec = self.top.rec
        node = root
        while node[0] is not None:
            if node[0] is LEAF:
                return node[1]
            inst, n, lo, w = node[0]
            rec.append([])
            v = inst.fetch(n, lo, w)
            rec.pop()
            nxt = node[1].get(v)
            if nxt is None:
                nxt = node[1][v] = [None, None]
            node = nxt
        rec.append([])
        try:
            r = f()
        finally:
            t = rec.pop()
        node = root
        for inst, n, lo, w, v in t:
            if node[0] is None:
                node[0], node[1] = (inst, n, lo, w), {}
            assert node[0] == (inst, n, lo, w)
            node = node[1].setdefault(v, [None, None])
        node[0], node[1] = LEAF, r
        return r

    def fetch(self, n, lo, w):
        run = self.top.run
        rb = rx = 0
        todo = mask(w) << lo
        held = self.regs.get(n, 0)
        if held & todo:
            b, x = run.state[(self.path, n)]
            if not todo & ~held:
                return b >> lo & mask(w), x >> lo & mask(w)
            rb, rx = b & held & todo, x & held & todo
            todo &= ~held
        if self.mod.dirs.get(n) == "input":
            if self.parent is None:
                b, x = run.inputs[n]
            else:
                b, x = self.inport(n)
            return b >> lo & mask(w), x >> lo & mask(w)
        for dlo, dw, kind, payload, ln in self.drivers[n]:
            bits = mask(dw) << dlo
            if not bits & todo or kind == "reg":
                continue
            todo &= ~bits
            b, x = self.driven(n, dlo, dw, kind, payload)
            rb |= b << dlo
            rx |= x << dlo
        rx |= todo          # undriven bits are unknown
        return rb >> lo & mask(w), rx >> lo & mask(w)

    def memo(self, key, f):
        run = self.top.run
        if key in run.memo:
            v = run.memo[key]
            if v is None:
                raise RTLError("combinational loop through %s" % (key[1],), None)
            return v
        run.memo[key] = None
        v = run.memo[key] = self.traced(key, f)
        return v

    def inport(self, n):
        e, env = self.conn[n]
        w = self.widths[n]

        def go():
            p = self.parent
            ew, es = p.size(e, env)
            return p.ev(e, max(ew, w), es, env)
        b, x = self.memo((self.path, n, "in"), go)
        return b & mask(w), x & mask(w)

    def driven(self, n, dlo, dw, kind, payload):
        if kind == "comb":
            r = self.memo((self.path, "process at line %d" % payload[3], id(payload[1]), tuple(sorted(ints(payload[2]).items()))), lambda: self.process(payload[1], payload[2], targets(payload[1]), None))
            return r[n][0] >> dlo & mask(dw), r[n][1] >> dlo & mask(dw)
        return self.memo((self.path, n, dlo), lambda: self.value(payload[0], payload[1], dw))

    def value(self, p, tw, w):
        """value of a driver whose whole target has width tw"""
        if p[0] == "expr":
            ew, es = self.size(p[1], p[2])
            b, x = self.ev(p[1], max(ew, tw), es, p[2])
        elif p[0] == "slice":
            b, x = self.whole(p[1], p[2] + p[3])
            return b >> p[2] & mask(w), x >> p[2] & mask(w)
        else:
            kid, n = p[1], p[2]
            b, x = kid.read(n, 0, kid.widths[n], {})
        return b & mask(w), x & mask(w)

    def whole(self, p, need):
        if p[0] == "slice":
            b, x = self.whole(p[1], p[2] + p[3])
            return b >> p[2] & mask(p[3]), x >> p[2] & mask(p[3])
        if p[0] == "expr":
            ew, es = self.size(p[1], p[2])
            return self.ev(p[1], max(ew, need, 64), es, p[2])
        return p[1].read(p[2], 0, p[1].widths[p[2]], {})

    # processes
    def process(self, st, env, names, old):
        """run a process; old: values kept by registers not assigned (None: combinational)"""
        local = {}
        new = {n: (old[n] if old is not None else (0, mask(self.widths[n]))) for n in names}
        e = dict(env)
        if old is None:
            e[" local"] = local
        else:
            e[" local"] = local
        self.do(st, e, new, local, old is None)
        return new

    def do(self, st, env, new, local, comb):
        k = st[0]
        if k == "block":
            for x in st[1]:
                self.do(x, env, new, local, comb)
        elif k == "if":
            c = self.truth(st[1], env)
            if c is None:
                self.merge([st[2], st[3] or ("block", [])], env, new, local, comb)
            elif c:
                self.do(st[2], env, new, local, comb)
            elif st[3] is not None:
                self.do(st[3], env, new, local, comb)
        elif k == "case":
            _, e, arms, dflt = st
            size = [self.size(e, env)] + [self.size(l, env) for labs, _ in arms for l in labs]
            w, s = max(a for a, _ in size), all(b for _, b in size)
            v = self.ev(e, w, s, env)
            if v[1]:
                return self.merge([a for _, a in arms] + [dflt or ("block", [])], env, new, local, comb)
            for labs, a in arms:
                for l in labs:
                    if self.ev(l, w, s, env) == v:
                        return self.do(a, env, new, local, comb)
            if dflt is not None:
                self.do(dflt, env, new, local, comb)
        elif k == "for":
            _, var, a, c, step, body = st
            i, n = self.const(a, ints(env)), 0
            while self.const(c, dict(ints(env), **{var: i})):
                self.do(body, dict(env, **{var: i}), new, local, comb)
                i = self.const(step, dict(ints(env), **{var: i}))
                n += 1
                if n > 4096:
                    raise RTLUnmodelled("long loop")
        elif k in ("nb", "b"):
            _, l, e, ln = st
            tw = self.plw(l, env, ln)
            ew, es = self.size(e, env)
            w = max(tw, ew)
            v = self.ev(e, w, es, env)
            self.put(l, (v[0] & mask(tw), v[1] & mask(tw)), env, new, local, comb or k == "b", ln)
        elif k == "return":
            ret = env.get(" in")
            if ret is None or env.get(" merging"):
                raise RTLUnmodelled("return")
            ew, es = self.size(st[1], env)
            v = self.ev(st[1], max(ew, self.widths[ret]), es, env)
            raise Return((v[0] & mask(self.widths[ret]), v[1] & mask(self.widths[ret])))
        else:
            raise RTLUnmodelled(k)

    def merge(self, arms, env, new, local, comb):
        res = []
        for a in arms:
            n2, l2 = dict(new), dict(local)
            e2 = dict(env)
            e2[" merging"] = 1
            if " local" in e2:
                e2[" local"] = l2
            self.do(a, e2, n2, l2, comb)
            res.append((n2, l2))
        for d, k in ((new, 0), (local, 1)):
            for n in set().union(*[r[k] for r in res]):
                vs = [r[k].get(n) for r in res]
                if None in vs:
                    vs = [v if v is not None else self.read(n, 0, self.widths[n], {}) for v in vs]
                b, x = vs[0]
                for b2, x2 in vs[1:]:
                    x |= x2 | (b ^ b2)
                d[n] = (b & ~x, x)

    def plw(self, l, env, ln):
        if l[0] == "cat":
            return sum(self.plw(p, env, ln) for p in l[1])
        if l[0] == "id":
            self.known(l[1], ln)
            return self.widths[l[1]]
        if l[0] == "idx":
            return 1
        if l[0] == "part":
            return self.bounds(l, ints(env), l[1][1], ln)[1]
        return self.const(l[3], ints(env))

    def put(self, l, v, env, new, local, blocking, ln):
        if l[0] == "cat":
            off = self.plw(l, env, ln)
            for p in l[1]:
                w = self.plw(p, env, ln)
                off -= w
                self.put(p, (v[0] >> off & mask(w), v[1] >> off & mask(w)), env, new, local, blocking, ln)
            return
        n = l[1] if l[0] == "id" else l[1][1]
        self.known(n, ln)
        w = self.plw(l, env, ln)
        if l[0] == "id":
            lo = 0
        elif l[0] == "idx":
            iw, is_ = self.size(l[2], env)
            i, ix = self.ev(l[2], iw, is_, env)
            if ix:
                new[n] = (0, mask(self.widths[n]))
                return
            if is_ and i >> (iw - 1) & 1:
                i -= 1 << iw
            lo = self.place(n, i)
        elif l[0] == "part":
            lo = self.place(n, *self.bounds(l, ints(env), n, ln))
        else:
            iw, is_ = self.size(l[2], env)
            i, ix = self.ev(l[2], iw, is_, env)
            if ix:
                new[n] = (0, mask(self.widths[n]))
                return
            lo = self.place(n, i - (0 if l[4] else w - 1), w)
        if lo < 0 or lo + w > self.widths[n]:
            raise RTLError("assignment outside the range of %s" % n, ln)
        m = mask(w) << lo
        b, x = new.get(n, (0, mask(self.widths[n])))
        new[n] = (b & ~m | v[0] << lo, x & ~m | v[1] << lo)
        if blocking:
            local[n] = new[n]


def ints(env):
    return {k: v for k, v in env.items() if isinstance(v, int) and k != " merging"}


def targets(st):
    k = st[0]
    if k == "block":
        return set().union(*[targets(x) for x in st[1]]) if st[1] else set()
    if k == "if":
        return targets(st[2]) | (targets(st[3]) if st[3] else set())
    if k == "case":
        out = targets(st[3]) if st[3] else set()
        for _, a in st[2]:
            out |= targets(a)
        return out
    if k == "for":
        return targets(st[5])
    if k == "return":
        return set()
    return {n for n in names(st[1]) if not n.startswith(LOCAL)}


def names(l):
    if l[0] == "cat":
        return set().union(*[names(p) for p in l[1]])
    return {l[1] if l[0] == "id" else l[1][1]}


class Run:
    def __init__(self, state, inputs):
        self.state, self.inputs, self.memo = state, inputs, {}


class Design:
    """a top module with its includes"""

    def __init__(self, root, rel, name, params):
        self.modules, self.inc, self.files = {}, {}, {}
        self.defs, self.types = {}, {}
        self.rec = []
        self.root = root
        self.load(rel)
        if name not in self.modules:
            raise RTLError("%s declares no module %s" % (rel, name), None)
        m = self.modules[name]
        self.run = None
        self.top = Inst(self, m, name, params, {}, None)
        self.insts = []
        todo = [self.top]
        while todo:
            i = todo.pop()
            self.insts.append(i)
            todo += i.kids
        self.clock = self.reset = None
        for i in self.insts:
            for sens, st, env, ln, own in i.ffs:
                edges = [e for e, _ in sens]
                if edges not in (["posedge", "negedge"], ["posedge"]):
                    raise RTLUnmodelled("sensitivity list at line %d" % ln)

    def load(self, rel):
        rel = os.path.normpath(rel)
        if rel in self.files:
            return
        p = os.path.join(self.root, rel)
        if not os.path.exists(p):
            raise RTLError("file %s does not exist" % rel, None)
        self.files[rel] = None

        def load(inc, ln):
            q = os.path.join(os.path.dirname(rel), inc)
            if not os.path.exists(os.path.join(self.root, q)):
                e = RTLError("included file %s does not exist" % inc, ln)
                e.file = rel
                raise e
            self.load(q)
        pr = None
        text = open(p, encoding="utf-8", errors="replace").read()
        try:
            self.files[rel] = pr = Parser(text, rel, self.defs, load, self.types)
            pr.parse()
        except RTLError as e:
            beyond = sorted(set(re.findall(r"[a-zA-Z_]\w*", re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S))) & BEYOND)
            if beyond and getattr(e, "file", None) in (None, rel):
                raise RTLUnmodelled("%s (%s)" % (beyond[0], e))
            e.file = getattr(e, "file", None) or rel
            raise
        for m in pr.mods:
            if m.name in self.modules:
                e = RTLError("module %s is defined in %s and %s" % (m.name, self.modules[m.name].file, rel), m.line)
                e.file = rel
                raise e
            self.modules[m.name] = m

    def visible(self, mod, name, ln):
        pass

    # the transition function
    def inputs_of(self):
        t = self.top
        return [(n, t.widths[n]) for n in t.mod.ports if t.mod.dirs[n] == "input"]

    def outputs_of(self):
        t = self.top
        return [n for n in t.mod.ports if t.mod.dirs[n] != "input"]

    def start(self):
        """state under reset: registers assigned under reset take that value, others stay unknown"""
        state = {(i.path, n): (0, mask(i.widths[n])) for i in self.insts for n in i.regs}
        for _ in range(3):
            state = self.next(state, {n: ((0, 0) if n == "rst_n" else (0, mask(w))) for n, w in self.inputs_of()}, reset=True)
        return state

    def next(self, state, inputs, reset=False):
        self.run = Run(state, inputs)
        new = dict(state)
        for i in self.insts:
            for sens, st, env, ln, own in i.ffs:
                if reset and len(sens) < 2:
                    continue
                nm = sorted(targets(st))

                def go():
                    return i.process(st, env, nm, {n: i.read(n, 0, i.widths[n], {}) for n in nm})
                for n, v in i.traced(("ff", id(st), tuple(sorted(ints(env).items()))), go).items():
                    if n.startswith(LOCAL):
                        continue
                    m, (b, x) = own[n], new[(i.path, n)]
                    new[(i.path, n)] = (b & ~m | v[0] & m, x & ~m | v[1] & m)
        return new

    def outputs(self, state, inputs):
        self.run = Run(state, inputs)
        return {n: self.top.read(n, 0, self.top.widths[n], {}) for n in self.outputs_of()}
