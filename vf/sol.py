"""Solidity (the subset used under src/, generously taken) to C: every run translates the sources of the working tree and compiles them.

Values and memory pointers are 256-bit words (_BitInt), memory is the byte-addressed EVM memory with Solidity's allocator (free pointer
at 0x40, first block at 0x80), arithmetic is checked unless `unchecked`, inline assembly is translated operation by operation.
Gas is not modelled except as a bound on loop iterations and memory size.
"""
import os, re


class Unsupported(Exception):
    pass


TOK = re.compile(r"""
 (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
|(?P<num>0[xX][0-9a-fA-F_]+|\d[\d_]*(?:\.\d+)?(?:[eE]\d+)?)
|(?P<hexstr>hex"[0-9a-fA-F_]*"|hex'[0-9a-fA-F_]*')
|(?P<str>(?:unicode)?"(?:\\.|[^"\\])*"|(?:unicode)?'(?:\\.|[^'\\])*')
|(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
|(?P<op>>>>=|<<=|>>=|>>>|\*\*|=>|->|:=|\+\+|--|&&|\|\||==|!=|<=|>=|<<|>>|\+=|-=|\*=|/=|%=|&=|\|=|\^=|[-+*/%&|^~!<>=?:;,.(){}\[\]])
""", re.X | re.S)


def lex(src, name):
    out, p = [], 0
    while p < len(src):
        m = TOK.match(src, p)
        if not m:
            raise Unsupported("%s: cannot read %r" % (name, src[p:p + 40]))
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group(), src.count("\n", 0, p) + 1))
        p = m.end()
    out.append(("eof", "", 0))
    return out


ELEM = re.compile(r"^(uint\d*|int\d*|bytes\d*|bool|address|string|byte)$")
UINT = ("uint", 256)


def elementary(s):
    if s == "uint" or s == "int":
        return (s, 256)
    if s in ("bool", "address", "bytes", "string"):
        return (s,)
    if s == "byte":
        return ("fbytes", 1)
    m = re.match(r"^(uint|int|bytes)(\d+)$", s)
    return (m.group(1), int(m.group(2))) if m.group(1) != "bytes" else ("fbytes", int(m.group(2)))


class Parser:
    def __init__(self, src, name):
        self.t, self.i, self.name = lex(src, name), 0, name

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def kind(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][0]

    def next(self):
        self.i += 1
        return self.t[self.i - 1][1]

    def at(self, *s):
        return self.peek() in s and self.kind() != "str"

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise Unsupported("%s:%d: expected %r, found %r" % (self.name, self.t[self.i][2], s, self.peek()))

    def ident(self):
        if self.kind() != "id":
            raise Unsupported("%s:%d: expected a name, found %r" % (self.name, self.t[self.i][2], self.peek()))
        return self.next()

    def skip_to(self, s):
        d = 0
        while True:
            x = self.peek()
            if self.kind() == "eof":
                raise Unsupported("%s: unexpected end" % self.name)
            if d == 0 and x == s and self.kind() != "str":
                return
            if x in ("(", "{", "["):
                d += 1
            if x in (")", "}", "]"):
                d -= 1
            self.i += 1

    # ---- top level
    def unit(self):
        items = []
        while self.kind() != "eof":
            items.append(self.item())
        return [x for x in items if x]

    def item(self):
        if self.at("pragma", "using", "error", "event", "type"):
            self.skip_to(";")
            self.need(";")
            return None
        if self.at("import"):
            self.next()
            path = None
            while not self.at(";"):
                if self.kind() == "str":
                    path = self.peek().strip("\"'")
                self.next()
            self.need(";")
            return ("import", path)
        if self.at("abstract"):
            self.next()
        if self.at("contract", "library", "interface"):
            kind = self.next()
            name = self.ident()
            bases = []
            if self.eat("is"):
                while not self.at("{"):
                    bases.append(self.next())
            self.need("{")
            body = []
            while not self.eat("}"):
                x = self.item() if not self.at("function", "constructor", "receive", "fallback", "modifier") else self.function()
                if x:
                    body.append(x)
            return ("contract", kind, name, bases, body)
        if self.at("struct"):
            self.next()
            name = self.ident()
            self.need("{")
            f = []
            while not self.eat("}"):
                ty = self.type()
                f.append((self.ident(), ty))
                self.need(";")
            return ("struct", name, f)
        if self.at("enum"):
            self.next()
            name = self.ident()
            self.need("{")
            ms = []
            while not self.eat("}"):
                ms.append(self.ident())
                self.eat(",")
            return ("enum", name, ms)
        if self.at("function", "constructor"):
            return self.function()
        ty = self.type()
        mods = []
        while self.at("constant", "public", "private", "internal", "immutable", "override"):
            mods.append(self.next())
        name = self.ident()
        init = self.expr() if self.eat("=") else None
        self.need(";")
        return ("var", ty, mods, name, init)

    def function(self):
        kw = self.next()
        name = self.ident() if kw in ("function", "modifier") and self.kind() == "id" else kw
        params = self.params() if self.at("(") else []
        rets, mods = [], []
        while not self.at("{", ";"):
            if self.eat("returns"):
                rets = self.params()
            else:
                m = self.next()
                mods.append(m)
                if self.at("("):
                    self.next()
                    margs = []
                    while not self.eat(")"):
                        margs.append(self.expr())
                        self.eat(",")
                    if m != "override":
                        mods[-1] = (m, margs)
        body = None
        if not self.eat(";"):
            body = self.block()
        if kw == "modifier":
            return ("modifier", name, params, body)
        return ("function", name, params, rets, mods, body)

    def params(self):
        self.need("(")
        out = []
        while not self.eat(")"):
            ty = self.type()
            loc = None
            while self.at("memory", "calldata", "storage", "payable"):
                loc = self.next()
            nm = self.ident() if self.kind() == "id" else None
            if loc == "calldata":
                ty = ("calldata", ty)
            out.append((ty, nm))
            self.eat(",")
        return out

    def type(self):
        if self.at("mapping", "function"):
            raise Unsupported("type " + self.peek())
        s = self.ident()
        ty = elementary(s) if ELEM.match(s) else ("user", s)
        if s == "address":
            self.eat("payable")
        while ty[0] == "user" and self.eat("."):
            ty = ("user", self.ident())
        while self.at("["):
            self.next()
            if self.eat("]"):
                ty = ("array", ty, None)
            else:
                e = self.expr()
                self.need("]")
                ty = ("array", ty, e)
        return ty

    # ---- statements
    def block(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out.append(self.stmt())
        return ("block", out)

    def isdecl(self):
        """Is the statement here a variable declaration?"""
        if self.kind() != "id":
            return False
        if self.at("delete", "new", "this", "type", "super", "true", "false"):
            return False
        save = self.i
        try:
            self.type()
            while self.at("memory", "calldata", "storage", "payable"):
                self.next()
            return self.kind() == "id" and self.peek(1) in ("=", ";", ",", ")")
        except Unsupported:
            return False
        finally:
            self.i = save

    def vardecl(self):
        ty = self.type()
        loc = None
        while self.at("memory", "calldata", "storage", "payable"):
            loc = self.next()
        if loc == "calldata":
            ty = ("calldata", ty)
        return (ty, self.ident())

    def simple(self):
        """Declaration or expression, without the semicolon."""
        if self.isdecl():
            d = self.vardecl()
            return ("decl", [d], self.expr() if self.eat("=") else None)
        if self.at("("):
            save = self.i
            self.next()
            ds, ok = [], False
            try:
                while True:
                    if self.at(",", ")"):
                        ds.append(None)
                    elif self.isdecl():
                        ds.append(self.vardecl())
                        ok = True
                    else:
                        ok = False
                        break
                    if self.eat(")"):
                        break
                    self.need(",")
                if ok and self.at("="):
                    self.next()
                    return ("decl", ds, self.expr())
            except Unsupported:
                pass
            self.i = save
        return ("expr", self.expr())

    def stmt(self):
        line = self.t[self.i][2]
        if self.at("{"):
            return self.block()
        if self.at("unchecked"):
            self.next()
            return ("unchecked", self.block())
        if self.at("assembly"):
            self.next()
            if self.kind() == "str":
                self.next()
            if self.at("("):
                self.next()
                self.skip_to(")")
                self.need(")")
            return ("asm", self.yblock())
        if self.at("if"):
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            b = self.stmt() if self.eat("else") else None
            return ("if", c, a, b)
        if self.at("for"):
            self.next()
            self.need("(")
            a = None if self.at(";") else self.simple()
            self.need(";")
            c = None if self.at(";") else self.expr()
            self.need(";")
            p = None if self.at(")") else self.expr()
            self.need(")")
            return ("for", a, c, p, self.stmt())
        if self.at("while"):
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            return ("for", None, c, None, self.stmt())
        if self.at("do"):
            self.next()
            b = self.stmt()
            self.need("while")
            self.need("(")
            c = self.expr()
            self.need(")")
            self.need(";")
            return ("do", b, c)
        if self.at("break", "continue"):
            k = self.next()
            self.need(";")
            return (k,)
        if self.at("return"):
            self.next()
            e = None if self.at(";") else self.expr()
            self.need(";")
            return ("return", e)
        if self.at("revert") and self.peek(1) != "(":
            self.next()
            self.expr()
            self.need(";")
            return ("expr", ("call", ("id", "revert"), []))
        if self.at("emit"):
            self.next()
            self.expr()
            self.need(";")
            return ("block", [])
        if self.at("try"):
            raise Unsupported("try")
        s = self.simple()
        self.need(";")
        return s + (line,) if s[0] == "expr" else s

    # ---- expressions
    PREC = [["||"], ["&&"], ["==", "!="], ["<", ">", "<=", ">="], ["|"], ["^"], ["&"], ["<<", ">>", ">>>"], ["+", "-"], ["*", "/", "%"]]
    ASS = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>=")

    def expr(self):
        c = self.binary(0)
        if self.at("?"):
            self.next()
            a = self.expr()
            self.need(":")
            return ("cond", c, a, self.expr())
        if self.peek() in self.ASS and self.kind() == "op":
            op = self.next()
            return ("assign", op[:-1], c, self.expr())
        return c

    def binary(self, l):
        if l == len(self.PREC):
            return self.power()
        a = self.binary(l + 1)
        while self.kind() == "op" and self.peek() in self.PREC[l]:
            op = self.next()
            a = ("bin", op, a, self.binary(l + 1))
        return a

    def power(self):
        a = self.unary()
        if self.eat("**"):
            return ("bin", "**", a, self.power())
        return a

    def unary(self):
        if self.kind() == "op" and self.at("!", "~", "-", "++", "--", "+"):
            op = self.next()
            return ("un", op, self.unary())
        if self.at("delete") and self.kind() == "id":
            self.next()
            return ("delete", self.unary())
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.at("["):
                self.next()
                if self.eat("]"):
                    e = ("arrtype", e, None)
                    continue
                a = None if self.at(":") else self.expr()
                if self.eat(":"):
                    b = None if self.at("]") else self.expr()
                    self.need("]")
                    e = ("slice", e, a, b)
                    continue
                self.need("]")
                e = ("index", e, a)
            elif self.at("."):
                self.next()
                e = ("member", e, self.next())
            elif self.at("("):
                self.next()
                if self.eat("{"):
                    names, a = [], []
                    while not self.eat("}"):
                        names.append(self.ident())
                        self.need(":")
                        a.append(self.expr())
                        self.eat(",")
                    self.need(")")
                    e = ("call", ("named", e, names), a)
                    continue
                a = []
                while not self.eat(")"):
                    a.append(self.expr())
                    self.eat(",")
                e = ("call", e, a)
            elif self.kind() == "op" and self.at("++", "--"):
                e = ("post", self.next(), e)
            else:
                return e

    def primary(self):
        k, s = self.kind(), self.peek()
        if k == "num":
            self.next()
            u = {"wei": 1, "gwei": 10**9, "ether": 10**18, "seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "weeks": 604800}
            mul = u[self.next()] if self.peek() in u else 1
            s = s.replace("_", "")
            if s[:2].lower() == "0x":
                return ("num", int(s, 16) * mul, len(s) - 2)
            if "." in s or "e" in s.lower():
                from fractions import Fraction
                f = Fraction(s) * mul
                if f.denominator != 1:
                    raise Unsupported("fraction " + s)
                return ("num", int(f), None)
            return ("num", int(s) * mul, None)
        if k == "str":
            v = b""
            while self.kind() == "str":
                v += self.next().removeprefix("unicode")[1:-1].encode().decode("unicode_escape").encode("latin1", "replace")
            return ("str", v)
        if k == "hexstr":
            return ("str", bytes.fromhex(self.next()[4:-1].replace("_", "")))
        if s == "(":
            self.next()
            out = []
            if self.eat(")"):
                return ("tuple", [])
            while True:
                out.append(None if self.at(",", ")") else self.expr())
                if self.eat(")"):
                    break
                self.need(",")
            return out[0] if len(out) == 1 and out[0] is not None else ("tuple", out)
        if s == "[":
            self.next()
            out = []
            while not self.eat("]"):
                out.append(self.expr())
                self.eat(",")
            return ("arrlit", out)
        if s == "new":
            self.next()
            return ("new", self.type())
        if k == "id":
            if ELEM.match(s):
                self.next()
                if s == "address":
                    self.eat("payable")
                return ("type", elementary(s))
            self.next()
            return ("id", s)
        raise Unsupported("%s:%d: unexpected %r" % (self.name, self.t[self.i][2], s))

    # ---- inline assembly
    def yblock(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out.append(self.ystmt())
        return out

    def ystmt(self):
        if self.at("{"):
            return ("block", self.yblock())
        if self.at("let"):
            self.next()
            ns = [self.ident()]
            while self.eat(","):
                ns.append(self.ident())
            return ("let", ns, self.yexpr() if self.eat(":=") else None)
        if self.at("if"):
            self.next()
            c = self.yexpr()
            return ("if", c, self.yblock())
        if self.at("for"):
            self.next()
            a = self.yblock()
            c = self.yexpr()
            p = self.yblock()
            return ("for", a, c, p, self.yblock())
        if self.at("switch"):
            self.next()
            e = self.yexpr()
            cs = []
            while self.at("case", "default"):
                v = self.yexpr() if self.next() == "case" else None
                cs.append((v, self.yblock()))
            return ("switch", e, cs)
        if self.at("function"):
            self.next()
            n = self.ident()
            self.need("(")
            ps, rs = [], []
            while not self.eat(")"):
                ps.append(self.ident())
                self.eat(",")
            if self.eat("->"):
                rs.append(self.ident())
                while self.eat(","):
                    rs.append(self.ident())
            return ("function", n, ps, rs, self.yblock())
        if self.at("break", "continue", "leave"):
            return (self.next(),)
        e = self.yexpr()
        if e[0] == "id" and self.at(",", ":="):
            ns = [e[1]]
            while self.eat(","):
                ns.append(self.ypath())
            self.need(":=")
            return ("set", ns, self.yexpr())
        return ("expr", e)

    def ypath(self):
        s = self.ident()
        while self.eat("."):
            s += "." + self.ident()
        return s

    def yexpr(self):
        if self.kind() == "num":
            return ("num", int(self.next().replace("_", ""), 0))
        if self.kind() in ("str", "hexstr"):
            v = self.primary()[1]
            return ("num", int.from_bytes(v.ljust(32, b"\0"), "big"))
        if self.at("true", "false"):
            return ("num", int(self.next() == "true"))
        n = self.ypath()
        if self.at("("):
            self.next()
            a = []
            while not self.eat(")"):
                a.append(self.yexpr())
                self.eat(",")
            return ("call", n, a)
        return ("id", n)


# ------------------------------------------------------------------------------------------------ program and C emission
YOPS = {"add": 2, "sub": 2, "mul": 2, "div": 2, "mod": 2, "sdiv": 2, "smod": 2, "addmod": 3, "mulmod": 3, "exp": 2, "lt": 2, "gt": 2, "slt": 2,
        "sgt": 2, "eq": 2, "iszero": 1, "and": 2, "or": 2, "xor": 2, "not": 1, "shl": 2, "shr": 2, "sar": 2, "byte": 2, "signextend": 2, "pop": 1,
        "gas": 0, "msize": 0, "mload": 1, "mstore": 2, "mstore8": 2, "keccak256": 2, "revert": 2, "invalid": 0, "mcopy": 3, "extcodesize": 1,
        "extcodecopy": 4, "create2": 4, "calldataload": 1, "calldatasize": 0, "calldatacopy": 3}
IGNORED_MODS = {"pure", "view", "public", "external", "internal", "private", "payable", "virtual", "override", "constant", ",", "(", ")"}


def keccak4(sig):
    from Crypto.Hash import keccak
    return keccak.new(digest_bits=256, data=sig.encode()).digest()[:4]


class Fn:
    pass


class Program:
    def __init__(self, path, contract=None):
        self.modifiers, self.enums, self.free = {}, {}, False
        self.files, self.fns, self.consts, self.structs, self.contracts = {}, {}, {}, {}, {}
        self.state, self.order, self.ctor = {}, [], None
        self.foreign, self.fctor, self.dyn = {}, {}, set()
        self.load(os.path.abspath(path))
        if contract:
            self.flatten(contract)
        self.n = 0

    def load(self, path):
        if path in self.files:
            return
        self.files[path] = True
        with open(path, encoding="utf-8") as f:
            items = Parser(f.read(), os.path.basename(path)).unit()
        for it in items:
            if it[0] == "import" and it[1] and it[1].startswith("."):
                self.load(os.path.normpath(os.path.join(os.path.dirname(path), it[1])))
        for it in items:
            if it[0] == "contract":
                self.contracts[it[2]] = it
        for it in items:
            if it[0] == "contract":
                if it[1] == "library":
                    for x in it[4]:
                        self.add(x, True)
            elif it[0] != "import":
                self.free = True
                self.add(it)
                self.free = False

    def add(self, it, lib=None):
        if it[0] == "function":
            f = Fn()
            f.lib = lib is not None or self.free
            _, f.name, f.params, f.rets, f.mods, f.body = it
            if f.name == "constructor":
                self.ctor = f
            elif f.name in ("receive", "fallback"):
                return
            else:
                lst = self.fns.setdefault(f.name, [])
                key = repr([t for t, _ in f.params])
                lst[:] = [g for g in lst if repr([t for t, _ in g.params]) != key]
                lst.append(f)
            f.id = "%s_%d" % (f.name, len(self.order))
            self.order.append(f)
        elif it[0] == "struct":
            self.structs[it[1]] = it[2]
        elif it[0] == "enum":
            self.enums[it[1]] = it[2]
        elif it[0] == "modifier":
            self.modifiers[it[1]] = it
        elif it[0] == "var":
            _, ty, mods, name, init = it
            if "constant" in mods:
                self.consts[name] = (ty, init)
                return
            if ty[0] == "user" and ty[1] in self.contracts and self.contracts[ty[1]][1] == "contract" and ty[1] not in self.foreign:
                # a contract held by this one (the test contracts do this): its functions join the program
                keep, self.ctor = self.ctor, None
                self.foreign[ty[1]] = name
                self.flatten(ty[1])
                self.fctor[ty[1]], self.ctor = self.ctor, keep
            if ty[0] == "array" and ty[2] is None and init is not None and init[0] == "arrlit":
                ty = ("array", ty[1], ("num", len(init[1]), None))
                self.dyn.add(name)
            self.state[name] = (ty, init)

    def flatten(self, name):
        if name not in self.contracts:
            raise Unsupported("no contract " + name)
        _, _, _, bases, body = self.contracts[name]
        for b in bases:
            if b in self.contracts and self.contracts[b][1] == "contract":
                self.flatten(b)
        for x in body:
            self.add(x)

    # ---- types
    def norm(self, t):
        if t[0] == "array":
            n = t[2]
            if n is not None and not isinstance(n, int):
                n = self.const_int(n)
            return ("array", self.norm(t[1]), n)
        if t[0] == "calldata":
            return ("calldata", self.norm(t[1]))
        if t[0] == "user":
            if t[1] in self.structs:
                return ("struct", t[1])
            if t[1] in self.enums:
                return ("uint", 8)
            return ("address",)
        return t

    def const_int(self, e):
        if e[0] == "num":
            return e[1]
        if e[0] == "id" and e[1] in self.consts:
            return self.const_int(self.consts[e[1]][1])
        if e[0] == "bin":
            a, b = self.const_int(e[2]), self.const_int(e[3])
            return fold(e[1], a, b)
        raise Unsupported("constant expression %r" % (e,))

    def emit(self):
        """C text of the whole program plus the table of callable functions."""
        out = ['#include "solrt.h"']
        for n, (ty, _) in self.consts.items():
            out.append("static W c_%s;" % n)
        for n, (ty, _) in self.state.items():
            t = self.norm(ty)
            out.append("static W s_%s[%d];" % (n, t[2]) if t[0] == "array" and t[2] else "static W s_%s;" % n)
        live = [f for f in self.order if f.body is not None and (f is self.ctor or f in self.fctor.values() or f in self.fns.get(f.name, ()))]
        for f in live:
            out.append("static void %s;" % self.proto(f))
        done, table, skipped = [], [], {}
        for f in live:
            try:
                done.append("\n".join(Emitter(self, f).text()))
                ok = True
            except Unsupported as e:
                skipped[f.name] = str(e)
                why = ("%s: %s" % (f.name, e)).encode()
                done.append("static void %s { (void)ret; fail_(9, %s, %d); }" % (self.proto(f), cstr(why), len(why)))
                ok = False
            if f.name != "constructor":
                table.append((f, ok))
        out += done
        init = Emitter(self, None)
        for n, (ty, e) in self.const_order():
            c, t = init.ex(e)
            init.w("c_%s = %s;" % (n, init.conv(c, t, self.norm(ty))))
        for n, (ty, e) in self.state.items():
            t = self.norm(ty)
            if e is not None:
                c, ft = init.ex(e)
                if t[0] == "array":
                    init.w("for (int k = 0; k < %d; k++) s_%s[k] = y_mload(%s + 32 * k);" % (t[2], n, c))
                elif t[0] in ("bytes", "string"):
                    init.w("s_%s = sstore2_write_(%s);" % (n, init.conv(c, ft, t)))
                else:
                    init.w("s_%s = %s;" % (n, init.conv(c, ft, t)))
        out.append("int sol_init(const uint8_t *args, size_t nargs) {\n depth_ = 0; fresh_();\n if (setjmp(jmp_[0])) return revkind_;\n"
                   + "\n".join(init.out))
        if self.ctor is not None and self.ctor.body is not None:
            out.append(" if (args) { W ret[1]; %s(ret%s); }" % ("f_" + self.ctor.id, "".join(", rd_(args + %d)" % (32 * i) for i in range(self.width(self.ctor)))))
        out.append(" (void)args; (void)nargs; return 0; }")
        out.append("int sol_call(int fid, const uint8_t *args, uint8_t *rets) {\n W ret[16]; memset(ret, 0, sizeof ret);\n if (setjmp(jmp_[0])) return revkind_;\n switch (fid) {")
        for i, (f, ok) in enumerate(table):
            out.append("case %d: f_%s(ret%s); for (int k = 0; k < %d; k++) wr_(rets + 32 * k, ret[k]); return 0;"
                       % (i, f.id, "".join(", rd_(args + %d)" % (32 * k) for k in range(self.width(f))), len(f.rets)))
        out.append("}\n return -1; }")
        self.getters = [n for n, (ty, _) in self.state.items() if self.norm(ty)[0] not in ("array", "mapping", "struct", "bytes", "string")]
        out.append("int sol_state(int k, uint8_t *o) {\n switch (k) {" + "\n".join("case %d: wr_(o, s_%s); return 0;" % (k, n) for k, n in enumerate(self.getters))
                   + "}\n return -1; }")
        return "\n".join(out), [(f.name, [self.norm(t) for t, _ in f.params], [self.norm(t) for t, _ in f.rets], ok, f.mods) for f, ok in table], skipped

    def const_order(self):
        done, out = set(), []

        def deps(e):
            if isinstance(e, tuple):
                if e and e[0] == "id" and e[1] in self.consts:
                    yield e[1]
                for x in e:
                    yield from deps(x)
            elif isinstance(e, list):
                for x in e:
                    yield from deps(x)

        def visit(n):
            if n in done:
                return
            done.add(n)
            for d in deps(self.consts[n][1]):
                visit(d)
            out.append((n, self.consts[n]))
        for n in self.consts:
            visit(n)
        return out

    def width(self, f):
        return sum(2 if t[0] == "calldata" and self.dynamic(self.norm(t)[1]) else 1 for t, _ in f.params)

    def dynamic(self, t):
        return t[0] in ("bytes", "string") or t[0] == "array" and t[2] is None

    def proto(self, f):
        return "f_%s(W *ret%s)" % (f.id, "".join(", W p%d" % i for i in range(self.width(f))))


def fold(op, a, b):
    if op in ("/", "%") and b == 0:
        raise Unsupported("division by zero constant")
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b, "<<": lambda: a << b,
            ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()


def wlit(v):
    v &= (1 << 256) - 1
    if v < 1 << 63:
        return "(W)%dull" % v
    return "(%s)" % " | ".join("((W)0x%xull << %d)" % ((v >> s) & (2**64 - 1), s) for s in (192, 128, 64, 0) if (v >> s) & (2**64 - 1))


def isint(t):
    return t[0] in ("uint", "int")


def mobile(v):
    if v < 0:
        return ("int", next(b for b in range(8, 257, 8) if -(1 << (b - 1)) <= v))
    return ("uint", next(b for b in range(8, 257, 8) if v < 1 << b))


class Emitter:
    def __init__(self, prog, f):
        self.p, self.f, self.out, self.n, self.scopes, self.unchecked, self.loops = prog, f, [], 0, [{}], False, []
        self.yfuncs, self.pre = [{}], []
        self.inner, self.outlab = None, []

    def w(self, s):
        self.out.append(s)

    def new(self, base="t"):
        self.p.n += 1
        return "%s_%d" % (re.sub(r"\W", "_", base), self.p.n)

    def tmp(self, c, t=None):
        v = self.new()
        self.w("W %s = %s;" % (v, c))
        return v

    def text(self):
        f, P = self.f, self.p
        mods = []
        for m in f.mods:
            m, a = m if isinstance(m, tuple) else (m, [])
            if m in P.modifiers:
                mods.append((P.modifiers[m], a))
            elif m not in IGNORED_MODS and f.name != "constructor" and not m[0].isupper():
                raise Unsupported("modifier " + m)
        k = 0
        for ty, nm in f.params:
            t = P.norm(ty)
            if t[0] == "calldata" and not P.dynamic(t[1]):
                if t[1][0] in ("array", "struct"):
                    pass
                else:
                    t = t[1]
            wide = t[0] == "calldata" and P.dynamic(t[1])
            if nm:
                v = self.new(nm)
                self.w("W %s = p%d;" % (v, k))
                if wide:
                    self.w("W %s_len = p%d;" % (v, k + 1))
                self.scopes[-1][nm] = (v, t)
            k += 2 if wide else 1
        self.rets = []
        for ty, nm in f.rets:
            t = P.norm(ty)
            if nm:
                v = self.new(nm)
                self.w("W %s = %s;" % (v, self.default(t)))
                self.scopes[-1][nm] = (v, t)
            else:
                v = None
            self.rets.append((v, t))
        if mods:
            for i, (v, t) in enumerate(self.rets):
                self.w("ret[%d] = %s;" % (i, v if v else self.default(t)))
            self.fscope = self.scopes[0]
            self.around(mods)
            self.w("return;")
        else:
            self.stmt(f.body)
            self.fallret()
        return self.pre + ["static void %s {" % P.proto(f)] + self.out + ["}"]

    def around(self, mods):
        """The function's body inside its modifiers."""
        lab = self.new("out")
        self.outlab.append(lab)
        if not mods:
            keep, self.inner = self.inner, None
            scopes, self.scopes = self.scopes, [self.fscope]
            self.stmt(self.f.body)
            for i, (v, t) in enumerate(self.rets):
                if v:
                    self.w("ret[%d] = %s;" % (i, v))
            self.scopes, self.inner = scopes, keep
        else:
            (_, name, params, body), args = mods[0]
            scope, keeps = {}, self.scopes
            self.scopes = [self.fscope]
            for (ty, nm), a in zip(params, args):
                t = self.p.norm(ty)
                v = self.new(nm)
                self.w("W %s = %s;" % (v, self.to(a, t)))
                scope[nm] = (v, t)
            keep, self.inner = self.inner, mods[1:]
            self.scopes = [{}, scope]
            self.stmt(body)
            self.scopes, self.inner = keeps, keep
        self.outlab.pop()
        self.w("%s: ;" % lab)

    def fallret(self):
        if self.outlab:
            if self.inner is None:
                for i, (v, t) in enumerate(self.rets):
                    if v:
                        self.w("ret[%d] = %s;" % (i, v))
            self.w("goto %s;" % self.outlab[-1])
            return
        for i, (v, t) in enumerate(self.rets):
            self.w("ret[%d] = %s;" % (i, v if v else self.default(t)))
        self.w("return;")

    # ---- values
    def default(self, t):
        if t[0] == "array" and t[2] is not None:
            v = self.tmp("alloc_(%s)" % wlit(32 * t[2]))
            if t[1][0] in ("array", "struct", "bytes", "string"):
                for i in range(t[2]):
                    self.w("y_mstore(%s + %d, %s);" % (v, 32 * i, self.default(t[1])))
            return v
        if t[0] == "struct":
            fs = self.p.structs[t[1]]
            v = self.tmp("alloc_(%s)" % wlit(32 * len(fs)))
            for i, (_, ft) in enumerate(fs):
                ft = self.p.norm(ft)
                if ft[0] in ("array", "struct", "bytes", "string"):
                    self.w("y_mstore(%s + %d, %s);" % (v, 32 * i, self.default(ft)))
            return v
        if self.p.dynamic(t):
            return "(W)0x60"
        if t[0] == "calldata":
            return "(W)0"
        return "(W)0"

    def clean(self, c, t):
        if t[0] == "uint" and t[1] < 256:
            return "(%s & mask_(%d))" % (c, t[1])
        if t[0] == "int" and t[1] < 256:
            return "sx_(%s, %d)" % (c, t[1])
        if t[0] == "address":
            return "(%s & mask_(160))" % c
        if t[0] == "bool":
            return "((W)(%s != 0))" % c
        if t[0] == "fbytes" and t[1] < 32:
            return "(%s & ~mask_(%d))" % (c, 256 - 8 * t[1])
        return c

    def conv(self, c, a, b, explicit=False):
        """Value c of type a as type b."""
        if a == b:
            return c
        if a[0] == "lit":
            v = a[1]
            if isint(b):
                if b[0] == "uint" and not 0 <= v < 1 << b[1]:
                    if not (explicit and v >= 0):
                        raise Unsupported("literal out of range")
                    v &= (1 << b[1]) - 1
                return wlit(v)
            if b[0] == "address":
                return wlit(v)
            if b[0] == "fbytes":
                if v == 0 or a[2] == 2 * b[1]:
                    return wlit(v << (256 - 8 * b[1]))
                raise Unsupported("literal to bytes%d" % b[1])
        if a[0] == "strlit":
            if b[0] in ("bytes", "string"):
                return self.tmp("bytes_(%s, %d)" % (cstr(a[1]), len(a[1])))
            if b[0] == "fbytes" and len(a[1]) <= b[1]:
                return wlit(int.from_bytes(a[1].ljust(32, b"\0"), "big"))
        if isint(a) and isint(b):
            if not explicit and (a[0] != b[0] or a[1] > b[1]) and not (a[0] == "uint" and b[0] == "int" and a[1] < b[1]):
                raise Unsupported("implicit %s to %s" % (a, b))
            return self.clean(c, b) if b[1] < 256 and (a[1] > b[1] or a[0] != b[0]) else c
        if a[0] == "fbytes" and b[0] == "fbytes":
            return self.clean(c, b) if b[1] < a[1] else c
        if explicit and a[0] == "fbytes" and b[0] == "uint":
            return self.clean("(%s >> %d)" % (c, 256 - 8 * a[1]), b) if a[1] * 8 != b[1] else "(%s >> %d)" % (c, 256 - 8 * a[1])
        if explicit and isint(a) and b[0] == "fbytes":
            return self.clean("(%s << %d)" % (c, 256 - 8 * b[1]), b)
        if explicit and a[0] == "address" and isint(b):
            return self.clean(c, b)
        if explicit and isint(a) and b[0] == "address":
            return self.clean(c, b)
        if explicit and a[0] == "address" and b[0] == "fbytes":
            return "(%s << 96)" % c
        if explicit and a[0] == "fbytes" and b[0] == "address":
            return "(%s >> 96)" % c
        if a[0] in ("bytes", "string") and b[0] in ("bytes", "string") and explicit:
            return c
        if explicit and a[0] == "bytes" and b[0] == "fbytes":
            v = self.tmp(c)
            return self.tmp(self.clean("(y_mload(%s) >= %d ? y_mload(%s + 32) : y_mload(%s + 32) & ~mask_((unsigned)(256 - 8 * y_mload(%s))))" % (v, b[1], v, v, v), b))
        if a[0] == "calldata" and a[1] == b:
            if b[0] in ("bytes", "string"):
                return self.tmp("cdcopy_(%s, %s_len)" % (c, c))
            if b[0] == "array" and b[2] is None:
                v = self.tmp("newarr_(%s_len, 32)" % c)
                self.w("y_calldatacopy(%s + 32, %s, 32 * %s_len);" % (v, c, c))
                return v
            if b[0] == "array":
                v = self.tmp("alloc_((W)%d)" % (32 * b[2]))
                self.w("y_calldatacopy(%s, %s, %d);" % (v, c, 32 * b[2]))
                return v
        if a[0] == "storage" and len(a) == 3 and b == ("array", a[1][1], None):
            v = self.tmp("newarr_((W)%d, 32)" % a[1][2])
            self.w("for (int k = 0; k < %d; k++) y_mstore(%s + 32 + 32 * k, %s[k]);" % (a[1][2], v, c))
            return v
        if a[0] == "storage" and a[1][0] in ("bytes", "string") and (a[1] == b or explicit and b[0] in ("bytes", "string")):
            return self.tmp("(%s ? sstore2_read_(%s) : (W)0x60)" % (c, c))
        if a[0] == "storage" and a[1][0] != "array":
            return self.conv(self.tmp("(%s ? sstore2_read_(%s) : (W)0x60)" % (c, c)), a[1], b, explicit)
        if a[0] == "storage" and a[1] == b:
            v = self.tmp("alloc_((W)%d)" % (32 * b[2]))
            self.w("for (int k = 0; k < %d; k++) y_mstore(%s + 32 * k, %s[k]);" % (b[2], v, c))
            return v
        raise Unsupported("conversion %s to %s" % (a, b))

    def fits(self, a, b):
        save = self.out
        self.out = []
        try:
            self.conv("x", a, b)
            return True
        except Unsupported:
            return False
        finally:
            self.out = save

    def common(self, a, b):
        if a[0] == "lit" and b[0] == "lit":
            return mobile(a[1]) if abs(a[1]) >= abs(b[1]) else mobile(b[1])
        for x, y in ((a, b), (b, a)):
            if x[0] == "lit":
                if isint(y):
                    m = mobile(x[1])
                    if self.fits(x, y):
                        return y
                    if m[0] == "uint" and y[0] == "uint":
                        return m if m[1] > y[1] else y
                    return y
                return y
            if x[0] == "strlit":
                return y
        if isint(a) and isint(b) and a[0] == b[0]:
            return a if a[1] >= b[1] else b
        if isint(a) and isint(b):
            return a if self.fits(b, a) else b
        if a[0] == "fbytes" and b[0] == "fbytes":
            return a if a[1] >= b[1] else b
        if a == b:
            return a
        raise Unsupported("no common type of %s and %s" % (a, b))

    def look(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    # ---- lvalues: ("var", c) | ("mem", addr) | ("byte", addr) | ("st", c)
    def lv(self, e):
        if e[0] == "id":
            x = self.look(e[1])
            if x:
                return ("var", x[0]), x[1]
            if e[1] in self.p.state:
                t = self.p.norm(self.p.state[e[1]][0])
                return ("var", "s_" + e[1]), t if t[0] not in ("array", "bytes", "string") else ("storage", t) + (("dyn",) if e[1] in self.p.dyn else ())
        if e[0] == "index":
            c, t = self.ex(e[1])
            i, it = self.ex(e[2])
            i = self.tmp(self.conv(i, it, UINT))
            if t[0] == "storage":
                self.w("if (%s >= %d) PANIC(0x32);" % (i, t[1][2]))
                return ("var", "%s[(size_t)%s]" % (c, i)), t[1][1]
            if t[0] == "array":
                return ("mem", self.tmp("dyn_(%s, %s)" % (c, i) if t[2] is None else "at_(%s, %s, %d)" % (c, i, t[2]))), t[1]
            if t[0] == "bytes":
                return ("byte", self.tmp("byteat_(%s, %s)" % (c, i))), ("fbytes", 1)
        if e[0] == "member":
            c, t = self.ex(e[1])
            if t[0] == "struct":
                for k, (n, ft) in enumerate(self.p.structs[t[1]]):
                    if n == e[2]:
                        return ("mem", self.tmp("%s + %d" % (c, 32 * k))), self.p.norm(ft)
        raise Unsupported("assignment to %s" % (e[0],))

    def get(self, l, t):
        if l[0] == "var":
            if t[0] in ("storage", "calldata"):
                return l[1]
            return self.clean(l[1], t)
        if l[0] == "mem":
            return "y_mload(%s)" % l[1]
        return "((W)MEM[span_(%s, 1)] << 248)" % l[1]

    def put(self, l, t, c):
        if l[0] == "var":
            self.w("%s = %s;" % (l[1], c))
        elif l[0] == "mem":
            self.w("y_mstore(%s, %s);" % (l[1], c))
        else:
            self.w("y_mstore8(%s, %s >> 248);" % (l[1], c))

    # ---- expressions
    def ex(self, e):
        """(C expression without side effects, type); side effects are emitted."""
        r = self.exs(e)
        if len(r) != 1:
            raise Unsupported("expected one value")
        return r[0]

    def to(self, e, t):
        c, ft = self.ex(e)
        return self.conv(c, ft, t)

    def cond(self, e):
        c, t = self.ex(e)
        if t[0] != "bool":
            raise Unsupported("condition of type %s" % (t,))
        return "(%s != 0)" % c

    def arith(self, op, a, b, t):
        if op in ("&", "|", "^"):
            return "(%s %s %s)" % (a, op, b)
        s, n = t[0] == "int", t[1]
        if op in ("+", "-", "*") and self.unchecked:
            return self.clean("y_%s(%s, %s)" % ({"+": "add", "-": "sub", "*": "mul"}[op], a, b), t)
        k = {"+": "add", "-": "sub", "*": "mul"}.get(op)
        if k:
            return self.tmp("%s%s_(%s, %s, %d)" % ("s" if s else "u", k, a, b, n))
        if op in ("/", "%"):
            if s:
                self.w("if (%s == 0) PANIC(0x12);" % b)
                return self.tmp("y_%s(%s, %s)" % ("sdiv" if op == "/" else "smod", a, b))
            return self.tmp("u%s_(%s, %s)" % ("div" if op == "/" else "mod", a, b))
        if op == "**":
            return self.tmp(self.clean("y_exp(%s, %s)" % (a, b), t) if self.unchecked else "upow_(%s, %s, %d)" % (a, b, n))
        raise Unsupported("operator " + op)

    def binop(self, op, a, ta, b, tb):
        if ta[0] == "lit" and tb[0] == "lit":
            v = fold(op, ta[1], tb[1])
            return wlit(v), ("lit", v, None)
        if op in ("<<", ">>", ">>>"):
            if ta[0] == "lit":
                a, ta = wlit(ta[1]), UINT
            b = self.conv(b, tb, mobile(tb[1]) if tb[0] == "lit" else tb)
            if op == "<<":
                return self.clean("y_shl(%s, %s)" % (b, a), ta), ta
            return ("y_sar(%s, %s)" if ta[0] == "int" else "y_shr(%s, %s)") % (b, a) if ta[0] != "fbytes" else self.clean("y_shr(%s, %s)" % (b, a), ta), ta
        if op == "**":
            if ta[0] == "lit":
                a, ta = wlit(ta[1]), UINT
            return self.arith(op, a, self.conv(b, tb, mobile(tb[1]) if tb[0] == "lit" else tb), ta), ta
        t = self.common(ta, tb)
        return self.arith(op, self.tmp(self.conv(a, ta, t)), self.tmp(self.conv(b, tb, t)), t), t

    def exs(self, e):
        k = e[0]
        P = self.p
        if k == "num":
            return [(wlit(e[1]), ("lit", e[1], e[2]))]
        if k == "str":
            return [("0", ("strlit", e[1]))]
        if k == "id":
            n = e[1]
            if n in ("true", "false"):
                return [("(W)%d" % (n == "true"), ("bool",))]
            x = self.look(n)
            if x:
                return [(self.get(("var", x[0]), x[1]), x[1])]
            if n in P.state or False:
                l, t = self.lv(e)
                return [(self.get(l, t), t)]
            if n in P.consts:
                return [("c_" + n, P.norm(P.consts[n][0]))]
            if n == "this":
                return [("(W)0x7415", ("address",))]
            if n == "now":
                return [("(W)1700000000", UINT)]
            raise Unsupported("unknown name " + n)
        if k == "tuple":
            out = []
            for x in e[1]:
                c, t = self.ex(x)
                out.append((self.tmp(c) if t[0] not in ("lit", "strlit", "calldata") else c, t))
            return out
        if k == "arrlit":
            vs = [self.ex(x) for x in e[1]]
            t = vs[0][1]
            t = mobile(t[1]) if t[0] == "lit" else t
            for c, vt in vs[1:]:
                t = self.common(t, vt)
            cs = [self.conv(c, vt, t) for c, vt in vs]
            v = self.tmp("alloc_((W)%d)" % (32 * len(cs)))
            for i, c in enumerate(cs):
                self.w("y_mstore(%s + %d, %s);" % (v, 32 * i, c))
            return [(v, ("array", t, len(cs)))]
        if k == "index":
            if e[1][0] in ("id", "member", "index", "call"):
                c, t = self.ex(e[1])
                if t[0] == "calldata":
                    i = self.tmp(self.to(e[2], UINT))
                    if P.dynamic(t[1]):
                        self.w("if (%s >= %s_len) PANIC(0x32);" % (i, c))
                        if t[1][0] == "bytes":
                            return [(self.tmp("y_calldataload(%s + %s) & ~mask_(248)" % (c, i)), ("fbytes", 1))]
                        return [(self.tmp("y_calldataload(%s + 32 * %s)" % (c, i)), t[1][1])]
                    self.w("if (%s >= %d) PANIC(0x32);" % (i, t[1][2]))
                    return [(self.tmp("y_calldataload(%s + 32 * %s)" % (c, i)), t[1][1])]
                if t[0] == "fbytes":
                    i = self.tmp(self.to(e[2], UINT))
                    self.w("if (%s >= %d) PANIC(0x32);" % (i, t[1]))
                    return [(self.tmp("y_byte(%s, %s) << 248" % (i, c)), ("fbytes", 1))]
            l, t = self.lv(e)
            return [(self.tmp(self.get(l, t)), t)]
        if k == "slice":
            c, t = self.ex(e[1])
            if t != ("calldata", ("bytes",)):
                raise Unsupported("slice")
            a = self.tmp(self.to(e[2], UINT) if e[2] else "(W)0")
            b = self.tmp(self.to(e[3], UINT) if e[3] else "%s_len" % c)
            self.w("if (%s > %s || %s > %s_len) fail_(1, \"slice\", 5);" % (a, b, b, c))
            v = self.tmp("%s + %s" % (c, a))
            self.w("W %s_len = %s - %s;" % (v, b, a))
            return [(v, t)]
        if k == "member":
            return [self.member(e)]
        if k == "un":
            op = e[1]
            if op in ("++", "--"):
                l, t = self.lv(e[2])
                v = self.tmp(self.arith(op[0], self.get(l, t), "(W)1", t))
                self.put(l, t, v)
                return [(v, t)]
            c, t = self.ex(e[2])
            if op == "!":
                return [("(W)(%s == 0)" % c, ("bool",))]
            if t[0] == "lit" and op in "+-":
                v = -t[1] if op == "-" else t[1]
                return [(wlit(v), ("lit", v, None))]
            if op == "~":
                if t[0] == "lit":
                    c, t = wlit(t[1]), mobile(t[1])
                return [(self.clean("(~%s)" % c, t), t)]
            if op == "-" and t[0] == "int":
                return [(self.arith("-", "(W)0", c, t), t)]
            raise Unsupported("unary " + op)
        if k == "post":
            l, t = self.lv(e[2])
            v = self.tmp(self.get(l, t))
            self.put(l, t, self.arith(e[1][0], v, "(W)1", t))
            return [(v, t)]
        if k == "delete":
            l, t = self.lv(e[1])
            self.put(l, t, self.default(t))
            return []
        if k == "bin":
            op = e[1]
            if op in ("&&", "||"):
                v = self.tmp("(W)%s" % self.cond(e[2]))
                self.w("if (%s%s) {" % ("" if op == "&&" else "!", v))
                self.w("%s = (W)%s;" % (v, self.cond(e[3])))
                self.w("}")
                return [(v, ("bool",))]
            a, ta = self.ex(e[2])
            if ta[0] not in ("lit", "strlit", "calldata", "storage"):
                a = self.tmp(a)
            b, tb = self.ex(e[3])
            if op in ("==", "!=", "<", ">", "<=", ">="):
                t = self.common(ta, tb)
                a, b = self.conv(a, ta, t), self.conv(b, tb, t)
                if t[0] == "int":
                    a, b = "(SW)" + a, "(SW)" + b
                return [("(W)(%s %s %s)" % (a, op, b), ("bool",))]
            c, t = self.binop(op, a, ta, b, tb)
            return [(c, t)]
        if k == "cond":
            c = self.cond(e[1])
            save = self.out
            outs, vals = [], []
            for x in (e[2], e[3]):
                self.out = []
                vals.append(self.ex(x))
                outs.append(self.out)
            t = self.common(vals[0][1], vals[1][1])
            for i in (0, 1):
                self.out = outs[i]
                vals[i] = self.conv(vals[i][0], vals[i][1], t)
            self.out = save
            v = self.new()
            self.w("W %s;" % v)
            self.w("if %s {" % c)
            self.out += outs[0] + ["%s = %s;" % (v, vals[0]), "} else {"] + outs[1] + ["%s = %s;" % (v, vals[1]), "}"]
            return [(v, t)]
        if k == "assign":
            return self.assign(e)
        if k == "call":
            return self.call(e)
        if k in ("type", "arrtype", "new"):
            raise Unsupported("type used as value")
        raise Unsupported("expression " + k)

    def assign(self, e):
        _, op, le, re_ = e
        if le[0] == "tuple":
            vs = self.exs(re_)
            if len(vs) != len(le[1]):
                raise Unsupported("tuple size")
            vs = [(self.tmp(c) if t[0] not in ("lit", "strlit", "calldata") else c, t) for c, t in vs]
            for x, (c, t) in zip(le[1], vs):
                if x is not None:
                    l, lt = self.lv(x)
                    self.put(l, lt, self.conv(c, t, lt))
            return []
        c, t = self.ex(re_)
        if t[0] not in ("lit", "strlit", "calldata", "storage"):
            c = self.tmp(c)
        l, lt = self.lv(le)
        if op:
            cur = self.tmp(self.get(l, lt))
            c, t = self.binop(op, cur, lt, c, t)
            v = self.tmp(self.conv(c, t, lt, explicit=False) if t != lt else c)
        elif lt[0] == "calldata":
            self.w("%s = %s; %s_len = %s_len;" % (l[1], c, l[1], c))
            return []
        elif lt[0] == "storage" and lt[1][0] != "array":
            self.w("%s = sstore2_write_(%s);" % (l[1], self.conv(c, t, lt[1])))
            return []
        elif lt[0] == "storage":
            if t[0] != "array" or t[2] != lt[1][2]:
                raise Unsupported("storage assignment")
            self.w("for (int k = 0; k < %d; k++) %s[k] = y_mload(%s + 32 * k);" % (t[2], l[1], c))
            return []
        else:
            v = self.tmp(self.conv(c, t, lt))
        self.put(l, lt, v)
        return [(v, lt)]

    def member(self, e):
        P, m = self.p, e[2]
        b = e[1]
        if b[0] == "call" and b[1] == ("id", "type"):
            t = b[2][0][1]
            if m in ("max", "min") and isint(t):
                v = {"max": (1 << t[1]) - 1 if t[0] == "uint" else (1 << (t[1] - 1)) - 1, "min": 0 if t[0] == "uint" else -(1 << (t[1] - 1))}[m]
                return wlit(v), t
        if b[0] == "id" and not self.look(b[1]) and b[1] in ("msg", "block", "tx"):
            if m in ("sender", "origin", "coinbase"):
                return "(W)0xca11e4", ("address",)
            if m in ("timestamp", "number", "value", "chainid", "gaslimit", "basefee"):
                return "(W)1700000000" if m == "timestamp" else "(W)1", UINT
        if m == "selector":
            if b[0] == "member" and b[1][0] == "id":
                c = P.contracts.get(b[1][1])
                sig = None
                if c:
                    for x in c[4]:
                        if x[0] == "function" and x[1] == b[2]:
                            sig = "%s(%s)" % (b[2], ",".join(abiname(P.norm(t)) for t, _ in x[2]))
                elif b[1][1] == "ISigVerifier" and b[2] == "verify":
                    sig = "verify(bytes,bytes32,bytes)"
                if b[1][1] == "this":
                    f = P.fns[b[2]][0]
                    sig = "%s(%s)" % (b[2], ",".join(abiname(P.norm(t)) for t, _ in f.params))
                if sig:
                    return wlit(int.from_bytes(keccak4(sig), "big") << 224), ("fbytes", 4)
            raise Unsupported("selector")
        if b[0] == "id" and not self.look(b[1]) and b[1] in P.enums and m in P.enums[b[1]]:
            return wlit(P.enums[b[1]].index(m)), ("uint", 8)
        if b[0] == "id" and not self.look(b[1]) and b[1] in P.contracts and m in P.consts:
            return self.ex(("id", m))
        c, t = self.ex(b)
        if m == "length":
            if t[0] == "calldata":
                return ("%s_len" % c if P.dynamic(t[1]) else wlit(t[1][2])), UINT
            if t[0] == "array" and t[2] is not None:
                return wlit(t[2]), UINT
            if t[0] in ("array", "bytes"):
                return "y_mload(%s)" % c, UINT
            if t[0] == "fbytes":
                return wlit(t[1]), ("uint", 8)
            if t[0] == "storage" and t[1][0] != "array":
                return "y_extcodesize(%s)" % c, UINT
            if t[0] == "storage":
                return wlit(t[1][2]), UINT
        if t[0] == "struct":
            l, lt = self.lv(e)
            return self.tmp(self.get(l, lt)), lt
        if t[0] == "address" and m == "code":
            return c, ("codeof",)
        raise Unsupported("member %s of %s" % (m, t))

    def call(self, e):
        P = self.p
        _, fn, args = e
        if fn[0] == "type":
            c, t = self.ex(args[0])
            return [(self.conv(c, t, fn[1], True), fn[1])]
        if fn[0] == "new" and fn[1][0] == "user":
            if fn[1][1] not in P.foreign:
                raise Unsupported("new " + fn[1][1])
            k = P.fctor[fn[1][1]]
            if k is not None and k.body is not None:
                self.invoke([k], args)
            return [("(W)0xc047", ("address",))]
        if fn[0] == "new":
            t = P.norm(fn[1])
            n = self.to(args[0], UINT)
            return [(self.tmp("newarr_(%s, %d)" % (n, 1 if t[0] in ("bytes", "string") else 32)), t)]
        if fn[0] == "named":
            base, names = fn[1], fn[2]
            nm = base[1] if base[0] == "id" else base[2] if base[0] == "member" else None
            order = [x for x, _ in P.structs[nm]] if nm in P.structs else None
            if order is None:
                f = next((f for f in P.fns.get(nm, []) if sorted(str(x) for _, x in f.params) == sorted(names)), None)
                if f is None:
                    raise Unsupported("named arguments")
                order = [x for _, x in f.params]
            return self.call(("call", base, [args[names.index(x)] for x in order]))
        if fn[0] == "member" and fn[1][0] == "id" and fn[1][1] in P.contracts and fn[2] in P.structs:
            fn = ("id", fn[2])
        if fn[0] == "id":
            n = fn[1]
            if n in P.fns and not self.look(n):
                return self.invoke(P.fns[n], args)
            if n in ("addmod", "mulmod"):
                cs = [self.tmp(self.to(a, UINT)) for a in args]
                self.w("if (%s == 0) PANIC(0x12);" % cs[2])
                return [(self.tmp("y_%s(%s)" % (n, ", ".join(cs))), UINT)]
            if n == "keccak256":
                c, t = self.ex(args[0])
                c = self.tmp(self.conv(c, t, ("bytes",)))
                return [(self.tmp("y_keccak256(%s + 32, y_mload(%s))" % (c, c)), ("fbytes", 32))]
            if n in ("assertEq", "assertTrue", "assertFalse") and n not in P.fns:
                if n == "assertEq":
                    c = self.tmp("(W)%s" % self.equal(args[0], args[1]))
                else:
                    c = self.tmp("(W)%s%s" % ("" if n == "assertTrue" else "!", self.cond(args[0])))
                self.w("if (!%s) fail_(1, \"assertion\", 9);" % c)
                return []
            if n == "gasleft" and not args:
                return [("(W)30000000", UINT)]
            if n in ("require", "assert"):
                c = self.tmp("(W)%s" % self.cond(args[0]))
                self.w("if (!%s) %s;" % (c, "PANIC(1)" if n == "assert" else self.rev(args[1:])))
                return []
            if n == "revert":
                self.w(self.rev(args) + ";")
                return []
            if n in P.structs:
                fs = P.structs[n]
                if len(fs) != len(args):
                    raise Unsupported("struct constructor")
                cs = [self.tmp(self.to(a, P.norm(ft))) for a, (_, ft) in zip(args, fs)]
                v = self.tmp("alloc_((W)%d)" % (32 * len(fs)))
                for i, c in enumerate(cs):
                    self.w("y_mstore(%s + %d, %s);" % (v, 32 * i, c))
                return [(v, ("struct", n))]
            if n in P.contracts or n == "payable" or n[0].isupper():
                c, t = self.ex(args[0])
                return [(self.conv(c, t, ("address",), True), ("address",))]
        if fn[0] == "member":
            b, m = fn[1], fn[2]
            if b == ("id", "abi"):
                return [self.abi(m, args)]
            if b == ("id", "console") or b == ("id", "console2"):
                return []
            if b == ("id", "vm") and m == "etch":
                a = self.tmp(self.to(args[0], ("address",)))
                self.w("etch_(%s, %s);" % (a, self.to(args[1], ("bytes",))))
                return []
            if b[0] == "id" and (b[1] == "this" or b[1] in P.foreign.values()) and m not in P.fns and m in P.state and not args:
                l, t = self.lv(("id", m))
                return [(self.tmp(self.get(l, t)), t)] if t[0] != "storage" else self.exs(("id", m))
            if b == ("id", "this") or b[0] == "id" and b[1] in P.foreign.values():
                return self.external(P.fns.get(m, []), args)
            if b == ("id", "SSTORE2"):
                if m == "write":
                    c = self.tmp(self.to(args[0], ("bytes",)))
                    return [(self.tmp("sstore2_write_(%s)" % c), ("address",))]
                if m == "read" and len(args) == 1:
                    return [(self.tmp("sstore2_read_(%s)" % self.to(args[0], ("address",))), ("bytes",))]
            if b in (("type", ("bytes",)), ("type", ("string",))) and m == "concat":
                return [self.abi("encodePacked", args)]
            if b[0] == "id" and not self.look(b[1]) and (b[1] in P.contracts or b[1] == "super") and m in P.fns:
                return self.invoke(P.fns[m], args)
            if m in P.fns and any(f.lib and len(f.params) == len(args) + 1 for f in P.fns[m]):
                return self.invoke([f for f in P.fns[m] if f.lib], [b] + args)
        raise Unsupported("call of %r" % (fn,))

    def equal(self, x, y):
        """Are two values equal, bytes and arrays compared by content?"""
        (a, ta), (b, tb) = [(self.tmp(c) if t[0] not in ("lit", "strlit", "calldata", "storage") else c, t) for c, t in (self.ex(x), self.ex(y))]
        t = self.common(ta, tb)
        a, b = self.tmp(self.conv(a, ta, t)), self.tmp(self.conv(b, tb, t))
        if self.p.dynamic(t):
            n = lambda c: "y_mload(%s)%s" % (c, "" if t[0] != "array" else " * 32")
            return "(y_mload(%s) == y_mload(%s) && y_keccak256(%s + 32, %s) == y_keccak256(%s + 32, %s))" % (a, b, a, n(a), b, n(b))
        if t[0] == "array":
            return "(y_keccak256(%s, %d) == y_keccak256(%s, %d))" % (a, 32 * t[2], b, 32 * t[2])
        return "(%s == %s)" % (a, b)

    def rev(self, args):
        if not args:
            return "fail_(1, \"\", 0)"
        if args[0][0] == "str":
            return "fail_(1, %s, %d)" % (cstr(args[0][1]), len(args[0][1]))
        return "fail_(1, \"?\", 1)"

    def pick(self, cands, vs):
        ok = [f for f in cands if len(f.params) == len(vs) and all(self.fits(t, self.argtype(pt)) for (c, t), (pt, _) in zip(vs, f.params))]
        if not ok:
            raise Unsupported("no matching function %s" % (cands[0].name if cands else "?"))
        return ok[0]

    def argtype(self, t):
        t = self.p.norm(t)
        return t

    def invoke(self, cands, args):
        vs = []
        for a in args:
            c, t = self.ex(a)
            vs.append((self.tmp(c) if t[0] not in ("lit", "strlit", "calldata", "storage") else c, t))
        f = self.pick(cands, vs)
        cs = []
        for (c, t), (pt, _) in zip(vs, f.params):
            pt = self.argtype(pt)
            v = self.conv(c, t, pt)
            cs.append(v)
            if pt[0] == "calldata" and self.p.dynamic(pt[1]):
                cs.append(v + "_len")
        r = self.new("r")
        self.w("W %s[%d];" % (r, max(1, len(f.rets))))
        self.w("tick_(); f_%s(%s);" % (f.id, ", ".join([r] + cs)))
        return [("%s[%d]" % (r, i), self.p.norm(t)) for i, (t, _) in enumerate(f.rets)]

    def external(self, cands, args):
        vs = [self.ex(a) for a in args]
        vs = [(self.tmp(c) if t[0] not in ("lit", "strlit", "calldata", "storage") else c, t) for c, t in vs]
        strip = lambda t: t[1] if t[0] == "calldata" else t
        ok = [f for f in cands if len(f.params) == len(vs) and all(self.fits(strip(t), strip(self.argtype(pt))) for (c, t), (pt, _) in zip(vs, f.params))]
        if not ok:
            raise Unsupported("no matching external function")
        f = ok[0]
        if any(self.argtype(pt)[0] == "calldata" for pt, _ in f.params):
            raise Unsupported("external call with calldata parameters")
        r = self.new("r")
        self.w("W %s[%d];" % (r, max(1, len(f.rets))))
        cs = [self.tmp(self.conv(c, t, self.argtype(pt))) for (c, t), (pt, _) in zip(vs, f.params)]
        self.w("if (depth_ + 1 >= DEPTH) fail_(3, \"depth\", 5);")
        self.w("depth_++; fresh_(); if (setjmp(jmp_[depth_])) { depth_--; fail_(revkind_, revdata_, revlen_); }")
        self.w("{")
        ps = []
        for c, (pt, _) in zip(cs, f.params):
            pt = self.argtype(pt)
            if self.p.dynamic(pt):
                ps.append(self.tmp("across_(depth_ - 1, %s, %d, 0)" % (c, 1 if pt[0] in ("bytes", "string") else 2)))
            elif pt[0] == "array":
                ps.append(self.tmp("across_(depth_ - 1, %s, 0, %d)" % (c, pt[2])))
            elif pt[0] == "struct":
                raise Unsupported("external struct")
            else:
                ps.append(c)
        self.w("f_%s(%s); depth_--;" % (f.id, ", ".join([r] + ps)))
        self.w("}")
        out = []
        for i, (t, _) in enumerate(f.rets):
            t = self.p.norm(t)
            if self.p.dynamic(t):
                self.w("%s[%d] = across_(depth_ + 1, %s[%d], %d, 0);" % (r, i, r, i, 1 if t[0] in ("bytes", "string") else 2))
            elif t[0] in ("array", "struct"):
                raise Unsupported("external return")
            out.append(("%s[%d]" % (r, i), t))
        return out

    def abi(self, m, args):
        P = self.p
        if m in ("encodePacked", "encode"):
            vs = []
            for a in args:
                c, t = self.ex(a)
                if t[0] == "lit":
                    c, t = wlit(t[1]), mobile(t[1]) if m == "encodePacked" else UINT
                elif t[0] == "strlit":
                    c, t = self.conv(c, t, ("bytes",)), ("bytes",)
                elif t[0] == "calldata":
                    c, t = self.conv(c, t, t[1]), t[1]
                elif t[0] == "storage":
                    c, t = self.conv(c, t, t[1]), t[1]
                vs.append((self.tmp(c), t))
            b = self.tmp("pk_begin_()")
            n = self.tmp("(W)0")
            if m == "encode":
                head = self.tmp("(W)%d" % sum(32 * t[2] if t[0] == "array" and t[2] else 32 for _, t in vs))
                # heads first, then tails, as the standard encoding lays them out
                for c, t in vs:
                    if P.dynamic(t):
                        self.w("%s = pk_word_(%s, %s, %s, 32);" % (n, b, n, head))
                        size = "((y_mload(%s) + 31) / 32 * 32)" % c if t[0] != "array" else "(32 * y_mload(%s))" % c
                        self.w("%s += 32 + %s;" % (head, size))
                    elif t[0] == "array":
                        self.w("%s = pk_copy_(%s, %s, %s, %d);" % (n, b, n, c, 32 * t[2]))
                    elif t[0] == "struct":
                        raise Unsupported("abi.encode of struct")
                    else:
                        self.w("%s = pk_word_(%s, %s, %s, 32);" % (n, b, n, c))
                for c, t in vs:
                    if P.dynamic(t):
                        self.w("%s = pk_word_(%s, %s, y_mload(%s), 32);" % (n, b, n, c))
                        self.w("%s = pk_copy_(%s, %s, %s + 32, %s);" % (n, b, n, c, "32 * y_mload(%s)" % c if t[0] == "array" else "y_mload(%s)" % c))
                        if t[0] != "array":
                            self.w("for (W z = y_mload(%s); z %% 32; z++) %s = pk_word_(%s, %s, 0, 1);" % (c, n, b, n))
            else:
                for c, t in vs:
                    if t[0] in ("bytes", "string"):
                        self.w("%s = pk_copy_(%s, %s, %s + 32, y_mload(%s));" % (n, b, n, c, c))
                    elif t[0] == "array":
                        if t[1][0] in ("array", "bytes", "string", "struct"):
                            raise Unsupported("packed nested array")
                        self.w("%s = pk_copy_(%s, %s, %s, %s);" % (n, b, n, "%s + 32" % c if t[2] is None else c, "32 * y_mload(%s)" % c if t[2] is None else "(W)%d" % (32 * t[2])))
                    elif t[0] == "fbytes":
                        self.w("%s = pk_word_(%s, %s, %s >> %d, %d);" % (n, b, n, c, 256 - 8 * t[1], t[1]))
                    else:
                        self.w("%s = pk_word_(%s, %s, %s, %d);" % (n, b, n, c, {"address": 20, "bool": 1}.get(t[0]) or t[1] // 8))
            return self.tmp("pk_end_(%s, %s)" % (b, n)), ("bytes",)
        if m == "decode":
            blk = self.tmp(self.to(args[0], ("bytes",)))
            ts = args[1][1] if args[1][0] == "tuple" else [args[1]]
            if len(ts) != 1:
                raise Unsupported("abi.decode of several values")
            t = P.norm(self.astype(ts[0]))
            if P.dynamic(t):
                return self.tmp("dec_dyn_(%s, 0, %d)" % (blk, 1 if t[0] in ("bytes", "string") else 32)), t
            if t[0] == "array":
                return self.tmp("dec_fix_(%s, 0, %d)" % (blk, t[2])), t
            v = self.tmp("dec_head_(%s, 0)" % blk)
            self.w("if (%s != %s) fail_(1, \"abi\", 3);" % (v, self.clean(v, t)))
            return v, t
        raise Unsupported("abi." + m)

    def astype(self, e):
        if e[0] == "type":
            return e[1]
        if e[0] == "arrtype":
            return ("array", self.astype(e[1]), None)
        if e[0] == "index":
            return ("array", self.astype(e[1]), e[2])
        if e[0] == "id":
            return ("user", e[1])
        raise Unsupported("type expression")

    # ---- statements
    def stmt(self, s):
        k = s[0]
        if k == "block":
            self.scopes.append({})
            self.w("{")
            for x in s[1]:
                self.stmt(x)
            self.w("}")
            self.scopes.pop()
        elif k == "unchecked":
            save, self.unchecked = self.unchecked, True
            self.stmt(s[1])
            self.unchecked = save
        elif k == "decl":
            self.decl(s)
        elif k == "expr" and s[1] == ("id", "_") and self.inner is not None:
            self.around(self.inner)
        elif k == "expr":
            for c, t in self.exs(s[1]):
                pass
        elif k == "if":
            c = self.cond(s[1])
            self.w("if %s {" % c)
            self.stmt(("block", [s[2]]))
            if s[3] is not None:
                self.w("} else {")
                self.stmt(("block", [s[3]]))
            self.w("}")
        elif k == "for":
            self.scopes.append({})
            self.w("{")
            if s[1] is not None:
                self.stmt(s[1])
            lab = self.new("cont")
            self.w("for (;;) { tick_();")
            if s[2] is not None:
                self.w("if (!%s) break;" % self.cond(s[2]))
            self.loops.append(lab)
            self.stmt(("block", [s[4]]))
            self.loops.pop()
            self.w("%s: ;" % lab)
            if s[3] is not None:
                self.w("{")
                self.exs(s[3])
                self.w("}")
            self.w("} }")
            self.scopes.pop()
        elif k == "do":
            lab = self.new("cont")
            self.w("for (;;) { tick_();")
            self.loops.append(lab)
            self.stmt(("block", [s[1]]))
            self.loops.pop()
            self.w("%s: ;" % lab)
            self.w("{")
            self.w("if (!%s) break; }" % self.cond(s[2]))
            self.w("}")
        elif k == "break":
            self.w("break;")
        elif k == "continue":
            self.w("goto %s;" % self.loops[-1])
        elif k == "return":
            if s[1] is None:
                self.fallret()
                return
            vs = self.exs(s[1])
            if len(vs) != len(self.rets):
                raise Unsupported("return arity")
            cs = [self.conv(c, t, rt) for (c, t), (_, rt) in zip(vs, self.rets)]
            cs = [self.tmp(c) for c in cs]
            for i, c in enumerate(cs):
                self.w("ret[%d] = %s;" % (i, c))
            self.w("goto %s;" % self.outlab[-1] if self.outlab else "return;")
        elif k == "asm":
            self.yblock(s[1])
        else:
            raise Unsupported("statement " + k)

    def decl(self, s):
        ds, init = s[1], s[2]
        if init is None:
            ty, nm = ds[0]
            t = self.p.norm(ty)
            c = self.default(t)
            v = self.new(nm)
            self.w("W %s = %s;" % (v, c))
            self.scopes[-1][nm] = (v, t)
            return
        vs = self.exs(init)
        if len(vs) != len(ds):
            raise Unsupported("declaration arity")
        out = []
        for d, (c, t) in zip(ds, vs):
            if d is None:
                continue
            ty = self.p.norm(d[0])
            v = self.new(d[1])
            self.w("W %s = %s;" % (v, self.conv(c, t, ty)))
            if ty[0] == "calldata" and self.p.dynamic(ty[1]):
                self.w("W %s_len = %s_len;" % (v, c))
            out.append((d[1], (v, ty)))
        for n, x in out:
            self.scopes[-1][n] = x

    # ---- inline assembly
    def yblock(self, stmts):
        self.scopes.append({})
        self.yfuncs.append({})
        self.w("{")
        for s in stmts:
            if s[0] == "function":
                self.yfuncs[-1][s[1]] = (self.new("y_" + s[1]), s)
        for s in stmts:
            self.ystmt(s)
        self.w("}")
        self.yfuncs.pop()
        self.scopes.pop()

    def yname(self, n):
        if "." in n:
            b, suf = n.rsplit(".", 1)
            x = self.look(b)
            if x and x[1][0] == "calldata":
                return x[0] if suf == "offset" else x[0] + "_len"
            raise Unsupported("assembly name " + n)
        x = self.look(n)
        if x:
            return x[0]
        if n in self.p.consts:
            return "c_" + n
        raise Unsupported("assembly name " + n)

    def yex(self, e):
        if e[0] == "num":
            return wlit(e[1])
        if e[0] == "id":
            return self.yname(e[1])
        n, args = e[1], e[2]
        for fs in reversed(self.yfuncs):
            if n in fs:
                cn, s = fs[n]
                return "%s(%s)" % (cn, ", ".join(self.yex(a) for a in args))
        if n not in YOPS or YOPS[n] != len(args):
            raise Unsupported("assembly operation " + n)
        return "y_%s(%s)" % (n, ", ".join(self.yex(a) for a in args))

    def ystmt(self, s):
        k = s[0]
        if k == "block":
            self.yblock(s[1])
        elif k == "let":
            c = self.yex(s[2]) if s[2] is not None else "(W)0"
            for i, n in enumerate(s[1]):
                v = self.new(n)
                self.w("W %s = %s;" % (v, c if i == 0 or s[2] is None else "yr_[%d]" % i))
                self.scopes[-1][n] = (v, ("yul",))
        elif k == "set":
            for i, n in enumerate(s[1]):
                self.w("%s = %s;" % (self.yname(n), self.yex(s[2]) if i == 0 else "yr_[%d]" % i))
        elif k == "expr":
            self.w("(void)%s;" % self.yex(s[1]) if s[1][0] != "call" or s[1][1] not in ("return", "stop") else self.yret(s[1]))
        elif k == "if":
            self.w("if (%s != 0)" % self.yex(s[1]))
            self.yblock(s[2])
        elif k == "for":
            self.scopes.append({})
            self.yfuncs.append({})
            self.w("{")
            for x in s[1]:
                self.ystmt(x)
            lab = self.new("cont")
            self.w("for (;;) { tick_(); if (!(%s != 0)) break;" % self.yex(s[2]))
            self.loops.append(lab)
            self.yblock(s[4])
            self.loops.pop()
            self.w("%s: ;" % lab)
            self.yblock(s[3])
            self.w("} }")
            self.yfuncs.pop()
            self.scopes.pop()
        elif k == "switch":
            v = self.tmp(self.yex(s[1]))
            first = True
            for c, b in s[2]:
                self.w(("if (%s == %s)" % (v, self.yex(c)) if c is not None else "if (1)") if first else ("else if (%s == %s)" % (v, self.yex(c)) if c is not None else "else"))
                self.yblock(b)
                first = False
        elif k == "break":
            self.w("break;")
        elif k == "continue":
            self.w("goto %s;" % self.loops[-1])
        elif k == "leave":
            self.w("goto %s;" % self.leave)
        elif k == "function":
            cn = self.yfuncs[-1][s[1]][0]
            sub = Emitter(self.p, None)
            sub.yfuncs = [dict(x) for x in self.yfuncs]
            sub.leave = self.new("leave")
            ps = []
            for n in s[2]:
                v = self.new(n)
                ps.append("W " + v)
                sub.scopes[-1][n] = (v, ("yul",))
            for n in s[3]:
                v = self.new(n)
                sub.w("W %s = 0;" % v)
                sub.scopes[-1][n] = (v, ("yul",))
            sub.yblock(s[4])
            sub.w("%s: ;" % sub.leave)
            for i, n in enumerate(s[3][1:], 1):
                sub.w("yr_[%d] = %s;" % (i, sub.scopes[0][n][0]))
            sub.w("return %s; }" % (sub.scopes[0][s[3][0]][0] if s[3] else "0"))
            self.pre += ["static W %s(%s);" % (cn, ", ".join(ps) or "void")] + sub.pre + ["static W %s(%s) {" % (cn, ", ".join(ps) or "void")] + sub.out
        else:
            raise Unsupported("assembly " + k)

    def yret(self, e):
        raise Unsupported("assembly return")


def abiname(t):
    if t[0] == "calldata":
        return abiname(t[1])
    if t[0] == "array":
        return abiname(t[1]) + "[%s]" % ("" if t[2] is None else t[2])
    if t[0] == "fbytes":
        return "bytes%d" % t[1]
    if t[0] in ("uint", "int"):
        return "%s%d" % t
    return t[0]


def cstr(b):
    return '"' + "".join("\\x%02x\"\"" % c for c in b) + '"'


# ------------------------------------------------------------------------------------------------ host side
class Revert(Exception):
    pass


class Contract:
    """A translated contract (or file of free functions) of the working tree, callable from Python."""

    def __init__(self, run, path, contract=None, ctor=None, opt="-O1"):
        import ctypes as C
        import subprocess
        from . import core
        prog = Program(os.path.join(core.REPO, path), contract)
        text, self.table, self.skipped = prog.emit()
        d = os.path.join(run.tmp, "sol")
        os.makedirs(d, exist_ok=True)
        self.getters = {n: k for k, n in enumerate(prog.getters)}
        base = os.path.join(d, re.sub(r"\W", "_", path + (contract or "") + repr(ctor or "")))[:200]
        with open(base + ".c", "w") as f:
            f.write(text)
        r = subprocess.run(["clang", opt, "-w", "-fPIC", "-shared", "-fno-strict-aliasing", "-I", os.path.join(core.ROOT, "harness"),
                            base + ".c", "-o", base + ".so"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("translated contract does not compile: " + r.stderr[:2000])
        self.L = C.CDLL(base + ".so")
        self.C = C
        self.names = {}
        for i, (n, ps, rs, ok, mods) in enumerate(self.table):
            self.names.setdefault(n, []).append((i, ps, rs, ok))
        self.reset(ctor)

    def reset(self, ctor=None):
        """A newly deployed instance."""
        a = b"".join((x % 2**256).to_bytes(32, "big") for x in ctor) if ctor is not None else None
        st = self.L.sol_init(a, self.C.c_size_t(len(a) if a else 0))
        if st == 9:
            raise Unsupported(self.error().decode())
        if st:
            raise Revert("constructor", st)

    def store(self, data):
        """Address of an account holding the given code."""
        o = self.C.create_string_buffer(32)
        self.L.sol_word_store(bytes(data), self.C.c_size_t(len(data)), o)
        return int.from_bytes(o.raw, "big")

    def read_state(self, name):
        """Value of a state variable of word size (what its public getter returns)."""
        if name not in self.getters:
            raise Unsupported("no state variable " + name)
        o = self.C.create_string_buffer(32)
        self.L.sol_state(self.getters[name], o)
        return int.from_bytes(o.raw, "big")

    def find(self, name, args):
        for i, ps, rs, ok in self.names.get(name, []):
            if len(ps) == len(args) and all(self.match(p, a) for p, a in zip(ps, args)):
                if not ok:
                    raise Unsupported("%s was not translated: %s" % (name, self.skipped.get(name)))
                return i, ps, rs
        raise Unsupported("no function %s for these arguments" % name)

    def match(self, p, a):
        p = p[1] if p[0] == "calldata" else p
        if p[0] in ("bytes", "string"):
            return isinstance(a, (bytes, bytearray))
        if p[0] == "array":
            return isinstance(a, (list, tuple)) and (p[2] is None or p[2] == len(a))
        return isinstance(a, (int, bool)) and p[0] != "struct"

    def call(self, name, *args):
        """Return values (list), or raises Revert(kind, data); kind 1 revert, 2 panic, 3 out of gas."""
        C, L = self.C, self.L
        i, ps, rs = self.find(name, args)
        cd, words, todo = b"", [], []
        for p, a in zip(ps, args):
            if p[0] == "calldata" and p[1][0] in ("bytes", "string"):
                words += [4 + len(cd), len(a)]
                cd += bytes(a) + bytes(-len(a) % 32)
            elif p[0] == "calldata" and p[1][0] == "array" and p[1][2] is None:
                words += [4 + len(cd), len(a)]
                cd += b"".join((x % 2**256).to_bytes(32, "big") for x in a)
            else:
                words.append(None)
                todo.append((len(words) - 1, p, a))
        cd = b"\0\0\0\0" + cd
        L.sol_begin(cd, C.c_size_t(len(cd)))
        o = C.create_string_buffer(32)
        for k, p, a in todo:
            if p[0] in ("bytes", "string"):
                L.sol_put(1, bytes(a), C.c_size_t(len(a)), o)
                words[k] = int.from_bytes(o.raw, "big")
            elif p[0] == "array":
                L.sol_put(2 if p[2] is None else 0, b"".join((int(x) % 2**256).to_bytes(32, "big") for x in a), C.c_size_t(len(a)), o)
                words[k] = int.from_bytes(o.raw, "big")
            else:
                words[k] = int(a)
        buf = b"".join((x % 2**256).to_bytes(32, "big") for x in words)
        out = C.create_string_buffer(32 * max(1, len(rs)))
        st = L.sol_call(i, buf, out)
        if st == 9:
            raise Unsupported(self.error().decode())
        if st:
            raise Revert(st, self.error())
        res = []
        for k, t in enumerate(rs):
            v = out.raw[32 * k:32 * k + 32]
            res.append(self.fetch(v, t))
        return res

    def error(self):
        """Data of the last failed call."""
        e = self.C.create_string_buffer(4096)
        self.L.sol_error.restype = self.C.c_size_t
        n = self.L.sol_error(e)
        return e.raw[:n]

    def peek(self, a, n):
        b = self.C.create_string_buffer(max(1, n))
        if self.L.sol_peek(a.to_bytes(32, "big"), self.C.c_size_t(n), b):
            raise Revert(3, b"peek")
        return b.raw[:n]

    def fetch(self, v, t):
        a = int.from_bytes(v, "big")
        if t[0] in ("bytes", "string"):
            return self.peek(a + 32, int.from_bytes(self.peek(a, 32), "big"))
        if t[0] == "array":
            n = t[2] if t[2] is not None else int.from_bytes(self.peek(a, 32), "big")
            b = self.peek(a if t[2] is not None else a + 32, 32 * n)
            return [int.from_bytes(b[32 * i:32 * i + 32], "big") for i in range(n)]
        if t[0] == "bool":
            return bool(a)
        if t[0] == "fbytes":
            return v[:t[1]]
        return a


def wrapper(run, name, imports, body):
    """A contract of /verif around library functions of the working tree."""
    from . import core
    d = os.path.join(run.tmp, "wrap")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name + ".sol")
    with open(path, "w") as f:
        for i in imports:
            f.write('import "%s";\n' % os.path.relpath(os.path.join(core.REPO, i), d))
        f.write("contract %s {\n%s\n}\n" % (name, body))
    return Contract(run, path, name)
