"""Reference evaluator of dataflow trees over a recorded snapshot (Verilog sizing rules, unsigned)."""
import re


class Unknown(Exception):
    """the value depends on an unknown bit"""


class Hold(Exception):
    """no branch assigns: the destination keeps its value"""


class Bad(Exception):
    """the tree has no meaning"""


LIT = re.compile(r"^\s*(\d*)\s*'([sS]?)([bodhBODH])([0-9a-fA-FxXzZ?_]+)$")
RED = {"Uand", "Unand", "Uor", "Unor", "Uxor", "Uxnor", "Ulnot"}
CMP = {"LessThan", "GreaterThan", "LessEq", "GreaterEq", "Eq", "NotEq", "Eql", "NotEql"}
LOG = {"Land", "Lor"}


def literal(s):
    """-> (value, width)"""
    s = s.replace("_", "").replace(" ", "")
    m = LIT.match(s)
    if m:
        w = int(m.group(1)) if m.group(1) else 32
        if re.search("[xXzZ?]", m.group(4)):
            raise Unknown()
        v = int(m.group(4), {"b": 2, "o": 8, "d": 10, "h": 16}[m.group(3).lower()])
        return v & ((1 << w) - 1), w
    return int(s) & 0xffffffff, 32


class Evaluator(object):
    """read(name) -> int ; shape(name) -> (msb, lsb, dims) ; readmem(name, index) -> int"""

    def __init__(self, read, shape, readmem):
        self.read, self.shape, self.readmem = read, shape, readmem

    def selfw(self, t):
        c = type(t).__name__
        if t is None:
            return 0
        if c == "DFTerminal":
            msb, lsb, dims = self.shape(t.name)
            return abs(msb - lsb) + 1
        if c == "DFIntConst":
            return literal(t.value)[1]
        if c == "DFEvalValue":
            return t.width or 32
        if c == "DFOperator":
            o = t.operator
            if o in RED or o in CMP or o in LOG:
                return 1
            n = [self.selfw(x) for x in t.nextnodes]
            if o in ("Sll", "Srl", "Sra", "Sla", "Power"):
                return n[0]
            return max(n)
        if c == "DFBranch":
            return max(self.selfw(t.truenode), self.selfw(t.falsenode))
        if c == "DFConcat":
            return sum(self.selfw(x) for x in t.nextnodes)
        if c == "DFPartselect":
            return abs(self.idx(t.msb) - self.idx(t.lsb)) + 1 if t.msb != t.lsb else 1
        if c == "DFPointer":
            if type(t.var).__name__ == "DFTerminal":
                msb, lsb, dims = self.shape(t.var.name)
                if dims is not None:
                    return abs(msb - lsb) + 1
            return 1
        if c in ("DFUndefined", "DFHighImpedance"):
            return t.width
        if c == "DFDelay":
            return self.selfw(t.nextnode)
        raise Bad("no width for %s" % c)

    def idx(self, t):
        return self.ev(t, self.selfw(t))

    def truth(self, t):
        return self.ev(t, self.selfw(t)) != 0

    def value(self, t, w):
        """value assigned to a destination of w bits; top-level branches choose separately sized values"""
        while type(t).__name__ == "DFBranch":
            t = t.truenode if self.truth(t.condnode) else t.falsenode
        if t is None:
            raise Hold()
        return self.ev(t, max(w, self.selfw(t))) & ((1 << w) - 1)

    earlier = None      # evaluator one step before

    def ev(self, t, W):
        c = type(t).__name__
        M = (1 << W) - 1
        if c == "DFDelay":
            if self.earlier is None:
                raise Unknown()
            return self.earlier.ev(t.nextnode, W)
        if t is None:
            raise Hold()
        if c == "DFTerminal":
            return self.read(t.name) & M
        if c == "DFIntConst":
            return literal(t.value)[0] & M
        if c == "DFEvalValue":
            if not isinstance(t.value, int):
                raise Bad("constant %r" % (t.value,))
            return t.value & M
        if c == "DFBranch":
            return self.ev(t.truenode if self.truth(t.condnode) else t.falsenode, W)
        if c == "DFConcat":
            v = 0
            for x in t.nextnodes:
                n = self.selfw(x)
                v = (v << n) | (self.ev(x, n) & ((1 << n) - 1))
            return v & M
        if c == "DFPartselect":
            a, b = self.idx(t.msb), self.idx(t.lsb)
            if type(t.var).__name__ == "DFTerminal":
                msb, lsb, dims = self.shape(t.var.name)
                v = self.read(t.var.name)
                if msb >= lsb:
                    a, b = a - lsb, b - lsb
                else:
                    a, b = lsb - a, lsb - b
                n = abs(msb - lsb) + 1
                if b < 0 or a < b or a >= n:
                    raise Bad("select [%d:%d] out of range of %s[%d:%d]" % (self.idx(t.msb), self.idx(t.lsb), t.var.name, msb, lsb))
            elif type(t.var).__name__ == "DFPointer":
                msb, lsb, dims = self.shape(t.var.var.name)
                v = self.ev(t.var, self.selfw(t.var))
                a, b = (a - lsb, b - lsb) if msb >= lsb else (lsb - a, lsb - b)
            else:
                if a < b:
                    raise Bad("reversed select of an expression")
                v = self.ev(t.var, max(self.selfw(t.var), a + 1))
            return (v >> b) & ((1 << (a - b + 1)) - 1) & M
        if c == "DFPointer":
            i = self.idx(t.ptr)
            if type(t.var).__name__ == "DFTerminal":
                msb, lsb, dims = self.shape(t.var.name)
                if dims is not None:
                    return self.readmem(t.var.name, i) & M
                v = self.read(t.var.name)
                i = i - lsb if msb >= lsb else lsb - i
            else:
                v = self.ev(t.var, self.selfw(t.var))
            return (v >> i) & 1
        if c == "DFOperator":
            return self.op(t.operator, t.nextnodes, W) & M
        if c in ("DFUndefined", "DFHighImpedance"):
            raise Unknown()
        raise Bad("cannot evaluate %s" % c)

    def op(self, o, ns, W):
        M = (1 << W) - 1
        if len(ns) == 1:
            n = ns[0]
            if o in ("Unot", "Uminus", "Uplus"):
                v = self.ev(n, W)
                return {"Unot": ~v, "Uminus": -v, "Uplus": v}[o] & M
            w = self.selfw(n)
            v = self.ev(n, w)
            full = (1 << w) - 1
            par = bin(v).count("1") & 1
            return int({"Ulnot": v == 0, "Uand": v == full, "Unand": v != full, "Uor": v != 0, "Unor": v == 0, "Uxor": par == 1,
                        "Uxnor": par == 0}[o])
        a, b = ns
        if o in CMP:
            w = max(self.selfw(a), self.selfw(b))
            x, y = self.ev(a, w), self.ev(b, w)
            return int({"LessThan": x < y, "GreaterThan": x > y, "LessEq": x <= y, "GreaterEq": x >= y, "Eq": x == y, "NotEq": x != y,
                        "Eql": x == y, "NotEql": x != y}[o])
        if o in LOG:
            # an unknown operand matters only when the other one does not decide
            decides = o == "Lor"
            unknown = None
            for n in (a, b):
                try:
                    if self.truth(n) == decides:
                        return int(decides)
                except Unknown as e:
                    unknown = e
            if unknown is not None:
                raise unknown
            return int(not decides)
        x = self.ev(a, W)
        if o in ("Sll", "Sla"):
            return (x << min(self.ev(b, self.selfw(b)), 4096)) & M
        if o in ("Srl", "Sra"):
            return x >> min(self.ev(b, self.selfw(b)), 4096)
        if o == "Power":
            return pow(x, self.ev(b, self.selfw(b)), 1 << W)
        y = self.ev(b, W)
        if o in ("Divide", "Mod"):
            if y == 0:
                raise Unknown()
            return x // y if o == "Divide" else x % y
        return {"Plus": x + y, "Minus": x - y, "Times": x * y, "And": x & y, "Or": x | y, "Xor": x ^ y, "Xnor": ~(x ^ y)}[o] & M
