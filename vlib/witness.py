"""Fixed small designs: one per recorded finding, and shapes the generator does not reach.  The body of module top plus its signals."""
from .design import Sig, wc


class Fixed(object):
    """looks like an elaborated generated design"""
    def __init__(self, spec, body, more="", instances=()):
        self.signals, self.mods, ports, decl = [], [self], [], []
        self.regs, self.ticks, self.name = [], {}, "top"
        self.instances = [("top", "top")] + list(instances)
        for item in spec.split(";"):
            f = item.split()
            if not f:
                continue
            kind, name = f[0], f[1]
            msb, lsb = (int(f[2]), int(f[3])) if len(f) >= 4 else (0, 0)
            dims = (int(f[4]), int(f[5])) if len(f) > 4 else None
            n = abs(msb - lsb) + 1
            s = Sig(name, wc(n), lsb=min(msb, lsb), asc=msb < lsb, dims=dims,
                    kinds={"input": ("Input",), "output": ("Output",), "outreg": ("Output", "Reg"), "wire": ("Wire",), "reg": ("Reg",),
                           "hid": ("Wire",), "latch": ("Reg",), "integer": ("Integer",)}[kind])
            self.signals.append({"path": "top." + name, "kinds": set(s.kinds), "msb": msb, "lsb": lsb, "width": n, "dims": dims,
                                 "const": None, "mod": "top", "sig": s, "latch": kind == "latch"})
            if kind in ("input", "output", "outreg"):
                ports.append(("input" if kind == "input" else "output", s))
            r = "[%d:%d] " % (msb, lsb) if len(f) >= 4 else ""
            if kind in ("reg", "latch"):
                self.regs.append(s)
            if kind != "hid":
                decl.append("  %s %s%s%s;" % ({"outreg": "output reg", "latch": "reg"}.get(kind, kind), r, name, " [%d:%d]" % dims if dims else ""))
        self.ports, self.params = ports, []
        self.top = self
        self.text = "module top(%s);\n%s\n%s\nendmodule\n%s" % (", ".join(s.name for d, s in ports), "\n".join(decl), body, more)


W = {}
def w(name, *a, **k):
    W[name] = (a, k)


w("asc-ixsel", "input a 0 7; input i 2 0; output o 3 0; output p 3 0", "assign o = a[2 +: 4]; assign p = a[5 -: 4];")
w("casez", "input a 3 0; outreg o 1 0", "always @* casez (a) 4'b1???: o = 1; 4'b01??: o = 2; default: o = 3; endcase")
w("override-part", "input a 1 0; input b 3 0; outreg o 3 0", "always @* begin o = b; o[1:0] = a; end")
w("override-part-if", "input a 1 0; input b 3 0; input c; outreg o 3 0", "always @* begin o = b; if (c) o[2:1] = a; end")
w("override-whole", "input a 1 0; input b 3 0; input c; outreg o 3 0", "always @* begin o[1:0] = a; o[3:2] = a; if (c) o = b; end")
w("part-then-read", "input a 1 0; input b 3 0; outreg o 3 0; reg t 3 0", "always @* begin t[1:0] = a; t[3:2] = ~a; o = t ^ b; end")
w("part-then-read-part", "input a 1 0; input b 3 0; outreg o 1 0; reg t 3 0", "always @* begin t[1:0] = a; t[3:2] = ~a; o = t[2:1] ^ b[1:0]; end")
w("bits-then-read", "input a 1 0; input b 3 0; outreg o 3 0; reg t 3 0", "always @* begin t[2] = a[0]; t[0] = a[1]; t[1] = b[1]; t[3] = 1'b0; o = t ^ b; end")
w("override-part-read", "input a 1 0; input b 3 0; outreg o 3 0; reg t 3 0", "always @* begin t = b; t[1:0] = a; o = t + 1; end")
w("override-part-read-mid", "input a 1 0; input b 3 0; outreg o 3 0; reg t 3 0", "always @* begin t = b; t[2:1] = a; o = ~t; end")
w("override-part-read-part", "input a 1 0; input b 3 0; outreg o 1 0; reg t 3 0", "always @* begin t = b; t[2:1] = a; o = ~t[1:0]; end")
w("override-whole-read", "input a 1 0; input b 3 0; outreg o 3 0; reg t 3 0", "always @* begin t[1:0] = a; t[3:2] = a; t = t ^ b; o = t; end")
w("override-if-read", "input a 1 0; input b 3 0; input c; outreg o 3 0; reg t 3 0", "always @* begin t = b; if (c) t[2:1] = a; o = t; end")
w("part-if-read", "input a 1 0; input b 3 0; input c; outreg o 3 0; reg t 3 0", "always @* begin if (c) t[1:0] = a; else t[1:0] = b[3:2]; t[3:2] = b[1:0]; o = t ^ 4'd3; end")
w("part-of-read", "input a 1 0; input b 3 0; outreg o 3 0; reg t 3 0", "always @* begin t[1:0] = a; t[3:2] = t[1:0]; o = {t[0], t[3:1]}; end")
w("bit-read-loop", "input a 3 0; outreg o 3 0; reg t 3 0; integer k", "always @* begin t[0] = a[0]; for (k = 1; k < 4; k = k + 1) t[k] = t[k-1] ^ a[k]; o = t; end")
w("offset-part-read", "input a 1 0; input b 4 1; outreg o 4 1; reg t 4 1", "always @* begin t[2:1] = a; t[4:3] = ~a; o = t ^ b; end")
w("part-only", "input a 1 0; input b 3 0; outreg o 1 0; latch t 3 0", "always @* begin t[2:1] = a; o = t[2:1] ^ b[1:0]; end")
w("casez-hex", "input a 7 0; outreg o 1 0", "always @* casez (a) 8'h?3, 8'h1?: o = 1; 8'b1z1?_0000: o = 2; default: o = 3; endcase")
w("primitive-select", "input a 3 0; input b 3 0; output o; wire y 3 0", "and g0(y[1], a[2], b[1]); or g1(y[0], a[0], b[3]); not g2(y[2], a[3]); buf g3(y[3], b[0]); assign o = ^y;")
w("primitive-ranged", "input a 4 4; input b 4 4; output o 4 4; wire y 4 4", "and g0(y, a, b); not g1(o, y);")
w("primitive-expr", "input a 3 0; input b 3 0; output o", "and g0(o, a[0] ^ b[0], a[1]);")
w("primitive-not-multi", "input a; output o; output p", "not g0(o, p, a);")
w("primitive-array", "input a 3 0; input b 3 0; output o 3 0", "xor g0 [3:0] (o, a, b);")
w("instance-array", "input a 3 0; input b 3 0; output o 3 0", "sub u [3:0] (.x(a), .y(b), .z(o));", "module sub(input x, input y, output z); assign z = x & ~y; endmodule\n")
w("instance-array-scalar", "input a 3 0; input b; output o 3 0", "sub u [3:0] (.x(a), .y(b), .z(o));", "module sub(input x, input y, output z); assign z = x & ~y; endmodule\n")
w("instance-array-wide", "input a 7 0; input b 3 0; output o 7 0", "sub u [3:0] (.x(a), .y(b), .z(o));", "module sub(input [1:0] x, input y, output [1:0] z); assign z = x ^ {2{y}}; endmodule\n")
w("index-conditional", "input a 3 0; input b 1 0; input c 1 0; input s; output o", "assign o = a[s ? b : c];")
w("nested-for", "input a 3 0; input b 3 0; output o 15 0", "genvar i, j; generate for (i = 0; i < 4; i = i + 1) begin : x for (j = 0; j < 4; j = j + 1) begin : y assign o[i*4+j] = a[i] & b[j]; end end endgenerate")
w("for-if", "input a 3 0; input b 3 0; output o 3 0", "genvar i; generate for (i = 0; i < 4; i = i + 1) begin : x if (i == 0) begin : f assign o[i] = a[i]; end else begin : g assign o[i] = a[i] ^ b[i-1]; end end endgenerate")
w("if-elseif", "input a 3 0; input b 3 0; output o 3 0", "parameter P = 2; generate if (P == 1) begin : x assign o = a; end else if (P == 2) begin : y assign o = b; end else begin : z assign o = 0; end endgenerate")
w("for-chain", "input a 3 0; output o; wire t 4 0", "assign t[0] = 1'b0; genvar i; generate for (i = 0; i < 4; i = i + 1) begin : x assign t[i+1] = t[i] ^ a[i]; end endgenerate assign o = t[4];")
w("for-scope-ref", "input a 3 0; output o 3 0", "genvar i; generate for (i = 0; i < 4; i = i + 1) begin : x wire t; assign t = ~a[i]; end endgenerate assign o = {x[3].t, x[2].t, x[1].t, x[0].t};")
w("for-down", "input a 3 0; output o 3 0", "genvar i; generate for (i = 3; i >= 0; i = i - 1) begin : x assign o[i] = a[3-i]; end endgenerate")
w("for-step2", "input a 3 0; output o 3 0", "genvar i; generate for (i = 0; i < 4; i = i + 2) begin : x assign o[i] = a[i+1]; assign o[i+1] = a[i]; end endgenerate")
w("if-no-else", "input a 3 0; output o 3 0", "parameter P = 1; generate if (P) begin : x assign o = ~a; end endgenerate")
w("while-loop", "input a 3 0; outreg o 3 0; integer k", "always @* begin k = 0; while (k < 4) begin o[k] = a[3-k]; k = k + 1; end end")
w("for-accumulate", "input a 3 0; outreg o 2 0; integer k", "always @* begin o = 0; for (k = 0; k < 4; k = k + 1) o = o + a[k]; end")
w("for-find", "input a 3 0; outreg o 2 0; integer k", "always @* begin o = 7; for (k = 0; k < 4; k = k + 1) if (a[k]) o = k; end")
w("function-if-default", "input a 3 0; output o 3 0", "function [3:0] f; input [3:0] x; begin f = x; if (x[0]) f = ~x; end endfunction assign o = f(a);")
w("function-case-part", "input a 3 0; output o 3 0", "function [3:0] f; input [3:0] x; begin f[1:0] = x[3:2]; f[3:2] = x[1:0]; end endfunction assign o = f(a);")
w("function-nested", "input a 3 0; output o 3 0", "function [3:0] g; input [3:0] x; g = x + 1; endfunction function [3:0] f; input [3:0] x; f = g(x) ^ g(~x); endfunction assign o = f(a);")
w("function-loop", "input a 3 0; output o 3 0", "function [3:0] f; input [3:0] x; integer k; begin for (k = 0; k < 4; k = k + 1) f[k] = x[3-k]; end endfunction assign o = f(a);")
w("function-reassign", "input a 3 0; output o 3 0", "function [3:0] f; input [3:0] x; reg [3:0] t; begin t = x; t = t + 1; if (x[0]) t = t ^ 3; f = t; f = f + t; end endfunction assign o = f(a);")
w("function-accumulate", "input a 3 0; output o", "function f; input [3:0] x; integer k; begin f = 0; for (k = 0; k < 4; k = k + 1) f = f ^ x[k]; end endfunction assign o = f(a);")
w("function-same-name", "input a 3 0; output o 3 0; output p 7 0; wire t 7 0", "assign t = {a, a}; function [3:0] f; input [3:0] x; reg [3:0] t; begin t = x + 1; f = t; end endfunction assign o = f(a); assign p = t;")
w("instance-array-up", "input a 3 0; input b 3 0; output o 3 0", "sub u [0:3] (.x(a), .y(b), .z(o));", "module sub(input x, input y, output z); assign z = x & ~y; endmodule\n")
w("instance-array-lsb", "input a 7 2; input b 0 2; output o 10 5", "sub u [2:0] (.x(a), .y(b), .z(o));", "module sub(input [1:0] x, input y, output [1:0] z); assign z = x ^ {2{y}}; endmodule\n")
w("function-twice", "input a 3 0; input b 3 0; output o 3 0; output p 3 0", "function [3:0] f; input [3:0] x; input [3:0] y; f = x - y; endfunction assign o = f(a, b); assign p = f(b, a);")
w("signed", "input a 3 0; input b 3 0; output o", "assign o = $signed(a) < $signed(b);")
w("shift-signed", "input a 3 0; output o 3 0", "assign o = $signed(a) >>> 1;")
w("concat-target-partial", "input a 3 0; outreg o 3 0; outreg p 3 0", "always @* begin {o[1:0], p[3:2]} = a; {o[3:2], p[1:0]} = ~a; end")
w("concat-target-assign", "input a 3 0; output o 3 0; output p 3 0", "assign {o[1:0], p[3:2]} = a; assign {o[3:2], p[1:0]} = ~a;")
w("carry", "input a 3 0; input b 3 0; output s 3 0; output c", "assign {c, s} = a + b;")
w("carry-always", "input a 3 0; input b 3 0; outreg s 3 0; outreg c", "always @* {c, s} = a + b;")
w("widen", "input a 3 0; input b 3 0; output s 4 0", "assign s = a + b;")
w("widen-cond", "input a 3 0; input b 4 0; input c; output s 4 0", "assign s = c ? a + 4'd1 : b;")
w("nested-concat-target", "input a 5 0; output x; output y 1 0; output z 2 0", "assign {x, {y, z}} = a;")
w("nested-case", "input a 1 0; input b 1 0; outreg o 1 0", "always @* case (a) 0: case (b) 0: o = 0; 1: o = 1; default: o = 2; endcase 1: o = b; default: if (b[0]) o = 3; else o = 2; endcase")
w("case-true", "input a 2 0; outreg o 1 0", "always @* case (1'b1) a[0]: o = 0; a[1]: o = 1; a[2]: o = 2; default: o = 3; endcase")
w("if-in-loop", "input a 3 0; input b 3 0; outreg o 3 0; integer k", "always @* for (k = 0; k < 4; k = k + 1) begin if (a[k]) o[k] = b[k]; else o[k] = ~b[3-k]; end")
w("temp-in-branches", "input a 3 0; input c; input d; outreg o 3 0; reg t 3 0", "always @* begin t = a; if (c) t = t + 1; if (d) t = t ^ 4'd5; o = t; end")
w("temp-swap", "input a 3 0; input b 3 0; input c; outreg o 3 0; outreg p 3 0; latch t 3 0", "always @* begin o = a; p = b; if (c) begin t = o; o = p; p = t; end end")
w("dyn-target", "input a 1 0; input b 3 0; outreg o 3 0", "always @* begin o = b; o[a] = 1'b1; end")
w("sens-list", "input a 3 0; input b 3 0; input c; outreg o 3 0", "always @(a or b or c) if (c) o = a; else o = b;")
w("implicit-net", "input a 3 0; output o", "assign t = a[0] ^ a[1]; assign o = t; wire t;") if 0 else None
w("supply", "input a 3 0; output o 3 0; hid vcc; hid gnd", "supply1 vcc; supply0 gnd; assign o = {a[3:1], vcc} & {4{~gnd}};")
w("tri", "input a 3 0; input c; output o 3 0", "assign o = c ? a : 4'bz;") if 0 else None
w("indexed-dyn", "input a 10 0; input i 2 0; output o 3 0", "assign o = a[i +: 4];")
w("indexed-dyn-down", "input a 7 0; input i 1 0; output o 1 0", "assign o = a[{1'b1, i} -: 2];")
w("dyn-lsb", "input a 8 1; input i 2 0; output o", "assign o = a[{1'b0, i} | 4'd1];")
w("mem-init-read", "input i 1 0; input j 3 0; output o 3 0; wire m 3 0 0 3", "assign m[0] = j; assign m[1] = ~j; assign m[2] = j + 1; assign m[3] = 4'd9; assign o = m[i];")
w("hier-up", "input a 3 0; output o 3 0", "sub u(a); assign o = u.t;", "module sub(input [3:0] x); wire [3:0] t; assign t = ~x; endmodule\n")
w("implicit-port-width", "input a 3 0; output o 3 0", "sub u(.x(a), .z(o));", "module sub(x, z); parameter W = 4; input [W-1:0] x; output [W-1:0] z; assign z = x + 1; endmodule\n")
w("port-narrow", "input a 3 0; output o 3 0; hid u.x 1 0; hid u.z 1 0", "sub u(.x(a), .z(o[1:0])); assign o[3:2] = 0;", "module sub(input [1:0] x, output [1:0] z); assign z = x; endmodule\n")
w("port-wide", "input a 1 0; output o 3 0; hid u.x 3 0; hid u.z 3 0", "sub u(.x(a), .z(o));", "module sub(input [3:0] x, output [3:0] z); assign z = ~x; endmodule\n")
w("defparam-free", "input a 3 0; output o 3 0", "sub #(.K(4'd3)) u(.x(a), .z(o));", "module sub #(parameter [3:0] K = 1) (input [3:0] x, output [3:0] z); localparam L = K + 1; assign z = x ^ L; endmodule\n")


w("lconcat-select", "input a 3 0; input b 3 0; output x 3 0; output y 1 0",
  "  assign {x, y} = {b, a[1:0]} ^ {2'b01, a};")

w("name-collision", "input a 3 0; output o 3 0; wire u_i 3 0",
  "  assign u_i = ~a;\n  sub u(.i(a), .q(o), .k(u_i));",
  more="module sub(input [3:0] i, input [3:0] k, output [3:0] q);\n  assign q = i & ~k;\nendmodule\n")

def get(name):
    a, k = W[name]
    return Fixed(*a, **k)
w("unsized-compare", "input a 3 0; input b 3 0; output o; wire s 3 0", "assign s = a + b; assign o = s == 0;")
w("function-hold", "input a; input b; input c; outreg o 7 0", """
  function [7:0] f;
    input [3:0] x;
    f = 8'h59 & ({x, x} ^ {{x[0], x}, x[3:1]});
  endfunction
  always @* if (c) o = f({a, b, 2'b01}); else o = 8'd3;""")
