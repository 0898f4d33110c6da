"""Module items: (veriloggen builder, input names, Verilog text of the same module, depth)."""
import veriloggen as vg
import veriloggen.core.vtypes as vt

IT = {}


def item(ports, text, depth=4):
    def deco(f):
        IT[f.__name__] = (f, ports, text, depth)
        return f
    return deco


@item('clk rst d', 'reg q; always @(posedge clk or negedge rst) if(!rst) q <= 0; else q <= d; assign o = q;', 5)
def async_reset(m, o, p):
    q = m.Reg('q')
    m.Always(vg.Posedge(p['clk']), vg.Negedge(p['rst']))(vg.If(vg.Not(p['rst']))(q(0)).Else(q(p['d'])))
    o.assign(q)


@item('c1 c2 d', 'reg q; always @(posedge c1 or posedge c2) q <= d ^ c1; assign o = q;', 5)
def two_edges(m, o, p):
    q = m.Reg('q')
    m.Always(vg.Posedge(p['c1']), vg.Posedge(p['c2']))(q(p['d'] ^ p['c1']))
    o.assign(q)


@item('a b c', 'reg [1:0] q; always @(a or b) q = {a, c}; assign o = q;', 5)
def level_list(m, o, p):
    q = m.Reg('q', 2)
    m.Always(p['a'], p['b'])(q(vg.Cat(p['a'], p['c']), blk=True))
    o.assign(q)


@item('a b c', 'reg [1:0] q; always @(posedge a or b) q <= q + c; initial q = 1; assign o = q;', 5)
def mixed_list(m, o, p):
    q = m.Reg('q', 2)
    m.Always(vg.Posedge(p['a']), p['b'])(q(q + p['c']))
    m.Initial(q(1))
    o.assign(q)


@item('clk d e', 'reg [3:0] q; initial q = 9; always @(posedge clk) q <= {q[2:0], d ^ q[3]}; always @(negedge clk) if(e) q <= 3; assign o = q;', 5)
def several_always(m, o, p):
    q = m.Reg('q', 4)
    m.Initial(q(9))
    m.Always(vg.Posedge(p['clk']))(q(vg.Cat(q[0:3], p['d'] ^ q[3])))
    m.Always(vg.Negedge(p['clk']))(vg.If(p['e'])(q(3)))
    o.assign(q)


@item('a b c', 'wire [3:0] w; assign w[0] = a; assign w[2:1] = {b, c}; assign w[3] = w[0] ^ w[1]; wire signed [2:0] x; assign x = -a; assign o = {w, x >>> 1, x < 0};', 3)
def part_assign(m, o, p):
    w = m.Wire('w', 4)
    m.Assign(w[0](p['a']))
    m.Assign(w[1:3](vg.Cat(p['b'], p['c'])))
    m.Assign(w[3](w[0] ^ w[1]))
    x = m.Wire('x', 3, signed=True)
    x.assign(-p['a'])
    o.assign(vg.Cat(w, vt.Sra(x, 1), x < 0))


@item('a b c', 'wire [1:0] x; wire y; assign {x, y} = {a, b, c} + 1; assign o = {y, x};', 3)
def cat_assign(m, o, p):
    x, y = m.Wire('x', 2), m.Wire('y')
    m.Assign(vg.Cat(x, y)(vg.Cat(p['a'], p['b'], p['c']) + 1))
    o.assign(vg.Cat(y, x))


@item('clk a d', 'reg [1:0] mem [0:3]; integer i; initial for(i = 0; i < 4; i = i + 1) mem[i] = i; '
      'always @(posedge clk) begin mem[{a, d}] <= mem[{d, a}] + 1; mem[0][1] <= a; end assign o = {mem[3], mem[2], mem[1], mem[0]};', 6)
def memory(m, o, p):
    mem = m.Reg('mem', 2, dims=4)
    i = m.Integer('i')
    m.Initial(vg.For(i(0), i < 4, i(i + 1))(mem[i](i)))
    m.Always(vg.Posedge(p['clk']))(mem[vg.Cat(p['a'], p['d'])](mem[vg.Cat(p['d'], p['a'])] + 1), mem[0][1](p['a']))
    o.assign(vg.Cat(mem[3], mem[2], mem[1], mem[0]))


@item('clk a d', 'reg [1:0] mem [0:1][0:2]; integer i, j; initial for(i = 0; i < 2; i = i + 1) for(j = 0; j < 3; j = j + 1) mem[i][j] = i + j; '
      'always @(posedge clk) begin mem[a][d] <= mem[d][2] + 1; mem[1][2] <= mem[a][0]; end '
      'assign o = {mem[0][0], mem[0][1], mem[0][2], mem[1][0], mem[1][1], mem[1][2]};', 6)
def memory2(m, o, p):
    mem = m.Reg('mem', 2, dims=(2, 3))
    i, j = m.Integer('i'), m.Integer('j')
    m.Initial(vg.For(i(0), i < 2, i(i + 1))(vg.For(j(0), j < 3, j(j + 1))(mem[i][j](i + j))))
    m.Always(vg.Posedge(p['clk']))(mem[p['a']][p['d']](mem[p['d']][2] + 1), mem[1][2](mem[p['a']][0]))
    o.assign(vg.Cat(mem[0][0], mem[0][1], mem[0][2], mem[1][0], mem[1][1], mem[1][2]))


@item('a b c', 'parameter P = 3; parameter [1:0] R = P + 2; localparam L = P * 2 - 1; localparam signed [2:0] S = -2; wire [L-1:0] x; '
      'assign x = {a, b, c} << P; assign o = {R, (S < 0), x, x[L-1], L[3:0]};', 3)
def params(m, o, p):
    P = m.Parameter('P', 3)
    R = m.Parameter('R', P + 2, 2)
    L = m.Localparam('L', P * 2 - 1)
    S = m.Localparam('S', -2, 3, signed=True)
    x = m.Wire('x', L)
    x.assign(vt.Sll(vg.Cat(p['a'], p['b'], p['c']), P))
    o.assign(vg.Cat(R, S < 0, x, x[L - 1], L[0:4]))


@item('a b c', 'genvar i; wire [3:0] x; wire [5:0] y; generate for(i = 0; i < 4; i = i + 1) begin : lp wire t; assign t = a ^ (i > 1 && b); assign x[i] = t & c; '
      'reg q; initial q = i; always @(posedge c) q <= q + a; assign y[i] = q; end endgenerate assign y[5:4] = {lp[2].t, lp[3].q}; assign o = {x, y};', 5)
def genfor(m, o, p):
    i = m.Genvar('i')
    x, y = m.Wire('x', 4), m.Wire('y', 6)
    g = m.GenerateFor(i(0), i < 4, i(i + 1), scope='lp')
    t = g.Wire('t')
    t.assign(p['a'] ^ vg.Land(i > 1, p['b']))
    g.Assign(x[i](t & p['c']))
    q = g.Reg('q')
    g.Initial(q(i))
    g.Always(vg.Posedge(p['c']))(q(q + p['a']))
    g.Assign(y[i](q))
    m.Assign(y[4:6](vg.Cat(vt.Scope(g[2], t), vt.Scope(g[3], q))))
    o.assign(vg.Cat(x, y))


@item('a b c', 'localparam K = 2; genvar i, j; wire [5:0] x; generate for(i = 0; i < 3; i = i + 1) begin : lp for(j = 0; j < K; j = j + 1) begin : in '
      'if(i == j) begin : eq assign x[i*2+j] = a; end else begin : ne wire v; assign v = b; assign x[i*2+j] = v ^ (j == 1 & c); end end end endgenerate assign o = x;', 3)
def gennest(m, o, p):
    K = m.Localparam('K', 2)
    i, j = m.Genvar('i'), m.Genvar('j')
    x = m.Wire('x', 6)
    g = m.GenerateFor(i(0), i < 3, i(i + 1), scope='lp')
    h = g.GenerateFor(j(0), j < K, j(j + 1), scope='in')
    e = h.GenerateIf(i == j, scope='eq')
    e.Assign(x[i * 2 + j](p['a']))
    n = e.Else('ne')
    v = n.Wire('v')
    n.Assign(v(p['b']))
    n.Assign(x[i * 2 + j](v ^ vt.And(j == 1, p['c'])))
    o.assign(x)


@item('a b c', 'parameter P = 1; wire [1:0] x; wire y; assign x[1] = c ^ a; generate if(P == 0) begin assign x[0] = a; end else begin assign x[0] = b; end endgenerate '
      'generate if(P > 0) begin : gt wire w; assign w = c; end endgenerate assign y = gt.w; assign o = {x, y};', 3)
def genif(m, o, p):
    P = m.Parameter('P', 1)
    x, y = m.Wire('x', 2), m.Wire('y')
    m.Assign(x[1](p['c'] ^ p['a']))
    g = m.GenerateIf(P == 0)
    g.Assign(x[0](p['a']))
    g.Else.Assign(x[0](p['b']))
    h = m.GenerateIf(P > 0, scope='gt')
    w = h.Wire('w')
    w.assign(p['c'])
    y.assign(vt.Scope(h, w))
    o.assign(vg.Cat(x, y))


@item('a b c', 'reg [2:0] n; task bump; input [1:0] k; reg [2:0] t; begin t = n + k; n = t ^ 1; end endtask task clear; n = 0; endtask '
      'always @(posedge a) if(b) clear; else bump({b, c}); always @(negedge a) bump(2); initial n = 5; assign o = n;', 6)
def tasks(m, o, p):
    n = m.Reg('n', 3)
    T = m.Task('bump')
    k = T.Input('k', 2)
    t = T.Reg('t', 3)
    T.Body(t(n + k), n(t ^ 1))
    Z = m.Task('clear')
    Z.Body(n(0))
    m.Always(vg.Posedge(p['a']))(vg.If(p['b'])(vt.SingleStatement(Z.call())).Else(vt.SingleStatement(T.call(vg.Cat(p['b'], p['c'])))))
    m.Always(vg.Negedge(p['a']))(vt.SingleStatement(T.call(2)))
    m.Initial(n(5))
    o.assign(n)


@item('a b c', 'function [3:0] g(input [1:0] x); integer i; begin g = 0; for(i = 0; i < 4; i = i + 1) if(i >= x) g = g + i; end endfunction '
      'function h(input x, input y); h = x & ~y; endfunction assign o = g({a, b}) + h(c, a) + g(g({b, c}));', 3)
def functions(m, o, p):
    g = m.Function('g', 4)
    x = g.Input('x', 2)
    i = g.Integer('i')
    t = g.Reg('t', 4)
    g.Body(t(0), vg.For(i(0), i < 4, i(i + 1))(vg.If(i >= x)(t(t + i))), g(t))
    h = m.Function('h')
    y, z = h.Input('x'), h.Input('y')
    h.Body(h(y & vg.Unot(z)))
    o.assign(vt.Plus(vt.Plus(g.call(vg.Cat(p['a'], p['b'])), h.call(p['c'], p['a'])), g.call(g.call(vg.Cat(p['b'], p['c'])))))


@item('a b c', 'reg [4:1] w; wire [0:3] v; reg [1:0] mm [2:4]; always @(*) w = {a, b, c, a}; assign v = w; always @(posedge a) mm[{1\'b1, b}] <= {c, b}; '
      'initial begin mm[2] = 1; mm[3] = 2; mm[4] = 3; end assign o = {w[4], w[1], v[0], v[3], mm[2], mm[3], mm[4]};', 5)
def raw_ranges(m, o, p):
    w = m.Reg('w', 4)
    v = m.Wire('v', 4)
    mm = m.Reg('mm', 2, dims=5)
    w.raw_width = (4, 1)
    v.raw_width = (0, 3)
    mm.raw_dims = ((2, 4),)
    m.Always()(w(vg.Cat(p['a'], p['b'], p['c'], p['a']), blk=True))
    v.assign(w)
    m.Always(vg.Posedge(p['a']))(mm[vg.Cat(vg.Int(1, width=1), p['b'])](vg.Cat(p['c'], p['b'])))
    m.Initial(mm[2](1), mm[3](2), mm[4](3))
    o.assign(vg.Cat(w[4], w[1], v[0], v[3], mm[2], mm[3], mm[4]))


@item('a b c', 'reg [3:0] q; initial q = 0; assign o = q; always @(posedge a) begin q <= q + 1; if(b) begin $display("EV %d %b %x|%0d", q, c, {b, c}, -1); '
      '$write("W%s;", "x y"); $display; end end', 5)
def display(m, o, p):
    q = m.Reg('q', 4)
    m.Initial(q(0))
    o.assign(q)
    m.Always(vg.Posedge(p['a']))(q(q + 1), vg.If(p['b'])(vg.Display('EV %d %b %x|%0d', q, p['c'], vg.Cat(p['b'], p['c']), -1), vg.Write('W%s;', 'x y'), vg.Systask('display')))


@item('a b c', 'wire [1:0] k; assign k = {a, b}; assign o = (k == 2) ? ~c : k; reg z; always @(*) z = k > 1;', 3)
def embedded(m, o, p):
    m.EmbeddedCode('wire [1:0] k; assign k = {a, b};')
    o.assign(vg.Mux(vt.EmbeddedNumeric('k == 2'), vg.Unot(p['c']), vt.EmbeddedNumeric('k')))
    z = m.Reg('z')
    m.Always(vt.SensitiveAll())(z(vt.EmbeddedNumeric('k > 1'), blk=True))


@item('a b c', 'integer n; reg signed [3:0] q; initial begin n = -3; q = -4; end always @(posedge a) begin n = n / 2 + b; q <= q >>> 1; end assign o = {n < 0, q, n[3:0]};', 6)
def integers(m, o, p):
    n = m.Integer('n')
    q = m.Reg('q', 4, signed=True)
    m.Initial(n(-3), q(-4))
    m.Always(vg.Posedge(p['a']))(n(n / 2 + p['b'], blk=True), q(vt.Sra(q, 1)))
    o.assign(vg.Cat(n < 0, q, n[0:4]))


@item('a b c', 'wire t0; wire [2:0] t1; wire [1:0] t2; inv u0(.x(a), .y(t0)); add #(.W(3)) u1(.x({a, b, c}), .y(t1)); add u2({b, c}, t2); assign o = {t0, t1, t2}; endmodule '
      'module inv(input x, output y); assign y = ~x; endmodule module add #(parameter W = 2) (input [W-1:0] x, output [W-1:0] y); assign y = x + W;', 3)
def instances(m, o, p):
    inv = vg.Module('inv')
    x, y = inv.Input('x'), inv.Output('y')
    y.assign(vg.Unot(x))
    add = vg.Module('add')
    W = add.Parameter('W', 2)
    x, y = add.Input('x', W), add.Output('y', W)
    y.assign(x + W)
    t0, t1, t2 = m.Wire('t0'), m.Wire('t1', 3), m.Wire('t2', 2)
    m.Instance(inv, 'u0', ports=[('x', p['a']), ('y', t0)])
    m.Instance(add, 'u1', params=[('W', 3)], ports=[('x', vg.Cat(p['a'], p['b'], p['c'])), ('y', t1)])
    m.Instance(add, 'u2', ports=(vg.Cat(p['b'], p['c']), t2))
    o.assign(vg.Cat(t0, t1, t2))
