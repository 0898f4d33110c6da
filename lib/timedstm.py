"""Statements with delays, events and waits: tuples, their veriloggen form and their Verilog text."""
import re
import veriloggen as vg

#   ('=', target, expr, ldelay, rdelay)  ('#', n)  ('@', events)  ('wait', cond, body|None)  ('if', c, T, E|None)
#   ('for', n, body)  ('while', c, body)  ('forever', body)
CO = {'b': 'b', 'a == 1': 'a == 1', 'r > 2': 'r > 2', 's < 2': 's < 2'}
EX = {'r': 'r', 's': 's', 'r[0]': 'r[0]', 'r + 1': 'r + 1', 's + 1': 's + 1', 'a': 'a', 'b': 'b'}


def A(l, e, ld=None, rd=None):
    return ('=', l, e, ld, rd)


ONE = [A('r', 'r + 1'), A('s', 'a'), A('r[0]', 'b'), ('#', 3), ('#', 1), ('@', 'posedge clk'), ('@', 'negedge clk'), ('@', 'b'), ('@', 'posedge clk or posedge b'),
       ('@', 'a or negedge b'), ('wait', 'b', None), ('wait', 'a == 1', (A('s', 's + 1'),)), A('r', 'a', 2, None), A('r', 'a', None, 4), A('s', 'r', 1, 2)]
TWO = [('if', 'b', (('#', 2), A('r', 'a')), None), ('if', 'r > 2', (('@', 'posedge clk'),), (('#', 1), A('s', 'r'))), ('for', 2, (('#', 1), A('r', 'r + 1'))),
       ('for', 3, (('@', 'posedge clk'), A('s', 's + 1'))), ('while', 's < 2', (('#', 1), A('s', 's + 1'))), ('wait', 'b', (('#', 1), A('r', 'r + 1'), ('#', 2))), ('wait', 'r > 2', ())]
LAST = [('forever', (('#', 3), A('r', 'r + 1'))), ('forever', (('@', 'posedge clk'), A('s', 'r'), ('#', 1), A('r', 'a'))), ('forever', (('wait', 'b', None), ('#', 2), A('s', 's + 1')))]


def node(t, e):
    k = t[0]
    sub = lambda b: [node(x, e) for x in b]
    if k == '=':
        kw = {}
        if t[3] is not None:
            kw['ldelay'] = t[3]
        if t[4] is not None:
            kw['rdelay'] = t[4]
        return eval(EX[t[1]], {}, e)(eval(EX[t[2]], {}, e), **kw)
    if k == '#':
        return vg.Delay(t[1])
    if k == '@':
        ev = []
        for x in t[1].split(' or '):
            w = x.split()
            ev.append(e[w[-1]] if len(w) == 1 else (vg.Posedge if w[0] == 'posedge' else vg.Negedge)(e[w[-1]]))
        return vg.Event(*ev)
    if k == 'wait':
        w = vg.Wait(eval(CO[t[1]], {}, e))
        return w if t[2] is None else w(*sub(t[2]))
    if k == 'if':
        x = vg.If(eval(CO[t[1]], {}, e))(*sub(t[2]))
        return x if t[3] is None else x.Else(*sub(t[3]))
    if k == 'for':
        i = e['i']
        return vg.For(i(0), i < t[1], i(i + 1))(*sub(t[2]))
    if k == 'while':
        return vg.While(eval(CO[t[1]], {}, e))(*sub(t[2]))
    return vg.Forever(*sub(t[1]))


def text(t, k, op):
    n = lambda x: re.sub(r'\b([rsi])\b', lambda y: y.group(1) + str(k), x)
    body = lambda b: 'begin ' + ' '.join(text(x, k, op) for x in b) + ' end'
    h = t[0]
    if h == '=':
        return '%s%s %s %s%s;' % ('#%d ' % t[3] if t[3] is not None else '', n(t[1]), op, '#%d ' % t[4] if t[4] is not None else '', n(t[2]))
    if h == '#':
        return '#%d;' % t[1]
    if h == '@':
        return '@(%s);' % t[1]
    if h == 'wait':
        return 'wait(%s) %s' % (n(t[1]), ';' if t[2] is None else body(t[2]))
    if h == 'if':
        return 'if(%s) %s' % (n(t[1]), body(t[2])) + ('' if t[3] is None else ' else ' + body(t[3]))
    if h == 'for':
        return n('for(i = 0; i < %d; i = i + 1) ' % t[1]) + body(t[2])
    if h == 'while':
        return 'while(%s) %s' % (n(t[1]), body(t[2]))
    return 'forever ' + body(t[1])


NV = 12         # input waveforms
STEPS = 40      # time units compared


def module(progs, always):
    """the emitted module, the reference and the testbench"""
    m = vg.Module('dut')
    clk, b, a = m.Input('clk'), m.Input('b'), m.Input('a', 2)
    o = m.Output('o', 5 * len(progs))
    ref = ['module refm(input clk, input b, input [1:0] a, output [%d:0] o);' % (5 * len(progs) - 1)]
    cat = []
    head = {'posedge': 'always @(posedge clk)', 'level': 'always @(a or b)', None: 'initial'}[always]
    for k, p in enumerate(progs):
        e = dict(clk=clk, a=a, b=b, r=m.Reg('r%d' % k, 3), s=m.Reg('s%d' % k, 2), i=m.Integer('i%d' % k))
        m.Initial(e['r'](0), e['s'](0))
        st = [node(t, e) for t in p]
        if always == 'posedge':
            m.Always(vg.Posedge(clk))(*st)
        elif always == 'level':
            m.Always(a, b)(*st)
        else:
            m.Initial(*st)
        ref.append('reg [2:0] r%d; reg [1:0] s%d; integer i%d; initial begin r%d = 0; s%d = 0; end %s begin %s end' % (
            k, k, k, k, k, head, ' '.join(text(t, k, '=' if always is None else '<=') for t in p)))
        cat += [e['s'], e['r']]
    m.Assign(o(vg.Cat(*reversed(cat))))
    ref.append('assign o = {%s}; endmodule' % ', '.join('r%d, s%d' % (k, k) for k in reversed(range(len(progs)))))
    W = 5 * len(progs) - 1
    tb = ['module tb; reg [%d:0] rep; integer n, q, c; reg clk; initial begin rep = 0; n = 0; end' % len(progs)]
    # no two changes happen at the same instant, and none at a sampling instant
    tb.append('initial begin #0.05 clk = 0; #0.32; for(c = 0; c < 12; c = c + 1) begin #3.011 clk = ~clk; end end')
    for v in range(NV):
        tb.append('reg b%d; reg [1:0] a%d; wire [%d:0] u%d, w%d; dut du%d(.clk(clk), .b(b%d), .a(a%d), .o(u%d)); refm dw%d(.clk(clk), .b(b%d), .a(a%d), .o(w%d));' % (v, v, W, v, v, v, v, v, v, v, v, v, v))
        bits = [v >> i & 1 for i in range(4)]
        tb.append('initial begin #0.%03d b%d = %d; #0.011 a%d = %d; %s end' % (200 + v, v, bits[0], v, v % 3, ' '.join('#%d.%03d b%d = %d; #1.%03d a%d = %d;' % (
            4 + j, 100 + 17 * j + v, v, bits[j % 4] ^ (j // 4 & 1), 200 + 13 * j + v, v, (v * (j + 2) + j) % 4) for j in range(1, 6))))
    tb.append('initial begin #0.9995; while(n < %d) begin n = n + 1;' % STEPS)
    for v in range(NV):
        tb.append('if(u%d !== w%d) for(q = 0; q < %d; q = q + 1) if(u%d[5*q +: 5] !== w%d[5*q +: 5] && !rep[q]) begin rep[q] = 1; '
                  '$display("MIS %%0d wave %d t=%%0d got=%%b want=%%b", q, n, u%d[5*q +: 5], w%d[5*q +: 5]); end' % (v, v, len(progs), v, v, v, v, v))
    tb.append('#1; end $display("DONE %0d", n); $finish; end endmodule')
    return '`timescale 1ns/1ps\n' + m.to_verilog(), ref, tb


def programs(always, quick):
    if always is None:
        ps = [(x, y) for x in ONE + TWO for y in ONE + TWO + LAST] + [(x,) for x in ONE + TWO + LAST]
        tr = [(x, y, z) for x in ONE + TWO for y in ONE + TWO for z in ONE + TWO + LAST]
        return ps + (tr[::7] if quick else tr)
    ps = [(x, y) for x in ONE + TWO for y in ONE + TWO] + [(x,) for x in ONE + TWO]
    if not quick:
        ps += [(x, y, z) for x in ONE + TWO for y in ONE + TWO for z in ONE]
    return ps
