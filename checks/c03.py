"""C03: an imported Verilog module behaves as its source text."""
import collections
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import iv
import c01
import c02
import moditems
import timedstm

import veriloggen as vg
from veriloggen.verilog import from_verilog as fv
from pyverilog.vparser.parser import ParseError

Q = tier() == 'quick'


def blank():
    return dict(states=0, transitions=0, traces=0, counts={}, violations=[], samples=[])


def read(text):
    return fv.read_verilog_module_str(text)


def tables():
    """have the tables of the parser made once, not for every text"""
    import importlib.util
    import shutil
    import tempfile
    d, cwd = tempfile.mkdtemp(prefix='vg_c03t'), os.getcwd()
    os.chdir(d)
    try:
        read('module m(input a, output o); assign o = a; endmodule')
        spec = importlib.util.spec_from_file_location('pyverilog.vparser.parsetab', os.path.join(d, 'parsetab.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules['pyverilog.vparser.parsetab'] = mod
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def back(text, top):
    """the text, imported and emitted again"""
    return read(text)[top].to_verilog()


def oldstyle(text):
    """functions with the port list in the body: the parser knows no other"""
    def f(m):
        return 'function %s %s; %s; ' % (m.group(1), m.group(2), '; '.join(p.strip() for p in m.group(3).split(', ')))
    return re.sub(r'function (\[\d+:0\]) (\w+)\(([^)]*)\);', f, text)


# ---------------------------------------------------------------------------
# expressions, in every place
def exprs(bi, ts):
    res = blank()
    batch(res, ts)
    res['counts']['expressions'] = len(ts)
    return res


PORTS = [(n, w, sg) for n, w, sg in c01.PORTS]


def batch(res, ts):
    """ts: (number, tree); the number chooses where the expression stands"""
    r = ['(input trg, ' + ', '.join('input %s[%d:0] %s' % ('signed ' if sg else '', w - 1, n) for n, w, sg in PORTS)]
    body = ['wire [3:0] mem [0:7]; wire signed [3:0] smem [0:7]; wire [3:0] m2 [0:7][0:7];']
    for i in range(8):
        body.append('assign mem[%d] = s + %d; assign smem[%d] = s - %d;' % (i, 3 * i, i, 5 * i))
        for j in range(8):
            body.append('assign m2[%d][%d] = s ^ %d;' % (i, j, i + 2 * j))
    for i, t in ts:
        e = c01.ref(t)
        r.append(', output %s %s[%d:0] o%d' % ('wire' if i % 3 == 0 else 'reg', 'signed ' if i & 1 else '', c01.OW - 1, i))
        body.append(['assign o%d = %s;', 'always @(posedge trg) o%d <= %s;', 'always @(posedge trg) begin o%d = %s; end'][i % 3] % (i, e))
    text = ''.join(r) + ');\n' + '\n'.join(body) + '\nendmodule\n'
    try:
        got = back('module dut' + text, 'dut')
    except ParseError:
        if len(ts) > 1:
            batch(res, ts[:len(ts) // 2])
            batch(res, ts[len(ts) // 2:])
        else:
            res['counts']['the parser refuses'] = res['counts'].get('the parser refuses', 0) + 1
        return
    except Exception:
        if '/veriloggen/' not in exc_text():
            raise
        if len(ts) > 1:
            batch(res, ts[:len(ts) // 2])
            batch(res, ts[len(ts) // 2:])
        else:
            res['violations'].append(('expr:reject:%r' % (ts[0][1],), 'the import of %s fails: %s' % (c01.ref(ts[0][1]), exc_text()[-600:]), None))
        return
    tb = ['module tb; reg trg;'] + ['reg %s[%d:0] %s;' % ('signed ' if sg else '', w - 1, n) for n, w, sg in PORTS]
    for p, mod in (('x', 'dut'), ('y', 'refm')):
        tb.append('wire [%d:0] %s;' % (c01.OW - 1, ', '.join('%s%d' % (p, i) for i, _ in ts)))
        tb.append('%s %s_i(.trg(trg), %s);' % (mod, mod, ', '.join(['.%s(%s)' % (n, n) for n, _, _ in PORTS] + ['.o%d(%s%d)' % (i, p, i) for i, _ in ts])))
    tb.append('reg [%d:0] rep; integer v, n, k1, k2, k3; task cmp; begin trg = 0; #1; trg = 1; #1; n = n + 1;' % len(ts))
    for q, (i, t) in enumerate(ts):
        tb.append('if(x%d !== y%d && !rep[%d]) begin rep[%d] = 1; $display("MIS %d got=%%b want=%%b a=%%b b=%%b c=%%b e=%%b d=%%b s=%%b", x%d, y%d, a, b, c, e, d, s); end' % (i, i, q, q, q, i, i))
    tb.append('end endtask function [7:0] px; input integer k; case(k) 0: px = 8\'b0; 1: px = 8\'b01011011; 2: px = 8\'b1x0z1x10; 3: px = 8\'bx; 4: px = 8\'bz1z0z1z0; default: px = 8\'b11111x01; endcase endfunction')
    tb.append('initial begin rep = 0; n = 0; for(v = 0; v < 4096; v = v + 1) begin {a, b, c, e, d} = v[11:0]; s = v[7:0] * 8\'d37 + 8\'d11 + (v >> 3); cmp; end '
              'for(k1 = 0; k1 < 6; k1 = k1 + 1) for(k2 = 0; k2 < 6; k2 = k2 + 1) for(k3 = 0; k3 < 6; k3 = k3 + 1) begin a = px(k1); b = px(k2); c = px(k3); e = px(k1) >> 1; d = px(k2) >> 2; s = px((k1 + k3) % 6); cmp; end '
              '$display("DONE %0d", n); $finish; end endmodule')
    try:
        out = iv.simulate(got + '\nmodule refm' + text + '\n'.join(tb), tag='e')
    except iv.Reject as ex:
        if len(ts) > 1:
            batch(res, ts[:len(ts) // 2])
            batch(res, ts[len(ts) // 2:])
            return
        try:
            iv.simulate('module refm' + text, tag='er', check_only=True)
        except iv.Reject:
            res['counts']['the simulator refuses'] = res['counts'].get('the simulator refuses', 0) + 1
            return
        res['violations'].append(('expr:invalid:%r' % (ts[0][1],), '%s imported gives invalid Verilog: %s' % (c01.ref(ts[0][1]), str(ex)[:300]), got[-800:]))
        return
    n = 0
    for line in out.splitlines():
        if line.startswith('MIS'):
            i, t = ts[int(line.split()[1])]
            res['violations'].append(('expr:value:%d:%r' % (i % 3, t), '%s imported: %s' % (c01.ref(t), line), [l for l in got.splitlines() if re.search(r'\bo%d\b' % i, l)]))
        elif line.startswith('DONE'):
            n = int(line.split()[1])
    if not n:
        raise HarnessError('no DONE: ' + out[-400:])
    res['states'] += len(ts)
    res['transitions'] += n * len(ts)
    res['traces'] += len(ts)


# ---------------------------------------------------------------------------
# statements: the reference texts of C02 are the sources
verdict = c02.verdict


def imported(res, kind, progs, text, ref, tb, per):
    src = oldstyle('\n'.join(ref))
    try:
        got = back(src, 'refm')
    except ParseError:
        if len(progs) > 1:
            c02.RUN[kind](res, progs[:len(progs) // 2])
            c02.RUN[kind](res, progs[len(progs) // 2:])
        else:
            res['counts']['the parser refuses'] = res['counts'].get('the parser refuses', 0) + 1
        return
    got = re.sub(r'\bmodule refm\b', 'module dut', got)
    if kind != 'clocked' and isinstance(kind, tuple):
        got = '`timescale 1ns/1ps\n' + got
    verdict(res, kind, progs, got, ref, tb, per)


def funcs(res, progs):
    """function bodies"""
    ref = ['module refm(input [1:0] a, input b, input [4:0] z);']
    for k, p in enumerate(progs):
        ref.append('function [6:0] fn%d; input [4:0] z; input [1:0] a; input b; reg [2:0] r; reg [1:0] s; integer i; reg m0, m1; begin r = z[4:2]; s = z[1:0]; m0 = z[0]; m1 = z[4]; %s fn%d = {r, s, m1, m0}; end '
                   'endfunction wire [6:0] o%d; assign o%d = fn%d(z, a, b);' % (k, c02.words(c02.Writer('', True).body(p)), k, k, k, k))
    ref.append('endmodule')
    tb = ['module tb; reg [1:0] a; reg b; reg [4:0] z; integer v, n; reg [%d:0] rep; dut u(.a(a), .b(b), .z(z)); refm w(.a(a), .b(b), .z(z));' % len(progs)]
    tb.append('initial begin n = 0; rep = 0; #1; for(v = 0; v < 256; v = v + 1) begin {z, a, b} = v[7:0]; #1; n = n + 1;')
    for k in range(len(progs)):
        tb.append('if(u.o%d !== w.o%d && !rep[%d]) begin rep[%d] = 1; $display("MIS %d z=%%b a=%%b b=%%b got=%%b want=%%b", z, a, b, u.o%d, w.o%d); end' % (k, k, k, k, k, k, k))
    tb.append('end $display("DONE %0d", n); $finish; end endmodule')
    c02.verdict(res, 'routine', progs, None, ref, tb, 1)


def stat(kind, progs):
    c02.verdict = imported
    c02.RUN['routine'] = funcs
    return c02.stat(kind, progs)


# ---------------------------------------------------------------------------
# whole modules: (name, source with the module dut, inputs, outputs, depth)
def sources():
    S = []

    def add(name, text, ins='a:4 b:1', outs='o:4', depth=None, over=()):
        S.append((name, text, [(x.split(':')[0], int(x.split(':')[1])) for x in ins.split()], [(x.split(':')[0], int(x.split(':')[1])) for x in outs.split()], depth, over))
    for n, (f, ports, text, depth) in moditems.IT.items():
        par = re.match(r'((?:parameter [^;]*; )*)(.*)', text, re.S)
        add('items ' + n, 'module dut(%s, output [15:0] o); %s%s endmodule' % (', '.join('input ' + x for x in ports.split()), par.group(1), par.group(2)), ' '.join(x + ':1' for x in ports.split()), 'o:16', depth)

    # declarations of ports in every style
    for sign in ('', 'signed '):
        for w, rng in (('4', '[3:0]'), ('4', '[0:3]'), ('4', '[7:4]'), ('4', '[4:7]'), ('4', '[W-1:0]'), ('4', '[W:1]'), ('1', '')):
            for out in ('wire', 'reg', 'two'):
                for style in ('ansi', 'names', 'header', 'body'):
                    par = 'W' in rng
                    hi = {'[3:0]': 3, '[0:3]': 0, '[7:4]': 6, '[4:7]': 5, '[W-1:0]': 2, '[W:1]': 1, '': None}[rng]
                    o = 'output %s%s%s o' % ('reg ' if out == 'reg' else '', sign, rng)
                    i = 'input %s%s a' % (sign, rng)
                    pre = post = ''
                    if style in ('ansi', 'header'):
                        if par and style == 'ansi':
                            continue
                        head = ('#(parameter W = 4)' if par else '') + '(%s, input b, %s);' % (i, o)
                    elif style == 'names':
                        if par:
                            continue
                        head = '(a, b, o); %s; input b; %s;' % (i, o)
                    else:
                        if not par:
                            continue
                        head = '(a, b, o); parameter W = 4; localparam V = W; %s; input b; %s;' % (i.replace('W', 'V'), o)
                    if out == 'two':
                        if style in ('ansi', 'header'):
                            continue
                        post = 'reg %s%s o;' % (sign, rng)
                    val = 'b ? a >>> 1 : -a' if hi is None else 'b ? a >>> 1 : {3{a[%d]}} + a' % hi
                    body = 'assign o = %s;' % val if out == 'wire' else 'always @(a or b) o = %s;' % val
                    add('port %s%s %s %s' % (sign, rng, out, style), 'module dut%s %s %s endmodule' % (head, post, body), 'a:%s b:1' % w, 'o:' + w, None, ({}, {'W': 4}) if par else ())
    # constants
    for decl, e in (('localparam P = 3;', 'P'), ('localparam signed [2:0] P = -3;', 'P'), ('localparam [2:0] P = -3;', 'P'), ('parameter P = 3;', 'P'), ('parameter signed [2:0] P = -3;', 'P >>> 1'), ('parameter P = 3, R = P + 1;', 'R'),
                    ('parameter P = 3; localparam R = P;', 'R'), ('parameter P = 3; parameter R = P;', 'R'), ('localparam P = 3; localparam R = P;', 'R'), ('localparam P = 4\'b1x0z;', 'P'), ("localparam P = 4'sd9;", 'P >>> 1'),
                    ('localparam P = "A";', 'P'), ('parameter P = 8; localparam [P-1:0] R = ~0;', 'R >> 1')):
        add('constant ' + decl, 'module dut(input [3:0] a, input b, output [9:0] o); %s assign o = a + (%s); endmodule' % (decl, e), outs='o:10', over=({}, {'P': 5}) if 'parameter P' in decl else ())
    for e in ("8'hff", "'h1f", "4'sb1010", "12'o17", "'d12", "3'b1", "'sd7", "5'd31", "8'hzx", "2'b1x", "16'h_1_f", '1_0', "4'Sd3", "4'HA", "32'hffff_ffff", "40'hff_ffff_ffff", "'b101", "8 'h1f"):
        add('literal ' + e, "module dut(input [3:0] a, input b, output [41:0] o, output [41:0] p); assign o = %s; assign p = b ? -(%s) : a - (%s) * 2; endmodule" % (e, e, e), outs='o:42 p:42')
    # initial values and memories
    for t in ('reg [3:0] r = 3; always @(posedge b) r <= r + a; assign o = r;', 'integer r = 3; always @(posedge b) r <= r + a; assign o = r;', 'wire [3:0] r = a + 1; assign o = r;', 'wire signed [3:0] r = a; assign o = r >>> 1;',
              'reg [3:0] r [0:3]; integer i; initial for(i = 0; i < 4; i = i + 1) r[i] = i * 3; always @(posedge b) r[a[1:0]] <= a; assign o = r[a[3:2]];',
              'reg [3:0] r [3:0]; always @(posedge b) r[a[1:0]] <= a; assign o = r[a[3:2]];', 'reg [7:4] r [1:2]; always @(posedge b) r[1 + a[0]] <= a; assign o = r[1 + a[1]][6:5];',
              'reg [3:0] r [0:1][2:3]; always @(posedge b) r[a[0]][2 + a[1]] <= a; assign o = r[a[2]][2 + a[3]];', 'reg [3:0] r; always @(posedge b) {r[0], r[3:1]} <= a; assign o = r;',
              'reg [3:0] r [0:3]; always @(posedge b) r[a[1:0]][2:1] <= a; always @(posedge b) r[a[1:0]][0] <= a[3]; assign o = r[a[3:2]];',
              'reg [3:0] r; always @(posedge b or posedge a[0]) if(a[0]) r <= 0; else r <= r + a; assign o = r;', 'reg [3:0] r; always @(a or b) r = b ? a : r; assign o = r;', 'reg [3:0] r; always @(a, b) if(b) r = a; assign o = r;',
              'reg [3:0] r; always @* if(b) r = a; assign o = r;', 'reg [3:0] r; always @(a[0] or b) r = a; assign o = r;', 'reg [3:0] r, s; initial begin r = 0; s = 0; end always @(posedge b) begin r <= s; s <= r + a; end assign o = r;',
              'reg [3:0] r; always @(posedge b) begin : named r = a; r = r + 1; end assign o = r;', 'reg [3:0] r, s; initial begin r <= 3; s = r; s <= r; end assign o = b ? r : s;', 'reg [3:0] r; always_ff @(posedge b) r <= a; assign o = r;',
              'reg [3:0] r; always @(posedge b) begin r <= a; begin r <= r + a; ; end end assign o = r;', 'reg [3:0] r; always @(negedge b) r <= a <<< 1; assign o = r;', 'assign o = $signed(a) >>> 1;', 'assign o = $signed({a, b}) < 0 ? {4{b}} : {a[1:0], {2{b}}};',
              'reg [3:0] r; always @(*) case(a) 0, 1: r = 1; 2: begin end 3: ; 4: begin r = 2; r = r + b; end default: r = 3; endcase assign o = r;', 'reg [3:0] r; always @(*) case(a) 0: r = 1; endcase assign o = r;',
              "reg [3:0] r; always @(*) casex(a) 4'b1xx0: r = 1; 4'b0z1x: r = 2; 4'b01xx, 4'b1x1x: r = 4; default: r = 3; endcase assign o = r;", 'reg [3:0] r; always @(*) case(b) a[0]: r = 1; a[1]: r = 2; default: r = 3; endcase assign o = r;',
              'reg [3:0] r; always @(*) if(b) if(a[0]) r = 1; else r = 2; assign o = r;', 'reg [3:0] r; always @(*) if(b) begin if(a[0]) r = 1; end else r = 2; assign o = r;',
              'reg [3:0] r; always @(*) if(b) r = 1; else if(a[0]) r = 2; else if(a[1]) begin r = 3; end else r = 4; assign o = r;', 'reg [3:0] r; always @(*) if(b) ; else r = a; assign o = r;', 'reg [3:0] r; always @(*) if(b) begin end else begin r = a; end assign o = r;',
              'integer i; reg [3:0] r; always @(*) begin r = 0; for(i = 0; i < 4; i = i + 1) if(a[i]) r = r + i; end assign o = r;', 'integer i; reg [3:0] r; always @(*) begin r = 0; i = 0; while(i < a) begin r = r + i; i = i + 2; end end assign o = r;',
              'function [3:0] f; input [3:0] x; input y; reg [3:0] t; integer i; begin t = 0; for(i = 0; i < 4; i = i + 1) t = t + (x[i] ^ y); f = t; end endfunction assign o = f(a, b);', 'function f; input [3:0] x; f = ^x; endfunction assign o = {4{f(a)}} ^ b;',
              'function [3:0] f; input signed [3:0] x; f = x >>> 1; endfunction assign o = f(a);', 'function [3:0] f; input [3:0] x, y; f = x - y; endfunction assign o = f(a, b);', 'function [4:1] f; input [3:0] x; begin f = x; f[2] = 0; end endfunction assign o = f(a);',
              'function [3:0] g; input [3:0] x; g = x + 1; endfunction function [3:0] f; input [3:0] x; f = g(g(x)); endfunction assign o = f(a);', 'and g1(o[0], a[0], b); assign o[3:1] = a[2:0];', 'assign o[1:0] = a[3:2]; assign o[2] = b; assign o[3] = a[0];',
              'wire [3:0] x, y; assign x = a; assign y = x + 1; assign o = y;', 'reg x; wire [3:0] q; assign q = {4{x}}; always @(*) x = b; assign o = q;', 'assign o = t; wire [3:0] t; assign t = a;', 'assign {o[3], o[2:0]} = a + 5\'d3;',
              'wire [3:0] w; assign w = a; generate if(1) begin : g wire w; assign w = b; assign o = {4{w}}; end endgenerate'):
        add('body ' + t, 'module dut(input [3:0] a, input b, output [3:0] o); %s endmodule' % t, depth=2)
    # generate blocks
    for k, (g, w) in enumerate(generates(2 if Q else 3)):
        add('generate ' + g, 'module dut(input [3:0] a, input b, output [3:0] o); parameter P = 1; genvar i; genvar j; genvar k; generate %s endgenerate %s endmodule %s' % (g, w, LEAF), over=({}, {'P': 0}, {'P': 2}), depth=2 if 'always' in g else None)
    # instances
    for t in itertools.product(('#(.W(4)) ', '#(.W(4), .K(9)) ', '#(.K(P)) ', ''), ('(a, b, o)', '(.x(a), .y(b), .z(o))', '(.z(o), .x(a), .y())', '(.x({a[0], a[3:1]}), .y(a[0] & b), .z(o))', '(a, , o)', '(.x(a + 1), .z(o))'), ('before', 'after'), (0, 1, 2)):
        inst = 'child %su%s;' % (t[0], t[1])
        top = 'module dut(input [3:0] a, input b, output [3:0] o); parameter P = 6; %s endmodule' % inst
        subs = ['module child(x, y, z); parameter W = 4; parameter K = 5; input [W-1:0] x; input y; output [W-1:0] z; assign z = (y === 1\'b1 ? x : ~x) + K; endmodule',
                'module child(input [W-1:0] x, input y, output [W-1:0] z); parameter W = 3; parameter K = 5; leaf #(.N(W), .C(K + 1)) l(.p(x), .q(y), .r(z)); endmodule module leaf(p, q, r); parameter N = 1; parameter C = 0; input [N-1:0] p; input q; output [N-1:0] r; assign r = (q === 1\'b1 ? p : ~p) + C; endmodule',
                'module child #(parameter W = 4, parameter K = W + 1)(input [W-1:0] x, input y, output reg [W-1:0] z); localparam L = K; always @(*) z = (y === 1\'b1 ? x : ~x) + L; endmodule'][t[3 - 0]]
        add('instance ' + inst + ' %s %d' % t[2:], top + ' ' + subs if t[2] == 'after' else subs + ' ' + top, over=({}, {'P': 3}))
    return S


LEAF = 'module leaf(input p, output q); assign q = ~p; endmodule'


def generates(depth):
    """every nest of generate statements of a depth; each assigns the four bits of o"""
    out = []
    # what stands inside, for one bit with index e
    leaves = ['assign o[%(e)s] = a[%(e)s];', 'wire w; assign w = ~a[%(e)s]; assign o[%(e)s] = w;', 'leaf u(.p(a[%(e)s]), .q(o[%(e)s]));', 'reg r; always @(posedge b) r <= a[%(e)s]; assign o[%(e)s] = r;', 'localparam L = %(e)s; assign o[%(e)s] = a[(L + 1) %% 4] ^ b;',
              'reg r; initial begin if(P == 1) r = 1; else r = 0; end assign o[%(e)s] = r;', 'reg r; always @(a or b) begin if(b) r = a[%(e)s]; else r = 0; end assign o[%(e)s] = r;']

    def gen(d, e, lab, v):
        """(text) assigning bit e"""
        for l in leaves if d < 2 else leaves[:3]:
            yield l % {'e': e}
        if d == 0:
            return
        subs = list(gen(d - 1, e, lab + 'x', v)) if d > 1 else [l % {'e': e} for l in leaves]
        els = [l % {'e': e} for l in leaves[:4]]
        for q, s in enumerate(subs):
            t = els[q % len(els)]
            c = 'P == %s' % (e if e in v else '1')
            yield 'if(%s) begin : %s %s end else begin : %se %s end' % (c, lab, s, lab, t)
            yield 'if(%s) begin : %s %s end else begin : %se %s end' % (c, lab, t, lab, s)
            yield 'if(%s) begin %s end else begin %s end' % (c, s, t)
            if s.startswith('assign') or s.startswith('if'):
                yield 'if(%s) %s else begin : %s %s end' % (c, s, lab, t)
                yield 'if(%s) begin : %s %s end else %s' % (c, lab, t, s)
            yield 'if(P == 2) begin : %s %s end else if(%s) begin : %sf %s end else begin : %sg %s end' % (lab, t, c, lab, s, lab, els[(q + 1) % len(els)])
    # unrolled by a for, or written for each bit
    for q, t in enumerate(gen(depth - 1, 'i', 'g', 'ijk')):
        out.append(('for(i = 0; i < 4; i = i + 1) begin : lp %s end' % t, ''))
        if q % 4 == 0:
            out.append(('for(i = 0; i < 4; i = i + 1) begin %s end' % t if 'wire' not in t else 'for(i = 3; i >= 0; i = i - 1) begin : lp %s end' % t, ''))
    for q, t in enumerate(gen(depth - 1, '(2 * i + j)', 'g', 'ijk')):
        out.append(('for(i = 0; i < 2; i = i + 1) begin : lp for(j = 0; j < 2; j = j + 1) begin : lq %s end end' % t, ''))
    # several statements, names below the scopes
    out.append(('for(i = 0; i < 4; i = i + 1) begin : lp wire w; assign w = a[i]; end', 'assign o = {lp[0].w, lp[1].w, lp[2].w, lp[3].w};'))
    out.append(('if(P == 1) begin : s wire [3:0] w; assign w = a; end else begin : s wire [3:0] w; assign w = ~a; end', 'assign o = s.w;'))
    out.append(('if(P == 1) begin : s wire [3:0] w; assign w = a; end if(P != 1) begin : t wire [3:0] w; assign w = ~a; end', 'assign o = a;'))
    out.append(('for(i = 0; i < 2; i = i + 1) begin : lp for(j = 0; j < 2; j = j + 1) begin : lq wire [1:0] w; assign w = a[i + j] + b; end end', 'assign o = {lp[0].lq[1].w, lp[1].lq[0].w};'))
    return out


def emitted(name, text, over):
    """the module itself"""
    return read(text)['dut'].to_verilog()


def filed(name, text, over):
    """the modules of files, one in each, with an include file and a macro"""
    parts = [p for p in re.split(r'(?<=endmodule)\s+', text) if p.strip()]
    names = []
    for k, p in enumerate(parts):
        head, body = p.split(';', 1)
        with open('inc%d.vh' % k, 'w') as f:
            f.write(body)
        with open('src%d.v' % k, 'w') as f:
            f.write('`ifdef SOME\n%s;\n`include "inc%d.vh"\n`else\nmodule %s(); endmodule\n`endif\n' % (head, k, re.search(r'module (\w+)', p).group(1)))
        names.append('src%d.v' % k)
    return fv.read_verilog_module(*names, define=('SOME',), include=(os.getcwd(),))['dut'].to_verilog()


def inside(name, text, over):
    """instantiated in a module made here, from a copy of its ports; its parameters are passed on"""
    m = read(text)['dut']
    top = vg.Module('wrapdut')
    top.copy_params(m)
    top.copy_localparams(m)
    top.copy_ports(m)
    top.Instance(m, 'u', params=[(k, top.get_params()[k]) for k in (over and over[-1] or {})], ports=[(k, top.get_ports()[k]) for k in m.get_ports()])
    return top.to_verilog()


def stubbed(name, text, over):
    """only the interface is imported and instantiated; the source text stands beside"""
    m = fv.read_verilog_stubmodule_str(text)['dut']
    top = vg.Module('wrapdut')
    par = {k: top.Parameter(k, 4 if k == 'W' else 3 if '= 3' in text else 8 if 'P = 8' in text else 6 if 'P = 6' in text else 1) for k in (over and over[-1] or {})}
    real = read(text)['dut']
    top.copy_ports(real)
    top.Instance(m, 'u', params=[(k, v) for k, v in par.items()], ports=[(k, top.get_ports()[k]) for k in real.get_ports()])
    return top.to_verilog()


def changed(name, text, over):
    """the imported module is extended by a port that counts nothing away, and given another name"""
    m = read(text)['dut']
    x = m.OutputReg('added_o', 3, initval=0)
    m.Always(vg.Posedge(m.get_ports()['b']) if 'b' in m.get_ports() else vg.Posedge(list(m.get_ports().values())[0]))(x(x + 1))
    m.name = 'wrapdut'
    return m.to_verilog()


HOWS = ['emitted', 'filed', 'inside', 'stubbed', 'changed']


def whole(part, how='emitted'):
    res = blank()
    mods(res, part, how)
    res['counts']['modules'] = len(part)
    return res


def mods(res, part, how):
    """each against its source, over every input sequence to its depth, with every override of its parameters"""
    texts, tb, todo = [], ['module tb;'], []
    for k, (name, text, ins, outs, depth, over) in enumerate(part):
        try:
            got = globals()[how](name, text, over)
        except ParseError:
            res['counts']['the parser refuses'] = res['counts'].get('the parser refuses', 0) + 1
            continue
        except Exception:
            if '/veriloggen/' not in exc_text():
                raise
            res['violations'].append(('whole:%s:reject:%s' % (how, name), 'the import of "%s" fails: %s' % (name, exc_text()[-500:]), text))
            continue
        w = sum(x for _, x in ins)
        d = depth or 1
        while w * d > 12:
            d -= 1
        d = max(d, 1)
        names = set(re.findall(r'\bmodule\s+(\w+)', text) + re.findall(r'\bmodule\s+(\w+)', got))
        ren = lambda t, p: re.sub(r'\b(%s)\b' % '|'.join(sorted(names)), lambda m: '%s%d_%s' % (p, k, m.group(1)), t)
        texts += [ren(text, 'R'), ren(got, 'G')]
        todo.append((k, got))
        n = len(over or ((),))
        tb.append(' '.join('reg [%d:0] %s_%d;' % (x - 1, a, k) for a, x in ins))
        for q, ov in enumerate(over or ({},)):
            for p in 'RG':
                n_dut = 'dut' if p == 'R' or how in ('emitted', 'filed') else 'wrapdut'
                tb.append(' '.join('wire [%d:0] %s%s_%d_%d;' % (x - 1, p, a, k, q) for a, x in outs))
                tb.append('%s%d_%s %s%s%d_%d(%s);' % (p, k, n_dut, '#(%s) ' % ', '.join('.%s(%s)' % z for z in ov.items()) if ov else '', p + 'i', k, q,
                                                       ', '.join(['.%s(%s_%d)' % (a, a, k) for a, _ in ins] + ['.%s(%s%s_%d_%d)' % (a, p, a, k, q) for a, _ in outs])))
        cat = '{%s}' % ', '.join('%s_%d' % (a, k) for a, _ in ins)
        tb.append('integer v%d, j%d; reg bad%d; initial begin bad%d = 0; %s = 0; #1;' % (k, k, k, k, cat))
        # the ports are as wide
        for a, x in ins + outs:
            tb.append('if($bits(Ri%d_0.%s) != $bits(Gi%d_0.%s)) $display("MIS %d width of %s");' % (k, a, k, a, k, a))
        tb.append('for(v%d = 0; v%d < %d; v%d = v%d + 1) for(j%d = 0; j%d < %d; j%d = j%d + 1) begin %s = v%d >> (%d * j%d); #1;' % (k, k, 1 << w * d, k, k, k, k, d, k, k, cat, k, w, k))
        cmps = ['(%s)' % ' || '.join('R%s_%d_%d !== G%s_%d_%d' % (a, k, q, a, k, q) for a, _ in outs) for q in range(n)]
        tb.append('if(!bad%d && (%s)) begin bad%d = 1; $display("MIS %d in=%%b want=%%b got=%%b", %s, {%s}, {%s}); end end $display("END %d"); end' % (
            k, ' || '.join(cmps), k, k, cat, ', '.join('R%s_%d_%d' % (a, k, q) for q in range(n) for a, _ in outs), ', '.join('G%s_%d_%d' % (a, k, q) for q in range(n) for a, _ in outs), k))
        res['transitions'] += (1 << w * d) * d * n
    if not todo:
        return
    tb.append('endmodule')
    try:
        out = iv.simulate('\n'.join(texts + tb), tag='w')
    except iv.Reject as ex:
        if len(part) > 1:
            mods(res, part[:len(part) // 2], how)
            mods(res, part[len(part) // 2:], how)
            return
        try:
            iv.simulate(texts[0], tag='wr', check_only=True)
        except iv.Reject as e2:
            res['counts']['the simulator refuses the source'] = res['counts'].get('the simulator refuses the source', 0) + 1
            res['samples'].append('refused by the simulator: %s: %s' % (part[0][0], str(e2)[:200]))
            return
        res['violations'].append(('whole:%s:invalid:%s' % (how, part[0][0]), '"%s" imported gives invalid Verilog: %s' % (part[0][0], str(ex)[:300]), todo[0][1]))
        return
    seen = set()
    ends = sum(1 for l in out.splitlines() if l.startswith('END'))
    if ends != len(todo):
        raise HarnessError('ended %d of %d: %s' % (ends, len(todo), out[-300:]))
    for l in out.splitlines():
        if l.startswith('MIS'):
            k = int(l.split()[1])
            if k not in seen:
                seen.add(k)
                res['violations'].append(('whole:%s:value:%s' % (how, part[k][0]), '"%s" imported: %s' % (part[k][0], l[:300]), dict(todo)[k]))
    res['states'] += len(todo)
    res['traces'] += len(todo)


# ---------------------------------------------------------------------------
def dispatch(it):
    return globals()[it[0]](*it[1:])


def items():
    its = []
    ts = list(enumerate(c01.trees()))
    ts = ts[::3] if Q else ts
    ts = [(j, t) for j, (i, t) in enumerate(ts)]
    n = 250
    its += [('exprs', k, ts[k:k + n]) for k in range(0, len(ts), n)]
    ps = c02.programs()[::3 if Q else 1]
    n = 300
    its += [('stat', 'clocked', ps[k:k + n]) for k in range(0, len(ps), n)]
    cs = [p for p in ps if not c02.uses(p, "'a - b'")][::2]
    its += [('stat', 'comb', cs[k:k + n]) for k in range(0, len(cs), n)]
    fs = [p for p in ps if not c02.uses(p, 'f(r, a)', 'm[b]')][::2]
    its += [('stat', 'routine', fs[k:k + n]) for k in range(0, len(fs), n)]
    for al in (None, 'posedge', 'level'):
        tp = [p for p in timedstm.programs(al, True) if parsable(p)][::2 if Q else 1]
        its += [('stat', ('timed', al), tp[k:k + n]) for k in range(0, len(tp), n)]
    ss = sources()
    for how in HOWS:
        # a stub is printed by the parser's own printer, without the modules inside: only simple ones
        sh = [x for x in ss if x[0].startswith(('port', 'constant')) and ' body' not in x[0]] if how == 'stubbed' else ss
        its += [('whole', sh[k:k + 25], how) for k in range(0, len(sh), 25)]
    return its


def parsable(p):
    """the parser has no list of levels and edges and no statement after an event"""
    t = ' '.join(timedstm.text(x, 0, '=') for x in p)
    return not re.search(r'@\([^)]*\) *[^; ]', t) and not any('edge' in m and re.search(r'(^| or |, *)(?!posedge|negedge)\w', m) for m in re.findall(r'@\(([^)]*)\)', t))


def main():
    c = Check('C03')
    its = items()
    if len(sys.argv) > 1:
        its = [i for i in its if sys.argv[1] in str(i[:2])[:60] + str(i[2:])[-12:]]
    tables()
    for r in pmap(dispatch, its, 'c03'):
        c.absorb(r)
    c.assumptions = ['the language semantics are those of Icarus Verilog on the source text', 'texts that pyverilog cannot parse, and constructs the importer refuses with a TypeError, are outside', 'pyverilog does not tell always without an event control from always @*']
    c.finish()


if __name__ == '__main__':
    main()
