"""Statement shapes for Seq/FSM whose emission forms must be equivalent.
Each entry: f(put, E) where put(*statements) adds statements to the Seq (or to
FSM states); E as in seqm."""
import veriloggen as vg
import veriloggen.core.vtypes as vt


def s_case(put, E):
    put(vt.Case(E['cnt'][0:2])(
        vt.When(0)(E['x'](E['x'] + 1)),
        vt.When(1, 2)(E['y'](E['cnt']), E['x'](3)),
        vt.When()(E['z'](E['y'] + E['a']))))


def s_casex(put, E):
    put(vt.Casex(vt.Cat(E['a'], E['b'], E['cnt'][0:2]))(
        vt.When(vt.Int("4'b1xx0"))(E['x'](E['x'] + 1)),
        vt.When(vt.Int("4'bx1x1"))(E['y'](E['cnt'])),
        vt.When()(E['z'](E['y'] + E['a']))))


def s_if(put, E):
    put(vt.If(E['a'])(
        vt.If(E['b'])(E['x'](E['cnt'])).Else(E['y'](E['x'] + E['cnt']))
    ).Elif(E['cnt'][0])(E['z'](E['z'] + 1)).Else(E['x'](E['z']), E['w'](E['cnt'][1])))


def tmp(E, name, w=4):
    # no initial value: never reset, only written by blocking assignments
    return E['m'].Reg(name, w)


def s_blk(put, E):
    t, u = tmp(E, 'bt'), tmp(E, 'bu')
    put(t(E['cnt'] + E['a'], blk=True), u(t + 1, blk=True), E['x'](u), E['z'](t + E['b']))


def s_for(put, E):
    i, t = E['m'].Integer('i'), tmp(E, 'bt')
    put(t(0, blk=True),
        vt.For(i(0), i < 4, i(i + 1))(
            vt.If(E['cnt'][i])(t(t + 1, blk=True))),
        E['x'](t), E['y'](t + E['cnt']))


def s_while(put, E):
    i, t = E['m'].Integer('i'), tmp(E, 'bt')
    put(t(E['cnt'], blk=True), i(0, blk=True),
        vt.While(i < 3)(t(t + i, blk=True), i(i + 1, blk=True)),
        E['x'](t + E['b']))


def s_mem2d(put, E):
    m2 = E['m'].Wire('m2', 4, dims=(2, 4))
    for i in range(2):
        for j in range(4):
            E['m'].Assign(m2[i][j](E['cnt'] + i * 5 + j * 3))
    put(E['x'](m2[E['a']][E['cnt'][0:2]]), E['y'](m2[E['b']][E['x'][0:2]] + 1))


def s_mem1d(put, E):
    put(E['x'](E['mem'][E['cnt'][0:2]]), E['y'](E['mem'][E['x'][2:4]] + E['mem'][0]))


def s_param(put, E):
    L = E['m'].Localparam('LW', 5)
    Pw = E['m'].Parameter('PW', 3)
    v = E['m'].Wire('pw', Pw)
    v.assign(E['cnt'] + 1)
    put(vt.If(E['cnt'] > L)(E['x'](v + Pw)), E['y'](L + E['a']))


def s_signed(put, E):
    s = E['m'].Wire('sg', 4, signed=True)
    t = E['m'].Reg('sgr', 4, initval=-2, signed=True)
    s.assign(E['cnt'] + E['a'])
    put(t(s), vt.If(s < t)(E['x'](vt.Sra(t, 1))).Else(E['y'](vt.Sra(s, 2))), E['z'](vt.Mux(t > s, t, s)))


def s_bits(put, E):
    put(vt.If(vt.Uxor(E['cnt']))(E['x'](vt.Cat(E['a'], E['cnt'][3], vt.Repeat(E['b'], 2)))),
        E['y'](vt.Cond(E['cnt'][1], E['cnt'] ^ 5, ~E['x'])), E['w'](vt.Land(E['a'], E['b'])))


NOMOD = [s_for, s_while]   # local loop variables: partial assignment, not supported by as_module
SPECIAL = [s_case, s_casex, s_if, s_blk, s_for, s_while, s_mem2d, s_mem1d, s_param, s_signed, s_bits]
