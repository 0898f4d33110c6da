"""C14: AXI streams deliver every word once, in order, under every tvalid/tready schedule."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import Check, pmap, tier  # noqa
import rtl  # noqa
import axsmon  # noqa
import aximon  # noqa
import axicfgs  # noqa

I, O = dict(datawidth=8, addrwidth=6), dict(datawidth=8, addrwidth=6)


def P(**kw):
    """all combinations"""
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


def ext(d, **kw):
    return dict(d, **kw)


EV = '\nev0.value = %d'


def configs(t):
    th = t == 'thorough'
    C = {}
    R8, R16, R32, R4 = ('R', 8, 3), ('R', 16, 2), ('R', 32, 2), ('R', 4, 3)
    SZ = [1, 2, 3, 5] + ([4, 7, 8] if th else [])
    # --- input
    C['in read'] = dict(si=I, progs=['d, l = si.read()\nres0.value = (d & 255) + l * 256\nev0.value = 1\nd, l = si.read()\nres0.value = (d & 255) + l * 256\nev0.value = 2\n'
                                     'd, l = si.read()\nres0.value = (d & 255) + l * 256\nev0.value = 3'], params=[{}], resw=9)
    C['in read nolast'] = dict(si=ext(I, with_last=False), progs=['d = si.read()[0]\nres0.value = d\nev0.value = 1\nres0.value = si.read()[0]\nev0.value = 2'], params=[{}], resw=8)
    C['in ids'] = dict(si=ext(I, with_strb=True, id_width=2, user_width=2, dest_width=2), rams={'r': R8},
                       progs=['d, l = si.read()\nres0.value = (d & 255) + l * 256\nev0.value = 1\nsi.dma_read(r, 0, sz)\nev0.value = 2'], params=P(sz=[2]), resw=9)
    one = 'si.dma_read(r, la, sz, %s)\nev0.value = 1'
    for nm, r in (('same', R8), ('narrow2', R16), ('narrow4', R32), ('wide2', R4), ('mb', ('M', 8, 2, 2)), ('mbn', ('M', 16, 2, 2)), ('tuple', ('T', [('R', 8, 2), ('R', 8, 2)])),
                  ('wide4', ('R', 2, 3)), ('narrow3', ('R', 24, 2))):
        aw = 3 if nm in ('mb', 'tuple', 'mbn') else r[2]
        szs = [s for s in SZ if s <= 1 << aw]
        C['in dma ' + nm] = dict(si=I, rams={'r': r}, progs=[one % 'st'], params=P(la=[0, 1, (1 << aw) - 1], sz=szs, st=[1, 2] if not th else [1, 2, 3]))
        C['in dma read back ' + nm] = dict(si=I, rams={'r': r}, progs=[
            'si.dma_read(r, la, sz)\nres0.value = r.read(la + sz - 1)\nev0.value = 1\nr.write(la, 1)\nsi.dma_read(r, la + 1, sz)\nres0.value = r.read(la)\nev0.value = 2'],
            params=P(la=[0], sz=[1, 2, 3]), resw=dict(mb=8, tuple=8, mbn=16).get(nm) or r[1])
        if nm == 'tuple':
            del C['in dma read back tuple']
        C['in async ' + nm] = dict(si=I, rams={'r': r}, progs=[
            'si.dma_read_async(r, 0, sz)\nsi.dma_read_async(r, sz, 2)\nsi.dma_wait_read()\nev0.value = 1'], params=P(sz=[1, 2]))
    for w, rw in ((24, 8), (24, 4), (40, 8)):
        k = w // rw
        C['in dma wide %d/%d' % (w, rw)] = dict(si=ext(I, datawidth=w), rams={'r': ('R', rw, 3)}, progs=['si.dma_read(r, la, sz, st)\nev0.value = 1'], params=P(la=[1], sz=[1, 2, 3, 4, 6, 7, 8], st=[1]))
        C['out dma wide %d/%d' % (w, rw)] = dict(so=ext(O, datawidth=w), rams={'r': ('R', rw, 3)}, progs=['so.dma_write(r, la, sz, st)\nev0.value = 1\nso.dma_write_async(r, 0, 4)\nso.dma_wait_write()\nev0.value = 2'], params=P(la=[1], sz=[1, 2, 3, 4, 6, 7, 8], st=[1]))
        C['in fifo wide %d/%d' % (w, rw)] = dict(si=ext(I, datawidth=w), icls='AXIStreamInFifo', fifos={'f': (rw, 2)}, progs=['si.dma_read(f, sz)\nev0.value = 1', 'for i in range(sz):\n    res1.value = f.deq()\n    ev1.value = i + 1'], params=P(sz=[k, 2 * k]), resw=rw, sync=False)
        C['out fifo wide %d/%d' % (w, rw)] = dict(so=ext(O, datawidth=w), ocls='AXIStreamOutFifo', fifos={'f': (rw, 2)}, progs=['for i in range(sz):\n    f.enq(i * 7 + 3)\n    ev0.value = i + 1', 'so.dma_write(f, sz)\nev1.value = 1'], params=P(sz=[k, 2 * k]), sync=False)
    C['in two rams'] = dict(si=I, rams={'r': R8, 's': R8}, progs=[
        'si.dma_read(r, 0, sz)\nev0.value = 1\nsi.dma_read(s, 1, 2)\nev0.value = 2\nsi.dma_read(r, 4, 1)\nev0.value = 3'], params=P(sz=[1, 2]))
    C['in mixed widths'] = dict(si=I, rams={'r': R8, 's': R16, 'u': R4}, progs=[
        'si.dma_read_async(r, 0, sz)\nsi.dma_read_async(s, 1, 2)\nsi.dma_read_async(u, 0, 3)\nsi.dma_wait_read()\nev0.value = 1\nd, l = si.read()\nres0.value = (d & 255) + l * 256\nev0.value = 2\n'
        'si.dma_read(s, 0, 1)\nev0.value = 3'], params=P(sz=[1, 2]), resw=9)
    C['in two rams wide'] = dict(si=I, rams={'r': R4, 's': R4}, progs=[
        'si.dma_read_async(r, 0, 3)\nsi.dma_read_async(s, 1, sz)\nsi.dma_wait_read()\nev0.value = 1\nsi.dma_read(r, 4, 1)\nev0.value = 2'], params=P(sz=[1, 2]))
    C['in two rams narrow'] = dict(si=I, rams={'r': R16, 's': R16}, progs=[
        'si.dma_read_async(r, 0, 2)\nsi.dma_read_async(s, 1, sz)\nsi.dma_wait_read()\nev0.value = 1\nsi.dma_read(r, 3, 1)\nev0.value = 2'], params=P(sz=[1, 2]))
    C['in two ports'] = dict(si=I, rams={'r': ('R', 8, 3, 3)}, progs=[
        'si.dma_read_async(r, 0, 2, port=0)\nsi.dma_read_async(r, 4, sz, port=2)\nsi.dma_wait_read()\nev0.value = 1'], params=P(sz=[1, 2]))
    C['in many'] = dict(si=ext(I, req_fifo_addrwidth=2), rams={'r': R8}, progs=[
        'for i in range(5):\n    si.dma_read_async(r, i, 1)\nsi.dma_wait_read()\nev0.value = 1'], params=[{}])
    C['in mod'] = dict(si=ext(I, fsm_as_module=True), rams={'r': R8, 's': R16}, progs=[
        'si.dma_read(r, 1, sz)\nev0.value = 1\nsi.dma_read_async(s, 0, 1)\nsi.dma_read_async(s, 2, 1)\nsi.dma_wait_read()\nev0.value = 2'], params=P(sz=[1, 3]))
    # --- output
    C['out write'] = dict(so=O, progs=['so.write(x, 0)\nev0.value = 1\nso.write(x + 1, 1)\nev0.value = 2\nso.write(7)\nev0.value = 3'], params=P(x=[5, 200]))
    C['out write nolast'] = dict(so=ext(O, with_last=False), progs=['so.write(x)\nev0.value = 1\nso.write(x + 1)\nev0.value = 2'], params=P(x=[5]))
    C['out write strb'] = dict(so=ext(O, datawidth=16, with_strb=True), rams={'r': R16}, progs=['so.write(x, 1)\nev0.value = 1\nso.dma_write(r, 1, 2)\nev0.value = 2'], params=P(x=[5]))
    C['out write user'] = dict(so=ext(O, user_width=2), rams={'r': R8}, progs=['so.write(x, 1)\nev0.value = 1\nso.dma_write(r, 1, 2)\nev0.value = 2'], params=P(x=[5]))
    C['out write ids'] = dict(so=ext(O, id_width=2, dest_width=3), rams={'r': R8}, progs=['so.write(x, 1)\nev0.value = 1\nso.dma_write(r, 1, 2)\nev0.value = 2'], params=P(x=[5]))
    one = 'so.dma_write(r, la, sz, %s)\nev0.value = 1'
    for nm, r in (('same', R8), ('narrow2', R16), ('narrow4', R32), ('wide2', R4), ('mb', ('M', 8, 2, 2)), ('mbn', ('M', 16, 2, 2)), ('tuple', ('T', [('R', 8, 2), ('R', 8, 2)])),
                  ('wide4', ('R', 2, 3)), ('narrow3', ('R', 24, 2))):
        aw = 3 if nm in ('mb', 'tuple', 'mbn') else r[2]
        szs = [s for s in SZ if s <= 1 << aw]
        C['out dma ' + nm] = dict(so=O, rams={'r': r}, progs=[one % 'st'], params=P(la=[0, 1, (1 << aw) - 1], sz=szs, st=[1, 2] if not th else [1, 2, 3]))
        C['out overwrite ' + nm] = nm != 'tuple' and dict(so=O, rams={'r': r}, progs=[
            'so.dma_write(r, la, sz)\nev0.value = 1\nr.write(la + sz - 1, 1)\nr.write(la, 2)\nso.dma_write(r, la, sz)\nev0.value = 2\nr.write(la, 3)\nso.write(9, 1)\nev0.value = 3'],
            params=P(la=[0], sz=[1, 2, 3]))
        C['out async ' + nm] = dict(so=O, rams={'r': r}, progs=[
            'so.dma_write_async(r, 0, sz)\nso.dma_write_async(r, sz, 2)\nso.dma_wait_write()\nev0.value = 1'], params=P(sz=[1, 2]))
    C['out two rams'] = dict(so=O, rams={'r': R8, 's': R8}, progs=[
        'so.dma_write(r, 0, sz)\nev0.value = 1\nso.dma_write(s, 1, 2)\nev0.value = 2\nso.dma_write(r, 4, 1)\nev0.value = 3'], params=P(sz=[1, 2]))
    C['out two rams async'] = dict(so=O, rams={'r': R8, 's': R8}, progs=[
        'so.dma_write_async(r, 0, sz)\nso.dma_write_async(s, 1, 2)\nso.dma_write_async(r, 4, 1)\nso.dma_wait_write()\nev0.value = 1\nso.write(3, 1)\nev0.value = 2'], params=P(sz=[1, 2]))
    C['out mixed widths'] = dict(so=O, rams={'r': R8, 's': R16, 'u': R4}, progs=[
        'so.dma_write_async(r, 0, sz)\nso.dma_write_async(s, 1, 2)\nso.dma_write_async(u, 0, 3)\nso.dma_wait_write()\nev0.value = 1\nso.write(8, 1)\nev0.value = 2\nso.dma_write(s, 0, 1)\nev0.value = 3'], params=P(sz=[1, 2]))
    C['out two rams wide'] = dict(so=O, rams={'r': R4, 's': R4}, progs=[
        'so.dma_write_async(r, 0, 3)\nso.dma_write_async(s, 1, sz)\nso.dma_wait_write()\nev0.value = 1\nso.dma_write(r, 4, 1)\nev0.value = 2'], params=P(sz=[1, 2]))
    C['out two rams narrow'] = dict(so=O, rams={'r': R16, 's': R16}, progs=[
        'so.dma_write_async(r, 0, 2)\nso.dma_write_async(s, 1, sz)\nso.dma_wait_write()\nev0.value = 1\nso.dma_write(r, 3, 1)\nev0.value = 2'], params=P(sz=[1, 2]))
    C['out two ports'] = dict(so=O, rams={'r': ('R', 8, 3, 3)}, progs=[
        'so.dma_write_async(r, 0, 2, port=0)\nso.dma_write_async(r, 4, sz, port=2)\nso.dma_wait_write()\nev0.value = 1'], params=P(sz=[1, 2]))
    C['out many'] = dict(so=ext(O, req_fifo_addrwidth=2), rams={'r': R8}, progs=[
        'for i in range(5):\n    so.dma_write_async(r, i, 1)\nso.dma_wait_write()\nev0.value = 1'], params=[{}])
    C['out mod'] = dict(so=ext(O, fsm_as_module=True), rams={'r': R8, 's': R16}, progs=[
        'so.dma_write(r, 1, sz)\nev0.value = 1\nso.dma_write_async(s, 0, 1)\nso.dma_write_async(s, 2, 1)\nso.dma_wait_write()\nev0.value = 2'], params=P(sz=[1, 3]))
    # --- both
    C['loop'] = dict(si=I, so=O, rams={'r': R8}, progs=['si.dma_read(r, 0, sz)\nev0.value = 1\nso.dma_write(r, 0, sz)\nev0.value = 2'], params=P(sz=[1, 3]))
    C['loop word'] = dict(si=I, so=O, progs=['for i in range(3):\n    d, l = si.read()\n    so.write(d + 1, l)\n    ev0.value = i + 1'], params=[{}])
    # --- FIFOs
    FI, FO = 'AXIStreamInFifo', 'AXIStreamOutFifo'
    for nm, (dw, aw) in (('same', (8, 2)), ('narrow2', (16, 2)), ('narrow4', (32, 2)), ('wide2', (4, 2)), ('wide4', (2, 3))):
        pk = max(1, 8 // dw)
        S1 = [pk, 2 * pk] + ([3 * pk] if pk < 4 else [])
        C['in fifo ' + nm] = dict(si=I, icls=FI, fifos={'f': (dw, aw)}, progs=['si.dma_read(f, sz)\nev0.value = 1',
                                  'for i in range(sz):\n    res1.value = f.deq()\n    ev1.value = i + 1'], params=P(sz=S1), resw=dw, sync=False)
        C['in fifo twice ' + nm] = dict(si=I, icls=FI, fifos={'f': (dw, aw)}, progs=['si.dma_read_async(f, %d)\nsi.dma_read(f, sz)\nev0.value = 1\n' % pk + ('d, l = si.read()\nres0.value = d' if nm == 'same' else 'pass'),
                                        'for i in range(sz + %d):\n    res1.value = f.deq()\n    ev1.value = i + 1' % pk], params=P(sz=[pk, 2 * pk]), resw=dw, sync=False)
        C['out fifo ' + nm] = dict(so=O, ocls=FO, fifos={'f': (dw, aw)}, progs=['for i in range(sz):\n    f.enq(i * 3 + 129 + i * 4660 + i)\n    ev0.value = i + 1', 'so.dma_write(f, sz)\nev1.value = 1'],
                                   params=P(sz=S1), sync=False)
        C['out fifo twice ' + nm] = dict(so=O, ocls=FO, fifos={'f': (dw, aw)}, progs=['for i in range(sz + %d):\n    f.enq(i * 3 + 129 + i * 4660 + i)\n    ev0.value = i + 1' % pk,
                                         'so.dma_write_async(f, %d)\nso.dma_write(f, sz)\nev1.value = 1\nso.write(77, 1)\nev1.value = 2' % pk], params=P(sz=[pk, 2 * pk]), sync=False)
    C['in two fifos'] = dict(si=I, icls=FI, fifos={'f': (8, 2), 'h': (8, 2)}, progs=[
        'si.dma_read(f, 1)\nsi.dma_read_async(h, 2)\nsi.dma_wait_read()\nres0.value = f.deq()\nev0.value = 1\nres0.value = h.deq()\nev0.value = 2\nres0.value = h.deq()\nev0.value = 3'], params=[{}], resw=8)
    C['in two fifos wide'] = dict(si=I, icls=FI, fifos={'f': (4, 2), 'h': (4, 2)}, progs=[
        'si.dma_read(f, 2)\nsi.dma_read_async(h, 2)\nsi.dma_wait_read()\nfor i in range(2):\n    res0.value = f.deq()\n    ev0.value = i + 1\nfor j in range(2):\n    res0.value = h.deq()\n    ev0.value = j + 3'], params=[{}], resw=4)
    C['in fifos mixed'] = dict(si=I, icls=FI, fifos={'f': (8, 2), 'h': (16, 2)}, progs=[
        'si.dma_read(f, 1)\nsi.dma_read(h, 1)\nres0.value = f.deq()\nev0.value = 1\nres0.value = h.deq()\nev0.value = 2'], params=[{}], resw=8)
    C['out two fifos'] = dict(so=O, ocls=FO, fifos={'f': (8, 2), 'h': (8, 2)}, progs=[
        'f.enq(1)\nh.enq(2)\nh.enq(3)\nso.dma_write(f, 1)\nso.dma_write_async(h, 2)\nso.dma_wait_write()\nev0.value = 1\nf.enq(4)\nso.dma_write(f, 1)\nev0.value = 2'], params=[{}])
    C['out two fifos narrow'] = dict(so=O, ocls=FO, fifos={'f': (16, 2), 'h': (16, 2)}, progs=[
        'f.enq(513)\nh.enq(1027)\nh.enq(1541)\nso.dma_write(f, 1)\nso.dma_write_async(h, 2)\nso.dma_wait_write()\nev0.value = 1\nf.enq(300)\nso.dma_write(f, 1)\nev0.value = 2'], params=[{}])
    C['out two fifos wide'] = dict(so=O, ocls=FO, fifos={'f': (4, 2), 'h': (4, 2)}, progs=[
        'f.enq(1)\nf.enq(2)\nh.enq(3)\nh.enq(4)\nso.dma_write(f, 2)\nso.dma_write_async(h, 2)\nso.dma_wait_write()\nev0.value = 1'], params=[{}])
    C['out fifos mixed'] = dict(so=O, ocls=FO, fifos={'f': (8, 2), 'h': (16, 2)}, progs=[
        'f.enq(1)\nh.enq(773)\nso.dma_write(f, 1)\nso.dma_write_async(h, 1)\nso.dma_wait_write()\nev0.value = 1'], params=[{}])
    C['fifo loop'] = dict(si=I, so=O, icls=FI, ocls=FO, fifos={'f': (8, 2)}, progs=['si.dma_read(f, sz)\nev0.value = 1', 'so.dma_write(f, sz)\nev1.value = 1'], params=P(sz=[2, 4]), sync=False)
    C['fifo loop convert'] = dict(si=I, so=ext(O, datawidth=16), icls=FI, ocls=FO, fifos={'f': (8, 2)}, progs=['si.dma_read(f, sz)\nev0.value = 1', 'so.dma_write(f, sz)\nev1.value = 1'], params=P(sz=[2, 4]), sync=False)
    return {k: v for k, v in C.items() if v}


@rtl.guarded
def one(res, it):
    if it.startswith('xs '):
        cfg = axicfgs.xconfigs(tier())[it]
        v, cpp, df = aximon.make(cfg, 'data')
    else:
        cfg = configs(tier())[it]
        v, cpp, df = axsmon.make(cfg)
    rtl.explore(res, it, '%s' % ' | '.join(p.replace('\n', '; ') for p in cfg['progs']), v, cpp, defines=df, max_states=3000000, track_edges=True)


def main():
    c = Check('C14')
    its = list(axicfgs.xconfigs(tier())) + list(configs(tier()))
    c.count('configurations', len(its))
    for r in pmap(one, its, 'c14'):
        c.absorb(r)
    c.assumptions = ['emitted RTL (Verilator) composed with every tvalid schedule of the sender and every tready schedule of the receiver; sizes of at least one word, whole packed words for a FIFO narrower than the stream']
    c.finish()


if __name__ == '__main__':
    if len(sys.argv) > 1:
        os.makedirs('/tmp/x/c14', exist_ok=True)
        os.chdir('/tmp/x/c14')
        import time
        for n in list(configs('quick')) + list(axicfgs.xconfigs('quick')):
            if sys.argv[1] in n:
                t = time.time()
                r = one(n)
                print(n, r['states'], r['transitions'], '%.1f' % (time.time() - t), [v[:2] for v in r['violations']] if len(sys.argv) > 2 else [(v[0], v[1][:300] + v[1][-150:]) for v in r['violations']])
    else:
        main()
