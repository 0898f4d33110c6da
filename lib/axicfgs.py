"""configurations for the AXI checks: name -> cfg (see aximon.make)"""
import itertools


def prod(**kw):
    ks = sorted(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[kw[k] for k in ks])]


def op(s, evs=1):
    out = []
    k = 0
    for line in s.strip().split(';'):
        line = line.strip()
        if line == '!':
            k += 1
            line = 'ev0.value = %d' % k
        out.append(line)
    return '\n'.join(out)


def configs(tier):
    th = tier == 'thorough'
    C = {}

    def add(name, prog, params, rams, **kw):
        progs = [op(prog)] if isinstance(prog, str) else [op(p).replace('ev0', 'ev%d' % i).replace('res0', 'res%d' % i) for i, p in enumerate(prog)]
        t = '\n'.join(progs)
        kw.setdefault('hasr', 'read' in t)
        kw.setdefault('hasw', 'write' in t)
        w = dict(kw.pop('widths', {}))
        assert name not in C, name
        C[name] = dict(progs=progs, params=params, rams=rams, widths=w, **kw)

    SZ = (1, 2, 3, 4, 5, 7, 8) if not th else tuple(range(1, 13))
    GA = (0, 1, 9, 13, 15) if not th else tuple(range(16)) + (29, 31)
    for d in ('read', 'write'):
        # --- one memory word per beat
        add('%s same' % d, 'ax.dma_%s(ram, la, ga, sz, st); !' % d, prod(la=(0, 5, 15), ga=GA, sz=SZ + (9, 13, 16), st=(1, 2)) + prod(la=(3,), ga=(13,), sz=(5,), st=(0, 3)),
            dict(ram=('R', 8, 4)))
        for sb in (2, 3):
            add('%s same sb%d' % (d, sb), 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(0, 5), ga=(0, 13), sz=SZ), dict(ram=('R', 8, 3)), widths=dict(la=3), ax=dict(sb_depth=sb))
        add('%s same burst1' % d, 'ax.dma_%s(ram, la, ga, sz, st); !' % d, prod(la=(2,), ga=(0, 15), sz=SZ, st=(1,)), dict(ram=('R', 8, 3)), widths=dict(la=3), bsw=1)
        add('%s same burst8 bnd8' % d, 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(2,), ga=(0, 5, 7), sz=SZ + (15, 16)), dict(ram=('R', 8, 4)), bsw=3, bnd=8)
        add('%s same fifo2' % d, 'ax.dma_%s(ram, la, ga, sz, st); !' % d, prod(la=(2,), ga=(0, 15), sz=SZ + (13,), st=(1,)), dict(ram=('R', 8, 4)), bsw=1, ax=dict(req_fifo_addrwidth=2))
        add('%s module' % d, 'ax.dma_%s(ram, la, ga, sz, st); !' % d, prod(la=(0, 5), ga=(0, 13), sz=SZ, st=(1, 2)), dict(ram=('R', 8, 3)), widths=dict(la=3), ax=dict(fsm_as_module=True), thmod=True)
        for mode in ((3,) if d == 'read' else (1, 2, 3)):
            add('%s same mode%d' % (d, mode), 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(0, 5), ga=(0, 13), sz=SZ), dict(ram=('R', 8, 3)), widths=dict(la=3), mode=mode)
        add('%s base' % d, 'ax.set_global_base_addr(gb); ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(1,), ga=(0, 13), sz=(1, 4, 5), gb=(0, 3, 32, 250)), dict(ram=('R', 8, 3)), widths=dict(la=3), ax=dict(use_global_base_addr=True))
        add('%s port2' % d, 'ax.dma_%s(ram, la, ga, sz, 1, 2); ax.dma_%s(ram, la, 40, sz, port=0); !' % (d, d), prod(la=(0, 5), ga=(0, 13), sz=(1, 2, 5)), dict(ram=('R', 8, 3, 3)), widths=dict(la=3))
        add('%s size0' % d, 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(0,), ga=(0, 13), sz=(0,)), dict(ram=('R', 8, 3)), widths=dict(la=3))
        # --- bus words wider than bytes: alignment
        add('%s same16' % d, 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(0, 5), ga=(0, 1, 12, 13, 15), sz=SZ), dict(ram=('R', 16, 3)), widths=dict(la=3), ax=dict(datawidth=16))
        add('%s same32' % d, 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(0, 5), ga=(0, 3, 25, 28, 60), sz=SZ), dict(ram=('R', 32, 3)), widths=dict(la=3), ax=dict(datawidth=32), bnd=32)
        # --- memory narrower than the RAM word
        for rw, bw in ((16, 8), (32, 8), (32, 16), (24, 8)):
            add('%s narrow%d/%d' % (d, rw, bw), 'ax.dma_%s(ram, la, ga, sz, st); !' % d, prod(la=(0, 3), ga=(0, 6, 13, 15), sz=(1, 2, 3, 4, 5), st=(1, 2)), dict(ram=('R', rw, 3)), widths=dict(la=3),
                ax=dict(datawidth=bw))
        add('%s narrow module' % d, 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(3,), ga=(0, 13), sz=(1, 2, 3)), dict(ram=('R', 16, 3)), widths=dict(la=3), ax=dict(fsm_as_module=True))
        # --- memory wider than the RAM word
        for rw, bw in ((8, 16), (8, 32), (16, 32)):
            add('%s wide%d/%d' % (d, rw, bw), 'ax.dma_%s(ram, la, ga, sz, st); !' % d, prod(la=(0, 3), ga=(0, 6, 13, 15), sz=SZ + (6, 12), st=(1, 2)), dict(ram=('R', rw, 4)), ax=dict(datawidth=bw))
        add('%s wide module' % d, 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(3,), ga=(0, 13), sz=(2, 4, 5)), dict(ram=('R', 8, 3)), widths=dict(la=3), ax=dict(datawidth=16, fsm_as_module=True))
        # --- banks
        for bk, bw, tag in ((('M', 8, 2, 2), 8, 'M2'), (('P', [('R', 8, 2)] * 2), 8, 'P2'), (('T', [('R', 8, 2)] * 2), 8, 'T2'),
                            (('M', 8, 2, 4), 16, 'M4'), (('M', 8, 2, 2), 16, 'M2w'), (('M', 16, 2, 2), 8, 'M2n')):
            nb = bk[3] if bk[0] == 'M' else len(bk[1])
            al = 4 if nb == 4 else 3
            w = dict(la=al)
            ax = dict(datawidth=bw)
            sz = (1, 2, 3, 4, 5, 7)
            add('%s flat %s' % (d, tag), 'ax.dma_%s(ram, la, ga, sz, st); !' % d, prod(la=(0, 3), ga=(0, 13), sz=sz, st=(1, 2)), dict(ram=bk), widths=w, ax=ax)
            add('%s bank %s' % (d, tag), 'ax.dma_%s_bank(ram, bk, la, ga, sz, st); !' % d, prod(bk=tuple(range(nb)), la=(0, 3), ga=(0, 13), sz=(1, 2, 3, 4), st=(1, 2)), dict(ram=bk), widths=dict(la=2), ax=ax)
            add('%s packed %s' % (d, tag), 'ax.dma_%s_packed(ram, la, ga, sz); !' % d, prod(la=(0, nb), ga=(0, 12, 13), sz=(nb, 2 * nb, 3 * nb, 4 * nb)), dict(ram=bk), widths=w, ax=ax)
            add('%s block %s' % (d, tag), 'ax.dma_%s_block(ram, la, ga, sz, bs); !' % d, prod(la=(0, 1), ga=(0, 13), sz=(1, 2, 3, 4, 6, 8), bs=(1, 2, 3)), dict(ram=bk), widths=dict(la=2), ax=ax)
            if d == 'read':
                add('%s bcast %s' % (d, tag), 'ax.dma_%s_bcast(ram, la, ga, sz, st); !' % d, prod(la=(0, 1), ga=(0, 13), sz=(1, 2, 3), st=(1, 2)), dict(ram=bk), widths=dict(la=2), ax=ax)
        bk3 = ('P', [('R', 8, 2)] * 3)
        add('%s block P3' % d, 'ax.dma_%s_block(ram, la, ga, sz, bs); !' % d, prod(la=(0, 1), ga=(0, 13), sz=(1, 2, 3, 4, 6, 8), bs=(1, 2, 3)), dict(ram=bk3), widths=dict(la=2))
        add('%s bank P3' % d, 'ax.dma_%s_bank(ram, bk, la, ga, sz); !' % d, prod(la=(0, 1), ga=(0, 13), sz=(1, 2, 3), bk=(0, 1, 2)), dict(ram=bk3), widths=dict(la=2))
        if d == 'read':
            add('%s bcast P3' % d, 'ax.dma_%s_bcast(ram, la, ga, sz); !' % d, prod(la=(0, 1), ga=(0, 13), sz=(1, 2, 3)), dict(ram=bk3), widths=dict(la=2))
        add('%s packed one' % d, 'ax.dma_%s_packed(ram, la, ga, sz); !' % d, prod(la=(0, 5), ga=(0, 13), sz=(1, 3, 5)), dict(ram=('R', 8, 3)), widths=dict(la=3))
        # stride of the packed form, given explicitly (flat words)
        add('%s packed stride' % d, 'ax.dma_%s_packed(ram, la, ga, sz, st); !' % d, prod(la=(0, 2), ga=(0, 13), sz=(2, 4), st=(2, 4)), dict(ram=('M', 8, 2, 2)), widths=dict(la=3))
        add('%s block stride' % d, 'ax.dma_%s_block(ram, la, ga, sz, bs, st); !' % d, prod(la=(0, 1), ga=(13,), sz=(2, 4, 6), st=(1, 2), bs=(1, 2)), dict(ram=('M', 8, 3, 2)), widths=dict(la=3))
        # --- asynchronous, then wait
        wt = 'ax.dma_wait_%s()' % d
        add('%s async' % d, 'ax.dma_%s_async(ram, la, ga, sz); !; %s; !' % (d, wt), prod(la=(0, 5), ga=(0, 13), sz=SZ), dict(ram=('R', 8, 3)), widths=dict(la=3))
        add('%s async2' % d, 'ax.dma_%s_async(ram, 0, ga, sz); ax.dma_%s_async(ram, la, 0, sz); %s; !' % (d, d, wt), prod(la=(4,), ga=(0, 13), sz=(1, 2, 3, 4)), dict(ram=('R', 8, 3)), widths=dict(la=3))
        add('%s async3' % d, 'ax.dma_%s_async(ram, 0, ga, 2); ax.dma_%s_async(ram, 2, 30, sz); ax.dma_%s_async(ram, 6, 14, 2); ax.dma_wait(); !' % (d, d, d), prod(ga=(0, 13), sz=(1, 3, 4)), dict(ram=('R', 8, 3)),
            widths=dict(la=3), ax=dict(req_fifo_addrwidth=2))
        # --- different memories through one master
        add('%s two rams' % d, 'ax.dma_%s(ram, la, ga, sz); !; ax.dma_%s(ram2, la, 20, sz); !' % (d, d), prod(la=(0, 5), ga=(0, 13), sz=(1, 2, 3)), dict(ram=('R', 8, 3), ram2=('R', 8, 3)), widths=dict(la=3))
        add('%s two rams async' % d, 'ax.dma_%s_async(ram, la, ga, sz); ax.dma_%s_async(ram2, la, 20, sz); %s; !' % (d, d, wt), prod(la=(0, 5), ga=(0, 13), sz=(1, 2, 3)), dict(ram=('R', 8, 3), ram2=('R', 8, 3)), widths=dict(la=3))
        add('%s mixed width async' % d, 'ax.dma_%s_async(ram, la, ga, sz); ax.dma_%s_async(ram2, la, 20, sz); ax.dma_%s_async(ram3, la, 40, 4); %s; !' % (d, d, d, wt), prod(la=(0, 5), ga=(0, 13), sz=(1, 2, 3)),
            dict(ram=('R', 16, 3), ram2=('R', 32, 3), ram3=('R', 8, 3)), widths=dict(la=3), ax=dict(datawidth=16))
        add('%s mixed forms' % d, 'ax.dma_%s(ram, la, ga, sz); ax.dma_%s_packed(ram, 2, 20, 4); ax.dma_%s_block(ram, 0, 40, 4, 2); ax.dma_%s_bank(ram, 1, 1, 52, 2); !' % (d, d, d, d), prod(la=(0, 5), ga=(0, 13), sz=(1, 2, 3)),
            dict(ram=('M', 8, 2, 2)), widths=dict(la=3))
        add('%s mixed forms async' % d, 'ax.dma_%s_async(ram, la, ga, sz); ax.dma_%s_packed_async(ram, 2, 20, 4); ax.dma_%s_block_async(ram, 0, 40, 4, 2); %s; !' % (d, d, d, wt), prod(la=(0, 5), ga=(0, 13), sz=(1, 2, 3)),
            dict(ram=('M', 8, 2, 2)), widths=dict(la=3))
    # --- value visible to the thread right after the wait
    for spec, tag, bw in ((('R', 8, 3), 'same', 8), (('R', 16, 3), 'narrow', 8), (('R', 8, 3), 'wide', 16), (('M', 8, 2, 2), 'banks', 8), (('P', [('R', 8, 2)] * 2), 'pbanks', 8)):
        add('read then use %s' % tag, 'ax.dma_read(ram, la, ga, sz); res0.value = ram.read(ta); !', [dict(la=l, ga=g, sz=s, ta=(l + s - 1) % 8) for l in (0, 5) for g in (0, 13) for s in (1, 2, 3, 4)], dict(ram=spec), widths=dict(la=3, ta=3), ax=dict(datawidth=bw), resw=8)
        add('read async then use %s' % tag, 'ax.dma_read_async(ram, la, ga, sz); ax.dma_wait_read(); res0.value = ram.read(ta); !', [dict(la=l, ga=g, sz=s, ta=(l + s - 1) % 8) for l in (0, 5) for g in (0, 13) for s in (1, 2, 3, 4)], dict(ram=spec), widths=dict(la=3, ta=3), ax=dict(datawidth=bw), resw=8)
        add('use then write %s' % tag, 'ram.write(la, x); ram.write(ta, x + 1); ax.dma_write(ram, la, ga, sz); !', [dict(la=l, ga=g, sz=s, x=77, ta=(l + s - 1) % 8) for l in (0, 5) for g in (0, 13) for s in (1, 2, 3, 4)], dict(ram=spec), widths=dict(la=3, ta=3, x=8), ax=dict(datawidth=bw), hasr=False)
    # --- read and write
    for spec, tag, bw in ((('R', 8, 3), 'same', 8), (('R', 16, 3), 'narrow', 8), (('R', 8, 3), 'wide', 16), (('M', 8, 2, 2), 'banks', 8)):
        s2 = (2, 4) if tag == 'wide' else (1, 3)
        add('copy %s' % tag, 'ax.dma_read(ram, la, ga, sz); !; ax.dma_write(ram, la, 40, sz); !', prod(la=(0, 5), ga=(0, 13), sz=s2), dict(ram=spec), widths=dict(la=3), ax=dict(datawidth=bw))
        add('write then read back %s' % tag, 'ax.dma_write(ram, la, ga, sz); !; ax.dma_read(ram2, la, ga, sz); !', prod(la=(0, 5), ga=(0, 13), sz=s2), dict(ram=spec, ram2=spec), widths=dict(la=3), ax=dict(datawidth=bw))
    add('async write then read back', 'ax.dma_write_async(ram, la, ga, sz); ax.dma_wait_write(); ax.dma_read(ram2, la, ga, sz); !', prod(la=(0, 5), ga=(0, 13), sz=(1, 3)), dict(ram=('R', 8, 3), ram2=('R', 8, 3)), widths=dict(la=3))
    add('async write wait response', 'ax.dma_write_async(ram, la, ga, sz); ax.dma_wait_write_idle(); ax.dma_wait_write_response(); !; ax.dma_read(ram2, la, ga, sz); !', prod(la=(0, 5), ga=(0, 13), sz=(1, 3)), dict(ram=('R', 8, 3), ram2=('R', 8, 3)), widths=dict(la=3))
    add('read and write async', 'ax.dma_read_async(ram, la, ga, sz); ax.dma_write_async(ram2, la, 40, sz); ax.dma_wait(); !', prod(la=(5,), ga=(13,), sz=(1, 3)), dict(ram=('R', 8, 3), ram2=('R', 8, 3)), widths=dict(la=3))
    add('write and read async', 'ax.dma_write_async(ram2, la, 40, sz); ax.dma_read_async(ram, la, ga, sz); ax.dma_wait_read(); !; ax.dma_wait_write(); !', prod(la=(5,), ga=(13,), sz=(1, 3)), dict(ram=('R', 8, 3), ram2=('R', 8, 3)), widths=dict(la=3))
    add('two threads read/write', ('ax.dma_read(ram, la, ga, sz); !', 'ax.dma_write(ram2, la, 40, sz); !'), prod(la=(5,), ga=(13,), sz=(1, 2)), dict(ram=('R', 8, 3), ram2=('R', 8, 3)), widths=dict(la=3))
    # --- single words
    add('single read', 'res0.value = ax.read(ga); !; res0.value = ax.read(ga + 1); !', prod(ga=(0, 3, 255)), {}, hasw=False)
    add('single write', 'ax.write(ga, x); ax.write(ga + 1, x + 1); ax.write_fence(ga + 2, x ^ 5); !', prod(ga=(0, 3), x=(7, 200)), {}, hasr=False)
    add('single write read', 'ax.write_fence(ga, x); !; res0.value = ax.read(ga); !', prod(ga=(0, 3), x=(7, 200)), {})
    add('single write32', 'ax.write(ga, x); ax.write_fence(ga + 4, x + 1); !; res0.value = ax.read(ga + 4); !', prod(ga=(0, 252), x=(7, 0xfedcba98)), {}, ax=dict(datawidth=32))
    add('single base', 'ax.set_global_base_addr(gb); ax.write_fence(ga, x); !; res0.value = ax.read(ga); !', prod(ga=(0, 3), x=(7,), gb=(0, 20, 255)), {}, ax=dict(use_global_base_addr=True))
    add('single after dma', 'ax.dma_read_async(ram, la, ga, sz); res0.value = ax.read(ga); ax.dma_wait_read(); !', prod(la=(5,), ga=(13,), sz=(1, 2, 3)), dict(ram=('R', 8, 3)), widths=dict(la=3))
    add('single write after dma', 'ax.dma_write_async(ram, la, ga, sz); ax.write(ga, x); ax.dma_wait_write(); !', prod(la=(5,), ga=(13,), sz=(1, 2, 3), x=(9,)), dict(ram=('R', 8, 3)), widths=dict(la=3))
    add('dma after single', 'ax.write(40, x); ax.dma_write(ram, la, ga, sz); !', prod(la=(5,), ga=(13,), sz=(1, 2, 3), x=(9,)), dict(ram=('R', 8, 3)), widths=dict(la=3))
    add('delayed read', 'res0.value = ax.read_delayed(ga, dl); !; res0.value = ax.read_delayed(ga + 1, 0); !', prod(ga=(3,), dl=(0, 1, 3)), {}, cls='AXIMVerify', hasw=False)
    add('delayed write', 'ax.write_delayed(ga, x, dl); ax.write_delayed(ga + 1, x + 1, 0); ax.dma_wait_write(); !', prod(ga=(3,), x=(9,), dl=(0, 1, 3)), {}, cls='AXIMVerify', hasr=False)
    for cl in ('AXIMLite', 'AXIMLiteVerify'):
        for mode in (0, 3, 1):
            add('%s mode%d' % (cl, mode), 'ax.write(ga, x); ax.write(ga + 1, x + 1); ax.write_fence(ga + 2, x ^ 5); !; res0.value = ax.read(ga + 2); !; res0.value = ax.read(ga + 7); !', prod(ga=(0, 3), x=(7, 200)), {}, cls=cl, mode=mode)
    add('AXIMLite sb2', 'ax.write(ga, x); ax.write_fence(ga + 4, x + 1); !; res0.value = ax.read(ga + 4); !', prod(ga=(0, 252), x=(7, 0xfedcba98)), {}, cls='AXIMLite', ax=dict(datawidth=32, sb_depth=2))
    add('AXIMLite base', 'ax.set_global_base_addr(gb); ax.write_fence(ga, x); !; res0.value = ax.read(ga); !', prod(ga=(0, 3), x=(7,), gb=(0, 20, 255)), {}, cls='AXIMLite', ax=dict(use_global_base_addr=True))
    add('lite delayed', 'ax.write_delayed(ga, x, dl); ax.write_delayed(ga + 1, x + 1, 0); res0.value = ax.read_delayed(ga, dl); !', prod(ga=(3,), x=(9,), dl=(0, 1, 3)), {}, cls='AXIMLiteVerify')
    # the real burst limit and boundary
    for d in ('read', 'write'):
        add('%s real limits' % d, 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(0,), ga=(0, 4094, 3839, 3840, 3841), sz=(3, 257) if d == 'write' else (3, 255, 256, 257, 300)), dict(ram=('R', 8, 9)), widths=dict(la=9, sz=10), ax=dict(addrwidth=14), bsw=8, bnd=4096)
        add('%s real limits32' % d, 'ax.dma_%s(ram, la, ga, sz); !' % d, prod(la=(5,), ga=(0, 4080, 3072, 3076, 3068), sz=(3, 257) if d == 'write' else (3, 256, 257)), dict(ram=('R', 32, 9)), widths=dict(la=9, sz=10), ax=dict(datawidth=32, addrwidth=14), bsw=8, bnd=4096)
    return C


def xconfigs(tier):
    """an AXI master that feeds / drains a port-less AXI stream"""
    th = tier == 'thorough'
    C = {}

    def add(name, d, prog, params, rams={}, **kw):
        progs = [op(p).replace('ev0', 'ev%d' % i).replace('res0', 'res%d' % i) for i, p in enumerate([prog] if isinstance(prog, str) else prog)]
        C['xs %s %s' % (d, name)] = dict(progs=progs, params=params, rams=rams, widths=dict(la=3), xs=d, **kw)
    SZ = (1, 2, 3, 4, 5, 7) if not th else tuple(range(1, 11))
    GA = (0, 1, 13, 15)
    for d, s, q in (('In', 'read', 'st.dma_read_async'), ('Out', 'write', 'st.dma_write_async')):
        fin = 'st.dma_wait_%s(); ax.dma_wait_%s(); !' % (s, s)
        base = dict(ram=('R', 8, 3))
        add('same', d, 'ax.dma_%s_async(ga, sz); %s(ram, la, sz); %s' % (s, q, fin), prod(la=(0, 5), ga=GA, sz=SZ), base)
        add('stream first', d, '%s(ram, la, sz); ax.dma_%s_async(ga, sz); %s' % (q, s, fin), prod(la=(0, 5), ga=GA, sz=SZ), base)
        add('stride', d, '%s(ram, la, sz, 2); ax.dma_%s_async(ga, sz); %s' % (q, s, fin), prod(la=(1,), ga=(13,), sz=(1, 3)), base)
        add('long', d, '%s(ram, la, sz); ax.dma_%s_async(ga, sz); %s' % (q, s, fin), prod(la=(0,), ga=(13,), sz=(8, 13)), dict(ram=('R', 8, 4)), bsw=1)
        add('burst8 bnd8', d, '%s(ram, la, sz); ax.dma_%s_async(ga, sz); %s' % (q, s, fin), prod(la=(0,), ga=(0, 5, 7), sz=(4, 9)), dict(ram=('R', 8, 4)), bsw=3, bnd=8)
        add('fifo2', d, '%s(ram, la, sz); ax.dma_%s_async(ga, sz); %s' % (q, s, fin), prod(la=(0,), ga=(0, 15), sz=(3, 8)), dict(ram=('R', 8, 4)), bsw=1, ax=dict(req_fifo_addrwidth=2), xkw=dict(req_fifo_addrwidth=2))
        add('base', d, 'ax.set_global_base_addr(gb); ax.dma_%s_async(ga, sz); %s(ram, la, sz); %s' % (s, q, fin), prod(la=(1,), ga=(0, 13), sz=(1, 4), gb=(0, 3, 250)), base, ax=dict(use_global_base_addr=True))
        add('module', d, 'ax.dma_%s_async(ga, sz); %s(ram, la, sz); %s' % (s, q, fin), prod(la=(0, 5), ga=(0, 13), sz=(1, 4)), base, ax=dict(fsm_as_module=True), xkw=dict(fsm_as_module=True))
        add('32 bit', d, 'ax.dma_%s_async(ga, sz); %s(ram, la, sz); %s' % (s, q, fin), prod(la=(1,), ga=(0, 3, 60), sz=(1, 2, 5)), dict(ram=('R', 32, 3)), ax=dict(datawidth=32), bnd=32)
        add('narrow', d, 'ax.dma_%s_async(ga, gs); %s(ram, la, sz); %s' % (s, q, fin), [dict(p, gs=2 * p['sz']) for p in prod(la=(1,), ga=(0, 13), sz=(1, 2, 3))], dict(ram=('R', 16, 3)))
        C['xs %s narrow' % d]['widths'] = dict(la=3, gs=5)
        add('wide', d, 'ax.dma_%s_async(ga, gs); %s(ram, la, sz); %s' % (s, q, fin), [dict(p, gs=(p['sz'] + 1) // 2) for p in prod(la=(1,), ga=(0, 13), sz=(2, 4, 6) if d == 'Out' else (1, 2, 3, 4))], dict(ram=('R', 8, 3)), ax=dict(datawidth=16))
        C['xs %s wide' % d]['widths'] = dict(la=3, gs=5)
        add('two', d, 'ax.dma_%s_async(ga, sz); %s(ram, la, sz); ax.dma_%s_async(40, 2); %s(ram, 6, 2); %s' % (s, q, s, q, fin), prod(la=(0,), ga=(0, 13), sz=(1, 2, 4)), base)
        add('two to one', d, 'ax.dma_%s_async(ga, sz); ax.dma_%s_async(40, 2); %s(ram, la, sz2); %s' % (s, s, q, fin), [dict(p, sz2=p['sz'] + 2) for p in prod(la=(0,), ga=(0, 13), sz=(1, 3))], base)
        C['xs %s two to one' % d]['widths'] = dict(la=3, sz2=5)
        add('again', d, 'ax.dma_%s_async(ga, sz); %s(ram, la, sz); %s; ax.dma_%s_async(30, 3); %s(ram, 1, 3); %s' % (s, q, fin, s, q, fin), prod(la=(5,), ga=(0, 13), sz=(1, 3)), base)
        add('fifo', d, ('a', 'b'), prod(ga=(0, 13), sz=(1, 4, 5)), fifos=dict(f=(8, 2)), xcls='AXIStream%sFifo' % d, resw=8)
        C['xs %s fifo' % d]['progs'] = (
            ['ax.dma_read_async(ga, sz)\nst.dma_read_async(f, sz)\nev0.value = 1', 'for i in range(sz):\n    res1.value = f.deq()\n    ev1.value = i + 1'] if d == 'In' else
            ['for i in range(sz):\n    f.enq(i * 7 + 1)\n    ev0.value = i + 1', 'ax.dma_write_async(ga, sz)\nst.dma_write_async(f, sz)\nst.dma_wait_write()\nax.dma_wait_write()\nev1.value = 1'])
    add('read', 'In', 'ax.dma_read_async(ga, 3); d, l = st.read(); res0.value = (d & 255) + l * 256; !; d, l = st.read(); res0.value = (d & 255) + l * 256; !; d, l = st.read(); res0.value = (d & 255) + l * 256; !', prod(ga=(0, 13)), resw=9)
    add('write', 'Out', 'ax.dma_write_async(ga, 3); st.write(x, 0); st.write(x + 1, 0); st.write(x + 2, 1); ax.dma_wait_write(); !', prod(ga=(0, 13), x=(5,)))
    return C
