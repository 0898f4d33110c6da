"""C22: generation is deterministic and independent of history.

Stateless exploration of the real generator.  A pool of designs is built and
emitted under every history up to a depth (complete builds, builds that are
never emitted, builds aborted at a chosen point), under every single deviation
of the iteration order of the sets the generator uses, under several address
layouts (builtin id replaced) and under several hash seeds in fresh processes;
every text is compared with the text of a fresh process."""
import builtins
import gc
import hashlib
import importlib.util
import itertools
import os
import pickle
import re
import subprocess
import sys
import weakref
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
sys.modules['pygraphviz'] = None        # graphs are drawn by an external program; not the subject

import veriloggen as vg
import veriloggen.core.module as vmodule
import pool

Q = tier() == 'quick'
FUNCS = ('mkTest', 'mkMain', 'mkLed')
SELF = os.path.abspath(__file__)


# ---------------------------------------------------------------------------
# the designs: the pool, and the designs of the repository's own scripts
def scripts():
    out = []
    for top in ('tests', 'examples', 'tests_obsolete'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py') and not f.startswith('test_') and f != 'parsetab.py':
                    p = os.path.join(d, f)
                    t = open(p, errors='replace').read()
                    if any('def %s(' % n in t for n in FUNCS):
                        out.append(os.path.relpath(p, REPO))
    return out


def make(name):
    if name in pool.POOL:
        return pool.POOL[name]()
    path = os.path.join(REPO, name)
    sp = importlib.util.spec_from_file_location('d_' + os.path.basename(name)[:-3], path)
    mod = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.dirname(path))
    try:
        sp.loader.exec_module(mod)
        for n in FUNCS:
            if hasattr(mod, n):
                try:
                    x = getattr(mod, n)()
                except TypeError:
                    continue
                if isinstance(x, vg.Module):
                    return x
        raise LookupError('no design in ' + name)
    finally:
        sys.path.pop(0)


def norm(text):
    # a memory model without a given image writes one under a unique file name
    return re.sub(r'"[^"]*memimg_\w+\.out"', '"memimg"', text)


def outcome(name, emits=2):
    """texts of a design built now (or the exception it ends with)"""
    try:
        m = make(name)
        t = [norm(m.to_verilog()) for i in range(emits)]
    except LookupError:
        raise
    except Exception as e:
        return ['%s: %s' % (type(e).__name__, str(e)[:300])]
    if any(x != t[0] for x in t):
        return t
    return t[:1]


class Abort(BaseException):
    pass


def aborted(name, k):
    """build, and give up at the k-th definition in a module"""
    n = [0]
    orig = vmodule.Module.add_object

    def add_object(self, *a, **kw):
        n[0] += 1
        if n[0] == k:
            raise Abort()
        return orig(self, *a, **kw)
    vmodule.Module.add_object = add_object
    try:
        make(name).to_verilog()
    except (Abort, Exception):
        pass
    finally:
        vmodule.Module.add_object = orig
    return n[0]


KEEP = []


def step(op):
    kind, name = (op + (None,))[:2]
    if kind == 'emit':
        outcome(name, 1)
    elif kind == 'keep':            # built, kept alive, never emitted
        try:
            KEEP.append(make(name))
        except Exception:
            pass
    elif kind == 'keepemit':        # built, emitted and kept alive
        try:
            m = make(name)
            m.to_verilog()
            KEEP.append(m)
        except Exception:
            pass
    elif kind == 'abort':
        aborted(name, op[2])
    elif kind == 'reset':
        vg.reset()


# ---------------------------------------------------------------------------
def forked(f, *a):
    """run f(*a) in a forked child and return its result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                res = ('ok', f(*a))
            except BaseException:
                res = ('err', traceback.format_exc())
            with os.fdopen(w, 'wb') as fo:
                pickle.dump(res, fo)
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    with os.fdopen(r, 'rb') as fi:
        data = fi.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('child died')
    k, v = pickle.loads(data)
    if k == 'err':
        raise HarnessError(v)
    return v


def diff(a, b):
    import difflib
    d = list(difflib.unified_diff(a.splitlines(), b.splitlines(), 'fresh', 'here', lineterm='', n=1))
    return '\n'.join(d[:12])[:700]


def judge(res, key, what, ref, got):
    res['states'] += 1
    res['transitions'] += 1
    res['traces'] += 1
    if len(got) > 1 and got[0] != got[1]:
        res['violations'].append(('twice:' + key, '%s: emitted twice, the texts differ' % what, diff(got[0], got[1])))
    if got[0] != ref[0]:
        res['violations'].append((key, '%s: text differs from that of a fresh process' % what, diff(ref[0], got[0])))


def new():
    return dict(states=0, transitions=0, traces=0, counts={}, violations=[], samples=[])


def fresh(name):
    def f():
        vg.reset()
        return outcome(name)
    return forked(f)


# -- histories -----------------------------------------------------------------
def histories(item):
    """item: (prefix ops, names of the final designs, refs)"""
    prefix, names, refs, more = item
    res = new()

    def run():
        out = []
        for op in prefix:
            step(op)
        for n in names:
            def fin():
                vg.reset()
                return outcome(n)
            out.append((n, forked(fin)))
        return out
    for n, got in forked(run):
        judge(res, 'hist:' + n, '%s after %s' % (n, ', '.join('%s %s' % (o[0], ' '.join(map(str, o[1:]))) for o in prefix)),
              refs[n], got)
    res['counts']['histories'] = len(names)
    return res


# -- emission order of two designs that are alive together ----------------------
def interleaved(item):
    a, bs, refs = item
    res = new()
    for b in bs:
        def run():
            vg.reset()
            try:
                x = make(a)
            except Exception:
                return None
            try:
                vg.reset()
                y = make(b)
            except Exception:
                return None
            t = [norm(z.to_verilog()) for z in (y, x, y, x)]
            return t
        t = forked(run)
        if t is None:
            continue
        res['counts']['interleavings'] = res['counts'].get('interleavings', 0) + 1
        judge(res, 'mix:' + b, '%s emitted before and after %s (built before it)' % (b, a), refs[b], [t[0], t[2]])
        if t[1] != t[3]:
            res['violations'].append(('mix:' + a, '%s emitted before and after %s: texts differ' % (a, b), diff(t[1], t[3])))
    return res


# -- set iteration orders -------------------------------------------------------
class Sched(object):
    """decides the order in which a set is walked; deviation = (event, order)"""
    events = 0
    dev = None
    sizes = []

    @classmethod
    def order(cls, raw):
        raw = list(raw)
        try:
            xs = sorted(raw, key=lambda x: (str(type(x).__name__), x.object_id if hasattr(x, 'object_id') else x))
        except TypeError:
            xs = raw
        if all(isinstance(x, int) for x in xs):
            return raw              # integers hash to themselves: CPython walks them in a fixed order
        i = cls.events
        cls.events += 1
        cls.sizes.append(len(xs))
        if cls.dev is None or len(xs) < 2:
            return xs
        ev, how = cls.dev
        if ev is not None and ev != i:
            return xs
        if how == 'rev':
            return xs[::-1]
        if how == 'rot':
            return xs[1:] + xs[:1]
        if how == 'swap':
            return xs[:1] + xs[:0:-1]
        return xs


class PSet(set):
    def __iter__(self):
        return iter(Sched.order(set.__iter__(self)))

    def pop(self):
        x = Sched.order(set.__iter__(self))[0]
        self.remove(x)
        return x

    def copy(self):
        return PSet(list(set.__iter__(self)))

    def _bin(name):
        def f(self, *o):
            r = getattr(set, name)(set(self), *[set(x) if isinstance(x, PSet) else x for x in o])
            return PSet(r) if isinstance(r, set) else r
        return f
    for _n in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__',
               'union', 'intersection', 'difference', 'symmetric_difference'):
        locals()[_n] = _bin(_n)


def patch_sets():
    for n, m in list(sys.modules.items()):
        if n == 'veriloggen' or n.startswith('veriloggen.'):
            m.__dict__['set'] = PSet


def with_sets(name, dev):
    def run():
        patch_sets()
        Sched.events, Sched.dev, Sched.sizes = 0, dev, []
        vg.reset()
        t = outcome(name, 1)
        return t, Sched.sizes
    return forked(run)


def setorders(item):
    name, ref = item
    res = new()
    t, sizes = with_sets(name, None)
    judge(res, 'set:' + name, '%s, sets in creation order' % name, ref, t)
    evs = [i for i, n in enumerate(sizes) if n > 1]
    lim = 8 if Q else 200
    devs = [(None, h) for h in ('rev', 'rot', 'swap')]
    devs += [(i, h) for i in evs[:lim] for h in (('rev',) if Q else ('rev', 'rot', 'swap'))]
    if len(evs) > lim:
        res['counts']['set_walks_not_singled_out'] = len(evs) - lim
    for d in devs:
        if not evs:
            break
        t, _ = with_sets(name, d)
        judge(res, 'set:' + name, '%s, set walk %s order %s' % (name, d[0], d[1]), ref, t)
        res['counts']['set_orders'] = res['counts'].get('set_orders', 0) + 1
    return res


# -- address layouts --------------------------------------------------------------
def layout(kind):
    """replace builtin id by a numbering of the objects in order of first use"""
    seen = {}
    real = builtins.id
    n = [0]
    free = []

    def num(k):
        if kind == 'up':
            return 16 * k + 4096
        if kind == 'down':
            return (1 << 40) - 48 * k
        if kind == 'mix':
            return int('{:024b}'.format(k)[::-1], 2) * 16
        return 16 * k + 4096

    def my_id(o):
        r = real(o)
        if r in seen:
            return seen[r][0]
        if kind == 'reuse' and free:
            k = free.pop()
        else:
            k = n[0]
            n[0] += 1
        v = num(k)
        if kind == 'reuse':
            def dead(ref, r=r, k=k):
                if seen.pop(r, None) is not None:
                    free.append(k)
            try:
                seen[r] = (v, weakref.ref(o, dead))
            except TypeError:
                seen[r] = (v, o)
        else:
            seen[r] = (v, o)
        return v
    builtins.id = my_id


def layouts(item):
    name, ref = item
    res = new()
    for kind in ('up', 'down', 'mix', 'reuse'):
        def run():
            layout(kind)
            vg.reset()
            out = outcome(name, 1)
            if kind == 'reuse':         # the same design again at the same addresses
                gc.collect()
                vg.reset()
                out2 = outcome(name, 1)
                return out if out == out2 else [out[0], out2[0]]
            return out
        judge(res, 'addr:' + name, '%s, address layout %s' % (name, kind), ref, forked(run))
        res['counts']['address_layouts'] = res['counts'].get('address_layouts', 0) + 1
    return res


# -- fresh processes with other hash seeds --------------------------------------------
def emit_main(names):
    out = {}
    for n in names:
        def f():
            vg.reset()
            return outcome(n)
        try:
            out[n] = forked(f)
        except HarnessError as e:
            out[n] = ['harness: %s' % e]
    with open('emitted.pkl', 'wb') as fo:
        pickle.dump(out, fo)


def hashseeds(item):
    sd, names, refs = item
    res = new()
    env = dict(os.environ, PYTHONHASHSEED=str(sd))
    subprocess.run([sys.executable, SELF, '--emit'] + names, env=env, check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    got = pickle.load(open('emitted.pkl', 'rb'))
    for n in names:
        judge(res, 'seed:' + n, '%s, fresh process with hash seed %s' % (n, sd), refs[n], got[n])
        res['counts']['hash_seeds'] = res['counts'].get('hash_seeds', 0) + 1
    return res


# ------------------------------------------------------------------------------------
def fresh_many(names):
    out = {}
    for n in names:
        try:
            out[n] = fresh(n)
        except HarnessError as e:
            if 'LookupError' not in str(e) and n in pool.POOL:
                raise
    return out


def dispatch(it):
    return globals()[it[0]](it[1])


def main():
    if sys.argv[1:2] == ['--emit']:
        emit_main(sys.argv[2:])
        return
    c = Check('C22')
    own = list(pool.POOL)
    files = scripts()
    pick = files if not Q else [f for i, f in enumerate(files) if i % 9 == 0]
    # text of a fresh process
    refs = {}
    for r in pmap(fresh_many, chunks(own + pick, 4), 'c22'):
        refs.update(r)
    pick = [f for f in pick if f in refs]
    c.count('designs', len(refs))
    some = own + [f for i, f in enumerate(pick) if i % (9 if Q else 24) == 0]
    items = []
    core = ('thread_basic', 'stream_madd', 'stream_ops', 'ram_copy', 'ram_copy_pattern', 'dataflow_ops',
            'multibank', 'thread_fixed', 'thread_stream', 'fsm_basic')
    core = [n for n in core if n in refs]
    slow = ('stream_div', 'dataflow_div', 'verilog_import', 'axi_memory')       # seconds each
    full = [n for n in (own if Q else some) if n not in slow]
    for a, b in itertools.product(slow + ('stream_ops', 'dataflow_ops'), slow):
        items.append(('histories', ([('emit', a)], [b], {b: refs[b]}, 0)))
    for h in some:
        for k in ('emit', 'keep') if Q else ('emit', 'keep', 'keepemit'):
            for g in chunks(core if Q and k == 'keep' else full, 20):
                g = list(g)
                items.append(('histories', ([(k, h)], g, {n: refs[n] for n in g}, 0)))
    # aborted builds: give up at every (quick: some) definition
    for h in own:
        ks = (2, 5, 13, 34) if Q else range(1, 90)
        sub = [h] + [n for n in ('thread_basic', 'stream_madd', 'ram_copy', 'dataflow_ops', 'multibank') if n != h]
        for k in ks:
            items.append(('histories', ([('abort', h, k)], sub[:2 if Q else 6], {n: refs[n] for n in sub}, 0)))
    if not Q:
        full2 = [n for n in own if n not in slow]
        for a, b in itertools.product(own, own):
            items.append(('histories', ([('emit', a), ('reset',), ('emit', b)], full2, {n: refs[n] for n in full2}, 0)))
    else:
        for a, b in itertools.product(core[:8], core[:8]):
            items.append(('histories', ([('emit', a), ('emit', b)], core, {n: refs[n] for n in core}, 0)))
    for a in (core if Q else own):
        for g in chunks([b for b in own if b not in slow or (b in slow and a in slow)], 20):
            items.append(('interleaved', (a, g, {n: refs[n] for n in g})))
    for n in own + pick:
        items.append(('setorders', (n, refs[n])))
        items.append(('layouts', (n, refs[n])))
    for sd in range(1, 4 if Q else 9):
        for g in chunks(own + (pick if sd == 1 or not Q else []), 30):
            g = list(g)
            items.append(('hashseeds', (sd, g, {n: refs[n] for n in g})))
    items = [x for i in range(16) for x in items[i::16]]
    for r in pmap(dispatch, items, 'c22'):
        c.absorb(r)
    c.assumptions = [
        'fresh process = a process that has imported veriloggen and nothing else, after veriloggen.reset()',
        'histories up to depth 2 (quick: depth 2 on the stateful part of the pool)',
        'set orders: creation order with every single deviation of a set walk (reverse) and three global ones; sets made by literals are covered by hash seeds and address layouts only',
        'address layouts: increasing, decreasing, bit-reversed, immediate reuse of freed addresses',
    ]
    c.finish()


if __name__ == '__main__':
    main()
