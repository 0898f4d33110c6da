"""Glue for checks that explore generated RTL with vl.bfs."""
import functools
import re
import traceback

import vl
from common import HarnessError


def new():
    return dict(states=0, transitions=0, traces=0, violations=[], samples=[], counts={})


def explore(res, key, what, verilog, cpp, top='top', must_complete=True, **kw):
    """run one exhaustive exploration and fold it into res"""
    d = re.sub(r'\W+', '_', key)[:60]
    try:
        r = vl.bfs(d, verilog, top, cpp, **kw)
    except vl.VerilatorReject as e:
        res['violations'].append(('invalid:' + key, '%s: emitted text rejected: %s' % (what, str(e)[:800]), verilog))
        return None
    fold(res, key, what, r, verilog)
    return r


def fold(res, key, what, r, verilog):
    res['states'] += r['states']
    res['transitions'] += r['transitions']
    res['traces'] += 1
    if r.get('truncated'):
        res['exhaustive'] = False
        res['counts']['truncated'] = res['counts'].get('truncated', 0) + 1
    res['samples'].append(dict(config=key, states=r['states'], transitions=r['transitions'],
                               depth=r['depth'], truncated=r['truncated']))
    if r['error']:
        res['violations'].append(('bfs:' + key, '%s: %s after %d steps\n%s' %
                                  (what, r['error'], len(r['trace']), '\n'.join(r.get('replay', [])[-40:])), verilog))


def guarded(fn):
    """building a legal design must not raise"""
    @functools.wraps(fn)
    def w(item):
        res = new()
        try:
            fn(res, item)
        except (HarnessError, TimeoutError, MemoryError):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any('/veriloggen/' in f.filename for f in tb):
                res['violations'].append(('reject:%s' % (item,), 'legal design rejected: %s: %s' %
                                          (item, ''.join(traceback.format_exception_only(type(e), e))[:500] +
                                           ''.join(traceback.format_tb(e.__traceback__)[-3:])), None))
            else:
                raise
        return res
    return w
