"""Icarus Verilog (4-state) runs of generated text."""
import os
from common import HarnessError, run


class Reject(Exception):
    """the generated text is not accepted by the simulator"""


def simulate(text, workdir='.', tag='t', timeout=300, std='-g2005-sv', check_only=False,
             warn=False):
    v = os.path.join(workdir, tag + '.v')
    o = os.path.join(workdir, tag + '.vvp')
    with open(v, 'w') as f:
        f.write(text)
    rc, out, err = run(['iverilog', std, '-o', o, v], timeout=timeout)
    # the exit code of the compiler is the number of errors
    if rc == 124 and 'error' not in err:
        raise TimeoutError('iverilog ' + err)
    if rc:
        raise Reject(err[-2000:])
    if check_only:
        return '', err
    rc, out, err2 = run(['vvp', '-n', o], timeout=timeout)
    os.remove(o)
    if rc == 124:
        raise TimeoutError('vvp ' + err2)
    if rc not in (0, 1):
        raise HarnessError('vvp rc=%s %s %s' % (rc, out[-500:], err2[-500:]))
    return (out, err) if warn else out
