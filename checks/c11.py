"""C11: a DMA copies exactly the requested words, under every bus schedule."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import Check, pmap, tier  # noqa
import rtl  # noqa
import aximon  # noqa
import axicfgs  # noqa


@rtl.guarded
def one(res, it):
    name, chk = it
    cfg = axicfgs.configs(tier())[name]
    v, cpp, df = aximon.make(cfg, chk)
    rtl.explore(res, name, '%s' % ' | '.join(p.replace('\n', '; ') for p in cfg['progs']), v, cpp, defines=df, max_states=3000000)


def main():
    c = Check('C11')
    its = [(n, 'data') for n in axicfgs.configs(tier())]
    c.count('configurations', len(its))
    for r in pmap(one, its, 'c11'):
        c.absorb(r)
    c.assumptions = ['emitted RTL (Verilator) composed with a slave making every ready/valid/response choice, with up to 3 unanswered requests per channel; '
                     'burst limit and boundary are scaled down through the class attributes burst_size_width/boundary_size in most configurations']
    c.finish()


if __name__ == '__main__':
    main()
