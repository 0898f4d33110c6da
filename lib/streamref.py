"""Reference for an AXI master that feeds (or drains) a port-less AXI stream:
words move through one queue, each side takes them when they are there."""
import collections


class Fifo(object):
    def __init__(self, dw):
        self.dw, self.q = dw, collections.deque()

    def enq(self, v):
        self.q.append(v & ((1 << self.dw) - 1))

    def deq(self):
        return self.q.popleft()


class Q(object):
    def __init__(self):
        self.q, self.pend = collections.deque(), collections.deque()

    def put(self, x):
        self.q.append(x)
        self.pump()

    def take(self, n, fn):
        """fn(list of n words) as soon as n more words are there, in order"""
        self.pend.append((n, fn))
        self.pump()

    def pump(self):
        while self.pend and len(self.q) >= self.pend[0][0]:
            n, fn = self.pend.popleft()
            fn([self.q.popleft() for _ in range(n)])


class AX(object):
    def __init__(self, g, ax, q):
        self.g, self.ax, self.q = g, ax, q

    def set_global_base_addr(self, v):
        self.g.base = v

    def dma_read_async(self, ga, n):
        g = self.g
        base = (ga + g.base) & ~(g.bb - 1)
        for k in range(n):
            self.q.put((self.ax._beat_r(base + k * g.bb), int(k == n - 1)))

    def dma_write_async(self, ga, n):
        g = self.g
        base = (ga + g.base) & ~(g.bb - 1)
        for k in range(n):
            a = base + k * g.bb
            self.q.take(1, lambda ws, a=a: self.ax._beat_w(a, ws[0][0]))

    def dma_wait_read(self):
        self.g.rwait = len(self.g.rd)

    def dma_wait_write(self):
        self.g.wwait = len(self.g.wr)

    def dma_wait(self):
        self.dma_wait_read()
        self.dma_wait_write()


class ST(object):
    def __init__(self, g, q, w):
        self.g, self.q, self.w = g, q, w

    def read(self):
        out = []
        self.q.take(1, out.extend)
        return out[0]

    def write(self, v, last=0):
        self.q.put((v & ((1 << self.w) - 1), last))

    def dma_read_async(self, mem, *a):
        g, w = self.g, self.w
        n = a[-1] if isinstance(mem, Fifo) else a[1]
        st = a[2] if len(a) > 2 else 1

        def put(j, v):
            if isinstance(mem, Fifo):
                return mem.enq(v)
            p, ad = mem.slot(a[0] + j * st)[0]
            p.v[ad] = v & ((1 << p.dw) - 1)
            g.order.append((p.idx, ad))
        if mem.dw >= w:
            pk = mem.dw // w
            for j in range(n):
                self.q.take(pk, lambda ws, j=j: put(j, sum(x[0] << (i * w) for i, x in enumerate(ws))))
        else:
            pk = w // mem.dw
            for j in range(0, n, pk):
                self.q.take(1, lambda ws, j=j: [put(j + i, (ws[0][0] >> (i * mem.dw)) & ((1 << mem.dw) - 1)) for i in range(min(pk, n - j))])

    def dma_read(self, *a):
        self.dma_read_async(*a)
        self.dma_wait_read()

    def dma_wait_read(self):
        self.g.rwait = len(self.g.rd)

    def dma_write_async(self, mem, *a):
        w = self.w
        n = a[-1] if isinstance(mem, Fifo) else a[1]
        st = a[2] if len(a) > 2 else 1

        def get(j):
            if isinstance(mem, Fifo):
                return mem.deq()
            p, ad = mem.slot(a[0] + j * st)[0]
            return p.v[ad]
        m = (1 << w) - 1
        if mem.dw >= w:
            for j in range(n):
                v = get(j)
                for k in range(mem.dw // w):
                    self.q.put(((v >> (k * w)) & m, 0))
        else:
            pk = w // mem.dw
            for j in range(0, n, pk):
                self.q.put((sum(get(j + i) << (i * mem.dw) for i in range(min(pk, n - j))), 0))

    dma_write = dma_write_async

    def dma_wait_write(self):
        pass


def refs(g, ax, w, fifos):
    q = Q()
    d = dict(ax=AX(g, ax, q), st=ST(g, q, w))
    for n, (dw, aw) in fifos.items():
        d[n] = Fifo(dw)
    return d
