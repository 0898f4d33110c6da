"""A pool of small designs, one per way of building a design.  Each entry is
a function without arguments returning the top Module."""
import collections
import veriloggen as vg
import veriloggen.thread as vthread
import veriloggen.stream as vstream
import veriloggen.dataflow as vdataflow
import veriloggen.pipeline.pipeline as vpipeline
import veriloggen.types.fixed as vfixed
import veriloggen.types.axi as vaxi
import veriloggen.types.ram as vram
import veriloggen.types.fifo as vfifo
from veriloggen import simulation as vsim

POOL = collections.OrderedDict()


def design(f):
    POOL[f.__name__] = f
    return f


def top(name='top'):
    m = vg.Module(name)
    return m, m.Input('CLK'), m.Input('RST')


@design
def core_items():
    m = vg.Module('core')
    w = m.Parameter('W', 8)
    clk = m.Input('CLK')
    a = m.Input('a', w)
    o = m.OutputReg('o', w, initval=0)
    t = m.TmpReg(8, initval=0)
    u = m.TmpWire(8)
    u.assign(a + t)
    m.Always(vg.Posedge(clk))(o(u), vg.If(a > 3)(t.inc()).Else(t(0)))
    m.make_reset()
    return m


@design
def core_hier():
    sub = core_items()
    m = vg.Module('hier')
    clk = m.Input('CLK')
    a = m.Input('a', 8)
    o = m.Output('o', 8)
    m.Instance(sub, 'i0', params=(('W', 8),), ports=(('CLK', clk), ('a', a), ('o', o)))
    return m


@design
def core_submodule():
    sub = core_items()
    m = vg.Module('hier2')
    clk = m.Input('CLK')
    a = m.Input('a', 8)
    s = vg.Submodule(m, sub, 'sub', prefix='p_', arg_ports=(('CLK', clk), ('a', a)))
    o = m.Output('o', 8)
    o.assign(s['o'])
    return m


@design
def core_function():
    m = vg.Module('func')
    a = m.Input('a', 8)
    o = m.Output('o', 8)
    f = m.Function('f', 8)
    x = f.Input('x', 8)
    f.Body(f(x + 1))
    o.assign(f.call(a))
    return m


@design
def core_generate():
    m = vg.Module('gen')
    a = m.Input('a', 4)
    o = m.Output('o', 4)
    i = m.Genvar('i')
    g = m.GenerateFor(i(0), i < 4, i(i + 1), scope='blk')
    t = g.TmpWire()
    t.assign(a[i])
    g.Assign(o[i](t))
    return m


@design
def core_failed():
    m = vg.Module('fail')
    m.Reg('x')
    m.Reg('x')
    return m


@design
def seq_basic():
    m, clk, rst = top()
    a = m.Input('a', 8)
    o = m.OutputReg('o', 8, initval=0)
    s = vg.TmpSeq(m, clk, rst)
    s.If(a > 2).Delay(2)(o(a))
    s.Prev(a, 2)
    s2 = vg.TmpSeq(m, clk, rst)
    r = m.TmpReg(4, initval=0)
    s2(r(s2.Prev(o, 1)))
    return m


@design
def fsm_basic():
    m, clk, rst = top()
    a = m.Input('a', 8)
    o = m.OutputReg('o', 8, initval=0)
    f = vg.TmpFSM(m, clk, rst)
    f.If(a == 1)(o(1))
    f.If(a == 1).goto_next()
    f.Delay(1)(o(2))
    f.goto_init()
    g = vg.TmpFSM(m, clk, rst)
    g.goto_next()
    g.goto_init()
    return m


@design
def thread_basic():
    m, clk, rst = top()
    o = m.OutputReg('o', 32, initval=0)

    def f(n):
        s = 0
        for i in range(n):
            if i & 1:
                s += i
            else:
                s -= g(i)
        o.value = s

    def g(x):
        return x * 3
    th = vthread.Thread(m, 'th', clk, rst, f)
    th.start(5)
    p = m.OutputReg('p', 32, initval=0)

    def h(x):
        p.value = g(x)
    t2 = vthread.TmpThread(m, clk, rst, h)
    t2.start(2)
    return m


@design
def thread_fixed():
    m, clk, rst = top()
    x = vfixed.FixedReg(m, 'x', 16, 4, initval=1.5)
    y = vfixed.FixedReg(m, 'y', 16, 4, initval=-1.5)

    def f():
        x.value = x * 2
        z = x + y
        x.value = z
    th = vthread.Thread(m, 'th', clk, rst, f)
    th.start()
    return m


@design
def thread_mutex_pool():
    m, clk, rst = top()
    mu = vthread.Mutex(m, 'mu', clk, rst)
    ba = vthread.Barrier(m, 'ba', clk, rst, numparties=2)

    def w(tid):
        mu.lock()
        print(tid)
        mu.unlock()
        ba.wait()
    pool = vthread.ThreadPool(m, 'th', clk, rst, w, 2)
    for i in range(2):
        pool.threads[i].start(i)
    t = vthread.Thread(m, 'a', clk, rst, w)
    t.start(1)
    return m


def _copy(names, pattern, nums=1):
    m, clk, rst = top()
    rams = [vthread.RAM(m, n, clk, rst, 32, 4) for n in names]

    def f():
        vthread.copy(rams[0], rams[1], 0, 0, 4)

    def g():
        vthread.copy_pattern(rams[0], rams[1], 0, 0, ((4, 1),), ((4, 1),))

    def h():
        vthread.copy_pattern(rams[0], rams[1], 0, 0, ((4, 1),), ((4, 1),))
        vthread.copy(rams[0], rams[1], 0, 0, 4)
    th = vthread.Thread(m, 'th', clk, rst, (f, g, h)[pattern])
    th.start()
    return m


@design
def ram_copy():
    return _copy(('ra', 'rb'), 0)


@design
def ram_copy_pattern():
    return _copy(('ra', 'rb'), 1)


@design
def ram_copy_both():
    return _copy(('ra', 'rb'), 2)


@design
def ram_copy_modules():
    """RAMs of the same names in two modules of one design"""
    m, clk, rst = top()
    subs = []
    for i in range(2):
        s, sclk, srst = top('sub%d' % i)
        ra = vthread.RAM(s, 'ra', sclk, srst, 32, 4)
        rb = vthread.RAM(s, 'rb', sclk, srst, 32, 4)

        def f():
            vthread.copy(ra, rb, 0, 0, 4)
        vthread.Thread(s, 'th', sclk, srst, f).start()
        m.Instance(s, 'i%d' % i, ports=(('CLK', clk), ('RST', rst)))
    return m


@design
def multibank():
    m, clk, rst = top()
    rams = [vthread.RAM(m, n, clk, rst, 32, 4) for n in ('ra', 'rb')]
    mb = vthread.to_multibank_ram(rams)
    mb2 = vthread.MultibankRAM(m, 'mb', clk, rst, 16, 3, numbanks=2)
    o = m.OutputReg('o', 32, initval=0)

    def f():
        mb.write(1, 2)
        o.value = mb.read(1)
        mb2.write(1, 2)
        rams[0].write(3, 1)
    th = vthread.Thread(m, 'th', clk, rst, f)
    th.start()
    return m


@design
def axi_dma():
    m, clk, rst = top()
    ram = vthread.RAM(m, 'ram', clk, rst, 32, 4)
    ax = vthread.AXIM(m, 'maxi', clk, rst, 32)

    def f():
        ax.dma_read(ram, 0, 64, 8)
        ax.dma_write(ram, 0, 128, 8)
    th = vthread.Thread(m, 'th', clk, rst, f)
    th.start()
    return m


@design
def axi_slave():
    m, clk, rst = top()
    sx = vthread.AXISLiteRegister(m, 'sx', clk, rst, 32, length=4)

    def f():
        sx.wait(0, 1)
        sx.write(1, sx.read(2) + 1)
        sx.write_flag(3, 1)
    th = vthread.Thread(m, 'th', clk, rst, f)
    th.start()
    return m


@design
def axi_memory():
    m = vg.Module('test')
    clk, rst = m.Reg('CLK'), m.Reg('RST')
    mem = vaxi.AxiMemoryModel(m, 'memory', clk, rst)
    m.Initial(clk(0), rst(1), vg.Delay(10), rst(0))
    return m


@design
def fifo_threads():
    m, clk, rst = top()
    q = vthread.FIFO(m, 'q', clk, rst, 8, 3)
    o = m.OutputReg('o', 8, initval=0)

    def a():
        for i in range(3):
            q.enq(i)

    def b():
        while True:
            o.value = q.deq()
    vthread.Thread(m, 'a', clk, rst, a).start()
    vthread.Thread(m, 'b', clk, rst, b).start()
    return m


@design
def stream_ops():
    x = vstream.Variable('x', 16, signed=True)
    y = vstream.Variable('y', 16, signed=True)
    z = x * y + x
    w = vstream.ReduceAdd(z)
    c = vstream.Counter(7)
    z.output('z')
    w.output('w')
    c.output('c')
    return vstream.Stream(z, w, c).to_module('strm')


@design
def stream_div():
    x = vstream.Variable('x', 8, signed=False)
    y = vstream.Variable('y', 8, signed=False)
    z = x / y
    z.output('z')
    return vstream.Stream(z).to_module('strm')


@design
def stream_madd():
    x = vstream.Variable('x', 16, signed=True)
    y = vstream.Variable('y', 16, signed=True)
    z = vstream.AddN(x, y, x * y, vstream.Int(3))
    k = vstream.Madd(x, y, z)
    z.output('z')
    k.output('k')
    return vstream.Stream(z, k).to_module('strm')


@design
def thread_stream():
    m, clk, rst = top()
    a = vthread.RAM(m, 'ra', clk, rst, 32, 4)
    b = vthread.RAM(m, 'rb', clk, rst, 32, 4)
    c = vthread.RAM(m, 'rc', clk, rst, 32, 4)
    st = vthread.Stream(m, 'st', clk, rst)
    x = st.source('x')
    y = st.source('y')
    k = st.parameter('k')
    st.sink(x * y + k, 'z')

    def f():
        st.set_source('x', a, 0, 4)
        st.set_source_pattern('y', b, 0, ((2, 1), (2, 0)))
        st.set_parameter('k', 3)
        st.set_sink('z', c, 0, 4)
        st.run()
        st.join()
    vthread.Thread(m, 'th', clk, rst, f).start()
    return m


@design
def thread_substream():
    m, clk, rst = top()
    a = vthread.RAM(m, 'ra', clk, rst, 32, 4)
    c = vthread.RAM(m, 'rc', clk, rst, 32, 4)
    mac = vthread.Stream(m, 'mac', clk, rst)
    x = mac.source('x')
    size = mac.parameter('size')
    s, v = mac.ReduceAddValid(x, size)
    mac.sink(s, 's')
    mac.sink(v, 'v')
    st = vthread.Stream(m, 'st', clk, rst)
    x = st.source('x')
    n = st.parameter('n')
    sub = st.substream(mac)
    sub.to_source('x', x)
    sub.to_parameter('size', n)
    st.sink(sub.from_sink('s'), 'o', when=sub.from_sink('v'), when_name='ov')

    def f():
        st.set_source('x', a, 0, 4)
        st.set_parameter('n', 2)
        st.set_sink('o', c, 0, 2)
        st.run()
        st.join()
    vthread.Thread(m, 'th', clk, rst, f).start()
    return m


@design
def dataflow_ops():
    x = vdataflow.Variable('xdata', valid='xvalid', ready='xready', width=8)
    y = vdataflow.Variable('ydata', valid='yvalid', ready='yready', width=8)
    z = x * y + x
    z.output('zdata', valid='zvalid', ready='zready')
    w = x.prev(1) + y
    w.output('wdata', valid='wvalid', ready='wready')
    return vdataflow.Dataflow(z, w).to_module('df')


@design
def dataflow_div():
    x = vdataflow.Variable('xdata', width=8)
    y = vdataflow.Variable('ydata', width=8)
    z = x / y
    z.output('zdata')
    return vdataflow.Dataflow(z).to_module('df')


@design
def pipeline_ops():
    m, clk, rst = top()
    x = m.Input('x', 8)
    vx, rx = m.Input('vx'), m.Output('rx')
    y = m.Output('y', 8)
    vy, ry = m.Output('vy'), m.Input('ry')
    p = vpipeline.Pipeline(m, 'p', clk, rst)
    a = p.input(x, valid=vx, ready=rx)
    b = p.stage(a + 1)
    c = p.stage(b + a)
    c.output(y, valid=vy, ready=ry)
    p.make_always()
    return m


@design
def verilog_import():
    ms = vg.from_verilog.read_verilog_module_str('''
module leaf(input CLK, input [7:0] a, output reg [7:0] o);
  always @(posedge CLK) o <= a + 1;
endmodule
''')
    m = vg.Module('imp')
    clk = m.Input('CLK')
    a = m.Input('a', 8)
    o = m.Output('o', 8)
    m.Instance(ms['leaf'], 'u', ports=(('CLK', clk), ('a', a), ('o', o)))
    return m


@design
def stub_modules():
    m, clk, rst = top()
    st = vg.StubModule('ext', code='module ext(input CLK); endmodule')
    m.Instance(st, 'e', ports=(('CLK', clk),))
    return m


@design
def sim_bench():
    d = seq_basic()
    m = vg.Module('test')
    ps = m.copy_params(d)
    ports = m.copy_sim_ports(d)
    clk, rst = ports['CLK'], ports['RST']
    m.Instance(d, 'uut', params=m.connect_params(d), ports=m.connect_ports(d))
    vsim.setup_clock(m, clk, hperiod=5)
    init = vsim.setup_reset(m, rst, m.make_reset(), period=100)
    init.add(vg.Delay(1000), vg.Systask('finish'))
    return m


@design
def types_ram_fifo():
    m, clk, rst = top()
    r = vram.SyncRAM(m, 'r', clk, 8, 3, 2)
    ft = vfifo.mkFifoDefinition('fdef', 8, 3)
    a = m.Input('a', 3)
    we = m.Input('we')
    d = m.Input('d', 8)
    r.interfaces[0].addr.assign(a)
    r.interfaces[0].wdata.assign(d)
    r.interfaces[0].wenable.assign(we)
    o = m.Output('o', 8)
    o.assign(r.rdata(0))
    m.Instance(ft, 'fi', ports=(('CLK', clk), ('RST', rst)))
    return m
