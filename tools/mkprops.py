import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

p('C01', 'Emitted expressions denote the operator tree that was built',
  "Whatever expression a user builds from signals, constants and the veriloggen operators (arithmetic, logical, bitwise, reduction, shifts, comparisons, Mux/Cond, Cat, Repeat, bit/part selects, system functions such as $signed, integer literals of any base, width and sign), the emitted Verilog expression has, for every value of the operands including x and z, the value that the same tree has when each operator is applied to fully parenthesised operands in the order given. Reflected operators (constant on the left), nested selects of multi-dimensional wires, and negative, sized, signed, x/z-valued and string-form literals keep operand order, width, sign and value.",
  ['programs', 'inputs'], 'every expression tree up to a depth bound over every operator and literal form, and every assignment of small operands',
  'tests/core compares the text of about 60 fixed designs; no combination of operators beyond those is ever evaluated',
  ['veriloggen/core/vtypes.py', 'veriloggen/verilog/to_verilog.py'],
  [('operator overloading', 'veriloggen/core/vtypes.py:_Numeric'), ('expression translation', 'veriloggen/verilog/to_verilog.py:VerilogBindVisitor')],
  observe=['Module.to_verilog() text, simulated'])

p('C02', 'Emitted procedural code and module items behave as written',
  "A module written with Always/Initial/Assign, If/Elif/Else, Case/Casex/When, For/While, blocking and nonblocking Subst, bit/slice/concatenation targets, functions, tasks, parameters/localparams, generate for/if, arrays and delayed statements behaves, for every input sequence, exactly as the same constructs written directly in Verilog: the same branch is taken, targets get the same bits at the same time, statements keep their order, and sensitivity lists are those requested.",
  ['programs', 'inputs'], 'every statement tree of the enumerated shapes (nesting up to a bound), and every input sequence up to a length bound',
  'the tests compare text for one fixed instance of each construct',
  ['veriloggen/core/vtypes.py', 'veriloggen/core/module.py', 'veriloggen/core/function.py', 'veriloggen/core/task.py', 'veriloggen/verilog/to_verilog.py'],
  [('statement classes', 'veriloggen/core/vtypes.py:Always,If,Case,For,While,Subst'), ('item translation', 'veriloggen/verilog/to_verilog.py:VerilogAlwaysVisitor,VerilogModuleVisitor')])

p('C03', 'Importing Verilog source preserves the behaviour of the imported module',
  "A Verilog module read with the from_verilog importers (or re-emitted after import, including its submodules, parameters, functions, tasks, generate blocks and instances) behaves for every input sequence as the original source text, with the same ports, widths and parameter defaults.",
  ['programs', 'inputs'], 'every module text of an enumerated grammar of expressions, statements and items; every input sequence up to a bound',
  'twelve fixed texts are imported and compared as text',
  ['veriloggen/verilog/from_verilog.py', 'veriloggen/verilog/to_verilog.py'],
  [('AST reader', 'veriloggen/verilog/from_verilog.py:VerilogReadVisitor')])

p('C04', 'Constant evaluation and folding agree with the emitted hardware',
  "Whenever veriloggen evaluates constants itself (optimizer and resolver passes, parameter and width resolution, the eval of constant stream/thread operators), the resulting number or simplified expression equals the value the unsimplified expression has in Verilog for every value of the remaining variables.",
  ['programs', 'inputs'], 'every operator applied to every constant pair of a grid of signs and magnitudes, all trees of depth two with mixed constants and variables',
  'resolver tests check the text of a handful of designs with positive constants',
  ['veriloggen/optimizer/optimizer.py', 'veriloggen/resolver/resolver.py', 'veriloggen/core/vtypes.py', 'veriloggen/stream/stypes.py'],
  [('constant folding', 'veriloggen/optimizer/optimizer.py:Optimizer'), ('resolver', 'veriloggen/resolver/resolver.py'), ('op methods', 'veriloggen/core/vtypes.py:*.op')])

p('C05', 'Seq applies each registered update under its condition, delay and reset',
  "In a Seq, every update added takes effect exactly at the clock edges at which its accumulated condition (If, Elif, Else, nested or chained, a Then-condition reused later) held the requested number of delay cycles earlier with operands sampled as documented (eager or lazy values/conditions, keep for the requested number of cycles), when several updates of one register fall on the same edge the one with the smaller delay, and among equal delays the later added one, wins, and Prev(n) returns the value n edges ago. Every register used gets its initial value on (synchronous) reset, and emitting the same Seq inline or as a separate module makes no difference.",
  ['programs', 'histories'], 'all combinations of condition form, delay, keep, eager/lazy flags and reset form up to a bound; all input histories (including mid-run resets) up to a length bound',
  'about a dozen seq_ texts compared verbatim; combinations of delay, keep, eager and Elif/Else are not executed',
  ['veriloggen/seq/seq.py', 'veriloggen/seq/reset_visitor.py'],
  [('condition accumulation', 'veriloggen/seq/seq.py:Seq.If/Elif/Else'), ('delayed copies', 'veriloggen/seq/seq.py:_add_delayed_*'), ('reset generation', 'veriloggen/seq/reset_visitor.py')])

p('C06', 'An FSM performs each state\'s actions and transitions exactly as declared',
  "An FSM starts in its initial state after reset and at each clock edge does precisely the actions attached to the current state whose conditions hold (with If/Elif/Else, delay, keep and eager/lazy options as for Seq), then moves to the destination of the last applicable goto (conditional, else, From/Then forms, explicit or implicit index) or stays. The case style, the if style, and the separate-module form of the same FSM are indistinguishable from outside.",
  ['programs', 'histories'], 'all FSMs up to 4 states over the transition/action forms of the API; all input histories up to a length bound, with resets',
  'fixed FSM texts; no two emission styles are ever compared and most option combinations never run',
  ['veriloggen/fsm/fsm.py', 'veriloggen/seq/reset_visitor.py'],
  [('state bodies and jumps', 'veriloggen/fsm/fsm.py:FSM.add/goto'), ('emission', 'veriloggen/fsm/fsm.py:make_always/make_case/make_if')])

p('C07', 'A thread computes what its Python function computes',
  "For every program in the supported Python subset (integer arithmetic, comparison, boolean and conditional expressions, assignment and augmented assignment, if/elif/else, while, for-range, break, continue, return, nested and repeated function calls with positional, keyword and default arguments, bit and array access, blocking operations), the synthesized thread terminates with the same variable values, outputs and side-effect order as CPython executing the same function on integers of that width, whatever the data.",
  ['programs', 'inputs'], 'all programs of an enumerated grammar up to a size bound and all small input values',
  'each of the 256 thread tests is one program with one data set',
  ['veriloggen/thread/compiler.py', 'veriloggen/thread/thread.py', 'veriloggen/thread/scope.py', 'veriloggen/thread/operator.py', 'veriloggen/thread/ttypes.py'],
  [('AST to FSM compilation', 'veriloggen/thread/compiler.py:CompileVisitor'), ('scopes', 'veriloggen/thread/scope.py')])

p('C08', 'Thread synchronisation is correct under every relative timing',
  "Whatever the relative speed of the threads: a mutex is held by at most one thread, only its holder releases it, try_lock tells the truth, and a waiting lock is eventually granted once free; a barrier releases nobody before all participants arrived and then releases all of them, round after round. run/join/done/ret and thread-pool operations start each thread exactly once per run with its arguments, wait for completion and return its result, and a shared register always holds the last write (simultaneous writers are resolved to exactly one of them).",
  ['schedules', 'programs'], 'all interleavings (arbitrary stalls of each thread at each step) of 2-3 threads over small synchronisation programs',
  'each test executes exactly one schedule, the deterministic simulation one',
  ['veriloggen/thread/ttypes.py', 'veriloggen/thread/thread.py', 'veriloggen/thread/pool.py'],
  [('Mutex/Barrier/Shared', 'veriloggen/thread/ttypes.py'), ('run/join/done', 'veriloggen/thread/thread.py:Thread'), ('pool', 'veriloggen/thread/pool.py:ThreadPool')])

p('C09', 'FIFOs lose, duplicate and reorder nothing, and their flags are truthful',
  "For every sequence of enqueue and dequeue requests, simultaneous ones included, a FIFO (the types.fifo primitive with registered or direct read, and thread FIFO enq/deq/try_enq/try_deq/is_empty/is_full/is_almost_* and counters) delivers exactly the accepted words in order, never accepts beyond its capacity or delivers from empty, and its empty/full/almost flags and count agree with its contents.",
  ['histories', 'schedules', 'configurations'], 'the whole reachable state space for depths 1-3 and small data widths under every enq/deq/idle choice per cycle; all thread stall schedules',
  'tests run one producer and one consumer with one timing',
  ['veriloggen/types/fifo.py', 'veriloggen/thread/fifo.py'],
  [('pointer logic', 'veriloggen/types/fifo.py:mkFifoDefinition'), ('thread access', 'veriloggen/thread/fifo.py:FIFO')])

p('C10', 'RAMs and ROMs return the last value written, on every port and bank',
  "A read of any RAM (single, multi-port, byte-enabled, external, asynchronous, multi-bank with any bank count or packing) returns the last value written to that address by any port or bank access, or its initial contents, whatever the port, address, burst length, stride and block form used and however accesses interleave; ROM and pattern-table reads return the table value for every address. Multi-bank address interleaving, read_bank/write_bank and burst (block, packed, broadcast) accesses all see the same single memory.",
  ['histories', 'configurations'], 'all operation sequences up to a depth over a small address space, for each RAM class, port count, bank count, width and initial contents',
  'tests write a ramp and read it back once',
  ['veriloggen/types/ram.py', 'veriloggen/types/rom.py', 'veriloggen/thread/ram.py'],
  [('port logic', 'veriloggen/types/ram.py'), ('thread RAM access', 'veriloggen/thread/ram.py:RAM,MultibankRAM')])

p('C11', 'DMA moves exactly the requested words, whatever the bus does',
  "A DMA read or write between an AXI memory and a RAM or multi-bank RAM (blocking or async plus wait, any local/global address, size, stride, block/packed/bank/broadcast form, narrow, equal or wide memory and RAM data widths, crossing burst-length and 4 KB boundaries), and single-word AXI read/write, copies exactly the specified words (sizes being whole memory words when the memory word is the wider one, and whole packed words in the packed form) to exactly the specified places, in order, and changes nothing else. It does so, and completes, for every pattern of ready/valid stalls and response delays of the memory, and a wait returns only after the data has arrived.",
  ['schedules', 'inputs', 'configurations'], 'all sizes/alignments around boundaries and every ready/valid schedule (up to a stall bound where the space is not finite)',
  'tests use one memory model with one fixed delay pattern and a few sizes',
  ['veriloggen/thread/axim.py', 'veriloggen/types/axi.py', 'veriloggen/thread/ram.py'],
  [('DMA FSMs', 'veriloggen/thread/axim.py:AXIM'), ('AXI channels', 'veriloggen/types/axi.py:AxiMaster')])

p('C12', 'AXI master ports never violate the AXI handshake and burst rules',
  "On every AXI master port generated, a raised valid stays high with stable payload until ready, each write burst carries exactly awlen+1 data beats with wlast on the last one and only there, no burst exceeds 256 beats or crosses a 4 KB boundary, addresses are aligned to the data size, and read data is accepted only for requested beats; this holds for all ready/valid schedules and any back-to-back sequence of requests.",
  ['schedules', 'inputs'], 'every slave behaviour (stall pattern) and all request sizes/alignments near the boundaries',
  'the bundled memory model accepts any malformed traffic silently, so the tests cannot see violations',
  ['veriloggen/types/axi.py', 'veriloggen/thread/axim.py'],
  [('burst splitting', 'veriloggen/thread/axim.py:check_boundary,burst size'), ('channel registers', 'veriloggen/types/axi.py:AxiMasterWriteAddress...')])

p('C13', 'Memory-mapped slave registers behave as registers on the AXI bus',
  "For every legal AXI master behaviour (any order and spacing of address, data and ready signals, bursts included), an AXI slave or AXI-lite slave register file acknowledges each transaction exactly once, a bus write updates exactly the addressed register, a bus read returns its current value, and the owning thread's read, write, write_flag and wait/wait_flag operations see and change the same registers without losing an update or missing a flag (flags clear to their reset value exactly once when consumed).",
  ['schedules', 'histories'], 'all bounded sequences of bus transactions and all channel timings against the register file and its thread',
  'tests issue a few transactions with the one timing of the bundled bus model',
  ['veriloggen/thread/axis.py', 'veriloggen/types/axi.py'],
  [('register FSM', 'veriloggen/thread/axis.py:AXISRegister'), ('slave channels', 'veriloggen/types/axi.py:AxiSlave,AxiLiteSlave')])

p('C14', 'AXI-stream transfers deliver every word once, in order, under any stalls',
  "AXI-stream input and output (thread read/write/DMA to and from RAMs, with any size, stride, data width and last handling, blocking or async) transfer exactly the requested words in order with tlast exactly where required, keep tvalid and payload stable until tready, and complete for every tvalid/tready schedule (sizes being whole stream words where a FIFO word is narrower than the stream word).",
  ['schedules', 'configurations'], 'every tvalid/tready schedule and all small sizes, strides and width ratios',
  'one stall-free or fixed-delay run each',
  ['veriloggen/thread/axistreamin.py', 'veriloggen/thread/axistreamout.py', 'veriloggen/thread/axim_for_axistream.py', 'veriloggen/types/axi.py'],
  [('stream in', 'veriloggen/thread/axistreamin.py'), ('stream out', 'veriloggen/thread/axistreamout.py')])

p('C15', 'Every stream operator computes its function for all inputs, signs and widths',
  "Each stream operator (arithmetic including multiply, divide, modulo, shifts and rounding shifts, comparisons, logical and bitwise, reductions, Mux/Cond, Cat/slice/pointer, sign control and casts, multiply-add, max/min, add trees, pattern/LUT, counters, accumulators and pulses with interval, enable, reset and initial value, ring buffers, scratchpads and custom operators) produces for every input value, sign, width combination and history the value its documentation and eval define. Constant operands give the same result as the same value supplied at run time.",
  ['programs', 'inputs', 'histories'], 'every operator with every width/sign combination of a grid, all operand values of small widths, all input histories up to a bound for stateful ones',
  'each stream test runs one operator at one width on a ramp of small positive data',
  ['veriloggen/stream/stypes.py', 'veriloggen/stream/mul.py', 'veriloggen/stream/div.py', 'veriloggen/stream/madd.py'],
  [('operator implementations', 'veriloggen/stream/stypes.py:_implement')])

p('C16', 'Stream pipelines stay aligned: latency and stalls never change results',
  "In any stream dataflow graph (paths of different latency, fan-out, feedback accumulators, constants and parameters), each output element is the graph function applied to the input elements of the same index, regardless of scheduling, of operator latency, and, with valid/ready handshakes, of any pattern of stalls: no element is lost, duplicated, reordered or mixed with another.",
  ['programs', 'schedules'], 'all small dataflow graphs over operators of different latency; every valid/ready pattern up to a bound',
  'eleven stream texts compared verbatim, none simulated under stalls',
  ['veriloggen/stream/scheduler.py', 'veriloggen/stream/stream.py', 'veriloggen/stream/allocator.py', 'veriloggen/stream/visitor.py', 'veriloggen/stream/stypes.py'],
  [('ASAP scheduling and delay insertion', 'veriloggen/stream/scheduler.py'), ('handshake', 'veriloggen/stream/stream.py')])

p('C17', 'A stream run reads its sources and fills its sinks exactly as configured',
  "A thread-controlled stream run consumes exactly the elements given by each source setting (RAM, size, stride, offset, multi-dimensional pattern with any loop order, multi-pattern, constant, FIFO, empty) and writes exactly the enabled results to each sink's locations in order (with 'when' conditions, strides, patterns, immediate or FIFO sinks), nothing else; run/join/terminate, reset, repeated runs with changed settings, parameters, substreams and read/write RAM accesses never leave residue from a previous run.",
  ['configurations', 'histories'], 'all source/sink modes, sizes, strides, offsets and loop nests up to a bound, sequences of two or three runs with different settings',
  'each test is one configuration run once or twice',
  ['veriloggen/thread/stream.py', 'veriloggen/stream/stream.py', 'veriloggen/stream/stypes.py'],
  [('source/sink FSMs', 'veriloggen/thread/stream.py:Stream'), ('run control', 'veriloggen/thread/stream.py:run/join')])

p('C18', 'Fixed-point and saturating arithmetic is exact up to the declared point',
  "Fixed-point values (module-level and thread-level, including fixed-point RAMs and FIFOs) hold value*2^point; every operation, comparison, cast, conversion from and to int/real, shift and multiplication between operands of any widths and points and of one signedness gives the mathematically expected result truncated to the result point whenever the aligned operands and the result fit their width (a quotient carries as many fraction bits as the dividend has more than the divisor), and saturating operations clamp at exactly the representable (or given) limits, for all operand values.",
  ['inputs', 'configurations'], 'all operand values for small widths and all combinations of point positions and signs',
  'tests display a few values with one width and point',
  ['veriloggen/types/fixed.py', 'veriloggen/thread/fixed.py', 'veriloggen/types/saturate.py', 'veriloggen/stream/stypes.py'],
  [('fixed operators', 'veriloggen/types/fixed.py'), ('saturation', 'veriloggen/types/saturate.py')])

p('C19', 'Dataflow and pipeline graphs are functional and stall-safe',
  "A dataflow graph or pipeline produces, for all inputs, the value of the corresponding function of the input elements, aligned across paths of different latency, with registered state (accumulators, counters, iterators) advancing only on valid elements, and with valid/ready enabled loses, duplicates or reorders nothing under any stall pattern.",
  ['programs', 'schedules', 'inputs'], 'all small graphs over the dataflow/pipeline operators and every valid/ready pattern up to a bound',
  'all existing dataflow and pipeline tests compare emitted text of fixed graphs',
  ['veriloggen/dataflow/dtypes.py', 'veriloggen/dataflow/scheduler.py', 'veriloggen/dataflow/dataflow.py', 'veriloggen/dataflow/allocator.py', 'veriloggen/pipeline/pipeline.py'],
  [('operator implementation', 'veriloggen/dataflow/dtypes.py'), ('stage insertion', 'veriloggen/pipeline/pipeline.py')])

p('C20', 'Valid/ready elastic buffers preserve the data stream',
  "A skid buffer transfers every accepted item exactly once in order with its values together, holds valid and data stable until accepted, never drops ready for an item it cannot store, and sustains one item per cycle when not stalled, for all valid/ready schedules and any number of values.",
  ['schedules'], 'the complete reachable state space under every valid/ready choice',
  'one schedule is simulated',
  ['veriloggen/types/skidbuffer.py'],
  [('SkidBuffer', 'veriloggen/types/skidbuffer.py:SkidBuffer')])

p('C21', 'Module composition connects what was named and rejects clashes',
  "Instances, submodules, generate blocks, copied ports/signals/parameters/localparams/simulation ports and connect/rename helpers connect exactly the named ports with the given signals, directions, widths and parameter values, so a composed design behaves as its flattened equivalent. Defining two objects with one name in a scope (a port copied over a port and a parameter copied over a parameter replace it), connecting an unknown port or parameter, or mixing named and positional connections is rejected, and temporary names never collide with user names.",
  ['programs', 'configurations'], 'all compositions of an enumerated set of helpers, include/exclude/rename patterns, parameter overrides and instance forms',
  'a few fixed texts per helper',
  ['veriloggen/core/module.py', 'veriloggen/core/submodule.py', 'veriloggen/core/rename_visitor.py', 'veriloggen/verilog/to_verilog.py'],
  [('Module API', 'veriloggen/core/module.py:Module'), ('Submodule', 'veriloggen/core/submodule.py')])

p('C22', 'Generation is deterministic and independent of history',
  "Emitting a design twice gives the same text (apart from the unique name of a memory image file written for a memory model that was given none), building the same design again in the same process after veriloggen.reset(), whatever was built or emitted before, gives the same text as in a fresh process, and the text does not depend on hash seeds or object addresses.",
  ['histories'], 'all sequences up to a depth of building/emitting designs from a pool, with a reset before the last, compared with a fresh process; several hash seeds',
  'every test builds one design right after a reset in a fixed order',
  ['veriloggen/core/vtypes.py', 'veriloggen/core/module.py', 'veriloggen/thread/util.py', 'veriloggen/thread/ram.py', 'veriloggen/stream/stypes.py', 'veriloggen/verilog/to_verilog.py'],
  [('global counters and reset', 'veriloggen/core/vtypes.py:reset'), ('caches', 'veriloggen/thread/util.py')])

p('C23', 'The AXI memory models implement a memory behind legal AXI',
  "The bundled AXI memory models (concurrent and serial, single and multi-port, on AXI4 and AXI4-Lite buses, with any delay or sleep setting and initial image) answer every legal master behaviour with legal responses: each burst gets exactly its beats with rlast on the last, each write burst one response, byte strobes select the bytes written, and reads (by the bus or by a thread) return the last written or initial contents; memory images lay out data of any width and shape as described.",
  ['schedules', 'histories', 'configurations'], 'all bounded transaction sequences and channel timings, for each model and setting',
  'tests attach only the well-timed veriloggen master to it',
  ['veriloggen/types/axi.py'],
  [('memory model FSMs', 'veriloggen/types/axi.py:AxiMemoryModel,AxiMultiportMemoryModel,...')])

p('C24', 'Simulation helpers produce the stimulus they describe',
  "The clock, reset and step helpers toggle every clock with its requested half period, run the given initial statements, assert every reset from the requested time for the requested length and polarity, and wait for exactly the requested clock edges, under Icarus and, for clocks and resets, in the generated Verilator driver. The simulator front end runs exactly the given sources with the given defines, include and library directories and top module, and dumps exactly the selected objects.",
  ['configurations'], 'every combination of period, polarity, reset length and helper over a grid',
  'tests use one period and one reset length',
  ['veriloggen/simulation/simulation.py'],
  [('setup_clock/setup_reset/next_clock', 'veriloggen/simulation/simulation.py')])

p('C25', 'The UART sends and receives every byte correctly',
  "A UART transmitter frames every byte as start bit, eight data bits least significant first, and stop bit of the configured bit time, and the receiver recovers exactly the transmitted bytes in order, for all byte values, bit times of at least two clocks and gaps between frames.",
  ['inputs', 'schedules', 'configurations'], 'all 256 byte values, all byte pairs of a grid, all gaps up to a bit time, several baud settings',
  'one loopback of a few characters',
  ['veriloggen/thread/uart.py'],
  [('UartTx/UartRx', 'veriloggen/thread/uart.py')])

p('C26', 'Exported IP descriptions match the module\'s interface',
  "The IP-XACT/component description generated for a module lists exactly the module's ports with direction and width, its parameters with their defaults, and groups the signals of each AXI/AXI-lite/AXI-stream/clock/reset interface under the right bus role and name.",
  ['configurations'], 'all modules of an enumerated set of port/parameter/interface combinations',
  'tests only check that generation runs',
  ['veriloggen/types/ipxact.py', 'veriloggen/types/componentgen.py'],
  [('component generation', 'veriloggen/types/componentgen.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
