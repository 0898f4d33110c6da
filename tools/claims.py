CLAIMS = {
 'C01': ('exhaustive enumeration of expression trees x operand values (4-state simulation vs independent reference)', 'model_checking',
         'All enumerated trees (every operator pair, both associations, all literal forms) on all operand vectors of 2-3 bit signals plus x/z patterns; trusts Icarus Verilog as the semantics of both texts.'),
}
MC = 'model_checking'
CLAIMS.update({
 'C05': ('exhaustive enumeration of bounded Seq programs x all input histories (explicit unrolling of the emitted RTL, compared with an abstract update model)', MC,
         'All programs of the enumerated grammar on every input history (two data bits, reset) up to the depth bound; emitted inline, as a module, split and merged. Trusts Verilator for the emitted text.'),
 'C06': ('exhaustive enumeration of bounded FSM programs x all input histories (explicit unrolling of the emitted RTL, compared with an abstract state-machine model)', MC,
         'All programs of the enumerated grammar on every input history up to the depth bound, in case, if and module forms. Trusts Verilator for the emitted text.'),
 'C09': ('explicit-state model checking of the emitted RTL (BFS over RTL state x environment) with a queue monitor', MC,
         'Complete reachable state space for small depths and widths; thread programs under every gate timing. Trusts Verilator.'),
 'C20': ('explicit-state model checking of the emitted RTL (BFS to fixpoint) with a queue monitor', MC,
         'Complete reachable state space for value sets up to 4 bits and up to 3-4 buffers in series. Trusts Verilator.'),
})
CLAIMS.update({
 'C10': ('explicit-state model checking of the emitted RTL (BFS over RTL state x environment) with a reference memory', MC,
         'Complete reachable state space of every enumerated RAM configuration (ports, banks, packing, bursts, thread access) under every access sequence; ROMs on every address and enable history. Trusts Verilator/Icarus.'),
})
CLAIMS.update({
 'C07': ('exhaustive enumeration of bounded thread programs x all inputs, complete print traces compared with CPython', MC,
         'All control skeletons up to the node bound, all typed expression trees of two operators, a table of language features; each on every input valuation. Trusts Icarus for the emitted text and CPython as the reference.'),
})
CLAIMS.update({
 'C08': ('explicit-state model checking of the emitted RTL of gated threads (BFS over RTL state x environment) with lock, barrier and join monitors', MC,
         'Every relative timing of the gated operations of 1-4 threads (mutexes, barriers, shared variables, child threads, pools); complete reachable state space unless evidence says truncated. Trusts Verilator.'),
})
CLAIMS.update({
 'C11': ('explicit-state model checking of the emitted RTL (BFS over RTL state x AXI slave schedules) against a reference execution of the same thread program', MC,
         'Every ready/valid/response schedule for each enumerated program, width, address and size combination; complete reachable state space. Burst limit and boundary scaled down except in dedicated configurations. Trusts Verilator.'),
 'C12': ('explicit-state model checking of the emitted RTL (BFS over RTL state x AXI slave schedules) with an AXI protocol monitor', MC,
         'The DMA and single-access programs of C11 plus every use history of the request/data calls of AxiMaster and AxiLiteMaster; complete reachable state space. Trusts Verilator.'),
})
CLAIMS.update({
 'C13': ('explicit-state model checking of the emitted RTL (BFS over RTL state x AXI master schedules x thread operation schedules) with a linearizability monitor over reference registers', MC,
         'Every order and spacing of address, data, response and thread operations for each configuration, with up to 2 outstanding writes and reads; complete reachable state space. INCR full-width bursts. Trusts Verilator.'),
})
CLAIMS.update({
 'C14': ('explicit-state model checking of the emitted RTL (BFS over RTL state x tvalid/tready schedules) against a reference execution of the same thread program', MC,
         'Every tvalid/tready schedule (and AXI slave schedule for the streams fed by a master) for each enumerated program, width ratio, size and stride; complete reachable state space, completion checked as reachability from every state. Trusts Verilator.'),
})
CLAIMS.update({
 'C23': ('explicit-state model checking of the emitted RTL (BFS over RTL state x AXI master schedules) with a memory monitor', MC,
         'Every legal timing of bounded histories (2-4 write and 1-4 read bursts per port) on every model class, delay, sleep, width, id and image setting of the grid; thread access explored over all operation histories; memory images enumerated over a grid of shapes and widths against a bit-level reference. Trusts Verilator.'),
})
CLAIMS.update({
 'C25': ('explicit-state model checking of the emitted RTL (BFS over RTL state x line and request schedules) with a bit-level line monitor', MC,
         'Transmitter on all 256 bytes and every request spacing; receiver on every sequence of bytes and gaps (16 byte patterns; all 256 for two bit times), glitches; thread to thread over a line. Bit times 2-33 quick, 2-40 and 64 thorough. Trusts Verilator.'),
})
CLAIMS.update({
 'C15': ('exhaustive enumeration of operand values for every stateless stream operator and format, and explicit-state model checking of the emitted RTL (BFS over RTL state x element and stall schedules) for every operator with history', MC,
         'About 190 operator instances on every format combination of 1-4 (quick) or 1-8 bits, both signs, several points, every operand value in two orders; accumulators, counters, pulses, ring buffers, scratchpads, line buffers, predicates, producers: complete reachable state space under every bubble and stall schedule. Trusts Icarus and Verilator.'),
})
CLAIMS.update({
 'C16': ('explicit-state model checking of the emitted RTL of exhaustively enumerated stream dataflow graphs (BFS over RTL state x element, bubble, stall and handshake schedules) against element-wise graph evaluation', MC,
         'Every graph of one, two and three operators from a catalogue of latencies 0-6 with constants, parameters, fan-out and feedback accumulators; complete reachable state space under every bubble and stall schedule; all 16 handshake-signal subsets. Trusts Verilator.'),
 'C17': ('explicit-state model checking of the emitted RTL of thread-controlled streams (BFS over RTL state x command sequence, stall and FIFO schedules) with memory contents compared after every run', MC,
         'All pairs of 36 source and sink settings, sequences of two or three runs, every stall schedule, FIFO producers and consumers, conditional sinks, in-stream memories, termination, substreams, overlapped runs; 3 recorded findings pinned by verbatim text tests. Trusts Verilator.'),
})
CLAIMS.update({
 'C22': ('stateless model checking of the generator itself: exhaustive enumeration of build histories (complete, unemitted and aborted builds), of single deviations of every set walk, of address layouts and hash seeds, against the text of a fresh process', MC,
         'A pool of 33 designs covering every subsystem plus designs of the repository; histories of depth 1-2 (quick) or 2 with resets (thorough), interleaved emission, controlled iteration order of sets, four address layouts, hash seeds.'),
})
CLAIMS.update({
 'C02': ('exhaustive enumeration of statement trees to a depth; for each the whole one-step transition relation (all states x all inputs), or every input vector, waveform or input sequence to a depth, of the emitted module against directly written Verilog', MC,
         'Every tree of depth 2 (3 thorough) of If/Elif/PatternIf/Case/Casex/For/While over 22 assignments in clocked, combinational, function and task bodies; sequences of 2-3 delays, events, waits, forevers in initial and always blocks; 18 module-item designs over every input sequence. Trusts Icarus.'),
 'C21': ('exhaustive enumeration of declaration histories, temporary-name histories, instance and submodule argument forms and values, module trees of depth 3 with same-named modules in every generate scope, and copy/connect settings; every accepted design is executed over every input value against a reference', MC,
         'Histories of up to 3 (4 thorough) operations; trees of depth 2 and fan-out 2 over 2 names; all argument forms of a 4-port 2-parameter child. Copying a port over a port and a parameter over a parameter is allowed (a test pins it). Trusts Icarus as the judge of legality.'),
})
CLAIMS.update({
 'C03': ('exhaustive enumeration of source texts of a grammar of expressions, statements and module items; each imported, re-emitted and executed against the source text over every input vector, the whole one-step transition relation, or every input sequence to a depth', MC,
         'Every expression tree of C01 and statement tree of C02 as source text, in continuous assignments, clocked and combinational blocks, functions and timed blocks; about 420 modules of port, constant, literal, generate and instance styles with parameter overrides and port widths compared; also read from several files with macros and includes, instantiated, extended, and as stubs. What pyverilog cannot parse is outside. Trusts Icarus.'),
})
CLAIMS.update({
 'C19': ('exhaustive exploration of the reachable states of emitted dataflow graphs and pipelines under every independent schedule of input valids and output readies against an element-wise reference; operator sweep over every operand format and value', MC,
         'Every operator over all values of 1..5-bit operands (boundary grids when wide) of both signs and several points; every one-operator graph over inputs, a constant and a parameter, a share (quick) or a third/half (thorough) of all two-operator graphs with one or two outputs, in four handshake modes, all valid/ready schedules, 2-bit values. Outputs that stall independently where a value is shared, division at the top bit and modulo by negatives are known findings. Trusts Verilator and Icarus.'),
})
CLAIMS.update({
 'C18': ('exhaustive enumeration of operand values over every width, point and sign combination within bounds, executed on the emitted Verilog and compared with exact rational arithmetic; thread programs run once per input vector', MC,
         'About 50 unary, constant and comparison forms and 20 binary forms on widths 2-8 (all values) and up to 32 (boundary grids), all points below the width, equal and unequal widths; saturating writes and operations for all width pairs up to 5x8 (7x8 thorough) and 8-40 bits; a 40-line thread program with RAM and FIFO on 15-22 point settings over all 512 input pairs. Mixed signs, overflowing intermediate values and fixed-point arguments of thread functions (refused by the compiler) are outside the statement. Trusts Icarus.'),
})
CLAIMS.update({
 'C24': ('exhaustive enumeration of clock, reset and step-script settings over a grid; each emitted test bench is executed and its complete timeline of value changes compared with the timeline the settings describe', MC,
         'Half periods 1-10, reset periods 1-100, both polarities and all defaults, two clocks and two resets, ten step scripts; 12 (quick) or 48 Verilator drivers; about 270 front-end option and waveform selections. The Verilator driver does not run the initial statements of a reset (outside the statement). Trusts Icarus and Verilator.'),
})
NOT_APPLICABLE = {
 'C04': 'there are no executions, schedules or states of its own to explore: folding replaces text before anything runs, by the rules of the optimizer inside the installed pyverilog package, which works on mathematical integers and is outside this repository; where folded constants reach hardware they are decided as part of C03 (parameters and widths), C07 (thread expressions), C15 and C18 (constant operands)',
 'C26': 'an exported IP description is a static document (XML): it has no behaviour, executions or state space to explore; comparing it with the port list is a text comparison, not model checking',
}
