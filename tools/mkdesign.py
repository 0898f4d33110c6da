"""Writes the per-property part of DESIGN.md from properties.jsonl, claims.py, known_findings.jsonl and seeded/."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
exec(open('tools/claims.py').read())
props = [json.loads(l) for l in open('properties.jsonl')]
# parts and bounds | oracle | restrictions and corrected false alarms | cost quick/thorough
N = {
'C01': ("trees: every pair of operators in both associations, unary over unary and over every literal form, slices, concatenations, repeats, Mux, system functions; every literal form (width, base, sign, x, z, strings, floats).",
        "an independent reference text written fully parenthesised by the check, run in the same simulation, plus a Python evaluation of literals.",
        "Expressions Verilog itself forbids (a part select of an expression) are outside."),
'C02': ("clocked (128 states x 8 inputs: the complete one-step relation of each statement tree), negedge, combinational, routine (functions and tasks), timed (12 waveforms x 40 time units), module items (18 designs, every input sequence of depth 4, thorough 5).",
        "directly written Verilog of the same tree.",
        "Two assignments to a whole wire in the two branches of a generate-if are refused by the API and use partial assignments here; a Function is not read inside its own body."),
'C03': ("expression, statement and whole-module texts, each imported in five ways: emitted, read from files with macros and includes, instantiated below another module, as stub, extended after import.",
        "the source text itself, run beside the re-emitted text.",
        "Excluded because the installed pyverilog cannot parse or represent them: +: and -:, 'always #5' against 'always @*', function integer, real declarations, defparam, ANSI function ports, task calls, casez '?', mixed edge/level lists, a statement directly after @(...), generate case, fork, repeat, 'integer signed'; 2-D arrays crash this Icarus."),
'C05': ("every program of one to three updates over the condition forms (If, Elif, Else, nested, Then/When), Delay, Keep, EagerVal, LazyCond, Prev, blocking; emitted inline, as sub-module, split and merged; every history of data and reset to a depth.",
        "an abstract update model in Python stepped beside the RTL.",
        "Delay together with Keep is read as: the update happens in the k cycles that start after the delay."),
'C06': ("every FSM of up to 4 states over the goto/If/Elif/Else/When/Delay/Keep forms in case, if and module emission; every history to a depth.",
        "an abstract state-machine model in Python.", ""),
'C07': ("all control skeletons to a node bound, all typed two-operator expression trees, about 100 language features, each on every input valuation; also with fsm_as_module and other data widths.",
        "CPython running the same function: the complete trace of prints is compared.",
        "Division, modulo and shifts are compared where Verilog and Python agree (non-negative operands); integers wrap at datawidth."),
'C08': ("mutexes (lock, try_lock, unlock, non-holders), barriers of 1-4 parties used repeatedly, Shared variables, run/join/done/reset, pools, each operation gated by a free input.",
        "monitors of the lock owner, barrier generations and child states; AG EF completion.",
        "A child thread is run again only after reset()."),
'C09': ("types.fifo and thread FIFOs of depth 1-8 addresses, widths, sync/async read, external sides, thread programs with try/blocking calls.", "a queue beside the RTL.", ""),
'C10': ("SyncRAM/AsyncRAM/MultibankRAM/ROM, thread RAM and FixedRAM, 1-3 ports, with and without enable, bursts, packing, bank strides.",
        "a reference memory.", "Two writes of one address in one cycle are excluded; a read in the cycle of another port's write may give either value."),
'C11': ("AXIM, AXIM2, AXIMLite, AXIMVerify; single, DMA, packed, broadcast and async transfers over data widths, addresses, sizes, bank strides; every slave schedule.",
        "a Python execution of the same program on a byte memory.", "Burst length and boundary scaled down with the class attributes (plus configurations at full size)."),
'C12': ("the programs of C11 and every history of the request and data calls of the master classes.", "an AXI protocol monitor (stability of payloads, wlast, burst and 4 KB rules, outstanding counts).", "Size 0 excluded (finding K-C11-2)."),
'C13': ("AXISRegister and AXISLiteRegister, lengths, flags, wait_flag, thread reads and writes, ids, up to two outstanding accesses.", "linearizability against reference registers.", ""),
'C14': ("AXIStreamIn/Out to and from RAMs, FIFOs, AXI masters, width ratios, strides, tlast/tid/tuser/tstrb.", "a Python execution of the same program.", "Sizes of at least one word; whole packed words for a FIFO narrower than the stream."),
'C15': ("comb (about 190 operator instances), accs (accumulators with enable, reset, size, interval), cnts, mems (ring buffers, scratchpads, line buffers, producers); wide operands on boundary grids.",
        "Python integers and element-wise models.",
        "Division and modulo at width >= 4 and equal signs; shift amounts up to 5 bits; ring buffer offsets inside the window left by the latency; line buffers of at least 3 with shift and rotate not together; after a completed window a disabled element may show the total or the initial value; the size may change only when latched."),
'C16': ("graphs of one to three operators from a catalogue of latencies, constants, parameters, fan-out, feedback; every operand of every operator arriving late; 16 handshake subsets.", "element-wise evaluation of the graph.", ""),
'C17': ("modes (pairs of source and sink settings), when, state, overlap, fifos, inner, term, subs, innerfifo, places, copies.", "a Python execution of the run on the memory contents.",
        "Overlapped runs keep RAM, mode and, under stalls, parameters (findings); a conditional sink completes or its last element is disabled."),
'C18': ("ops (unary, binary, comparisons, conversions), sats (saturating writes and nested operations), progs (a thread program with FixedRAM and FixedFIFO, once per input vector).", "exact rational arithmetic (fractions).",
        "Equal signs; vectors whose aligned operands or results do not fit are skipped; the quotient keeps max(pa-pb, 0) fraction bits (pinned by an existing test and written into the statement); fixed arguments of thread functions and an int left operand are refused by the compiler."),
'C19': ("comb (operators over values), graphs (schedules), pipes (pipeline.Pipeline).", "element-wise evaluation.",
        "Where an operand has another user, outputs that stall independently are finding K-C19-3 (each enumerated graph listed), so the other graphs with two outputs drive equal readies; modes without ready exclude computed constants and free counters (K-C19-4); Pulse with enable and accumulators with reset and size are not included."),
'C20': ("elastic buffers of widths, depths and chains.", "a queue.", ""),
'C21': ("names, temps, instances, hierarchies, copies, connects, submodules, refused, constants.", "Icarus as judge of legality plus execution of every accepted design; refusals have to be exactly those of the name rules.",
        "A copy of a port over a port or of a Parameter over a Parameter replaces it (an existing test pins it); as_io/as_wire take patterns; an Input and a Reg of one name in a function are legal."),
'C22': ("histories (builds, unemitted and aborted builds, resets), interleaved emission, set iteration orders, address layouts, hash seeds, over 33 designs (lib/pool.py).", "the text of a fresh process.",
        "Sets made by literals are covered by hash seeds and layouts only."),
'C23': ("single-port, multiport, verify and serial memory models x delay, sleep, width, id and image settings; thread access; image files.", "a byte memory.",
        "Ports do not write where another has a write outstanding; aligned full-width INCR bursts."),
'C24': ("timelines (clock, reset and step grid), Verilator drivers, front-end options and waveforms.", "the timeline computed from the settings.",
        "A wait that begins in the time unit of an edge is a race and excluded. The Verilator driver ignores the initial statements of setup_reset (its table of them is keyed by reset, so it is always empty); filling it would need top-level ports for the registers, so this is left out of the statement and noted here."),
'C25': ("transmitter, receiver, loop between threads.", "a bit-level line monitor.", "Bit time at least 2 cycles; enable only while ready; the receiver calls recv in time (no flow control)."),
}
# quick wall-clock seconds measured on the final tree; thorough where it was timed
COST = dict(C01=11, C02=20, C03=30, C05=66, C06=53, C07=38, C08=16, C09=43, C10=32, C11=42, C12=75, C13=100, C14=39, C15=56,
            C16=58, C17=120, C18=20, C19=100, C20=5, C21=75, C22=150, C23=61, C24=33, C25=25)
THOR = dict(C02='96 s', C03='105 s', C18='60 s', C19='7.5 min')
known = {}
fixed = {}
for l in open('known_findings.jsonl'):
    l = l.strip()
    if l.startswith('{'):
        d = json.loads(l)
        known.setdefault(d['property'], []).append(d)
    elif l.startswith('fixed:'):
        p = l.split('property=')[1].split()[0]
        fixed.setdefault(p, []).append(l.split(None, 2)[2])
bugs = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    bugs.setdefault(d['property'], []).append((f.split('/')[1], d))
o = ['', '## Properties', '',
     'Costs are wall-clock on 8 cores, roughly. "Tests cannot" is the property\'s why_tests_cant field.', '']
for p in props:
    i = p['id']
    o.append('### %s %s' % (i, p['title']))
    o.append('')
    if i not in CLAIMS:
        o += ['Not applicable: %s.' % NOT_APPLICABLE[i], '']
        continue
    tech, level, note = CLAIMS[i]
    parts, oracle, restr = N[i]
    o.append('* Method: %s (`checks/%s.py`).' % (tech, i.lower()))
    o.append('* Enumerated: ' + parts)
    o.append('* Bounds and trust: ' + note)
    o.append('* Oracle: ' + oracle)
    if restr:
        o.append('* Restrictions (each came from an alarm that was ours, or is a rule of the API): ' + restr)
    o.append('* Tests cannot: ' + p['why_tests_cant'] + '. Cost: quick %d s' % COST[i] + (', thorough ' + THOR[i] if i in THOR else '') + '.')
    if fixed.get(i):
        o.append('* Defects found and repaired: %d (listed in known_findings.jsonl with their commits).' % len(fixed[i]))
    for k in known.get(i, []):
        o.append('* Known finding %s: %s.' % (k['id'], k['what']))
    for b, d in bugs.get(i, []):
        o.append('* Planted `%s`: needs %s. Caught by %s.' % (b, d['needs'], i))
    o.append('')
o += ['## Planted bugs', '',
      'Every bug in seeded/ was confirmed in a scratch copy: the demo passes on the tree and fails with the patch, and the 525 stable tests pass with the patch. '
      'Each is caught by the check of its own property (tools/caught.sh). c21-exclude-prefix, c16-acc-reset-stage and c18-nested-right were missed when first planted; '
      'the check was extended (connect_ports with full-match excludes; operands of every operator arriving late, which also found the Counter defect 198e623; '
      'saturating operations nested on both sides).', '',
      '| bug | property | caught by |', '|---|---|---|']
for i in sorted(bugs):
    for b, d in bugs[i]:
        o.append('| %s | %s | %s |' % (b, i, i))
o += ['', '## False alarms and how they were removed', '',
      'An alarm that turned out to be ours led to a restriction above (the harness drove something the API forbids or leaves open) or to a corrected oracle. '
      'No check was loosened to hide a defect: defects are repaired (`fix:` commits) or listed as findings by the exact configuration that fails.', '',
      'Findings that are not repaired are those whose repair changes Verilog text compared verbatim by existing tests, or the interface.', '',
      '## Binding of models to the code', '',
      'No model of the library is written by hand: the explored object is the RTL text the library emits in that run, or (C21, C22) the library itself. '
      'Reference models describe the intended behaviour only and are compared with the real text on every explored transition, so every trace is a trace of the implementation; '
      'evidence counts them as states, transitions and traces.', '',
      '## What could not be done', '',
      'pyverilog (parser, optimizer, code generator) is an installed package outside the repository: its limits are exclusions. '
      'Back ends for VCS and ModelSim need those tools; only Icarus and Verilator drivers are run.', '']
d = open('DESIGN.md').read()
d = d.split('(per-property section follows')[0].split('\n## Properties\n')[0].rstrip()
open('DESIGN.md', 'w').write(d + '\n' + '\n'.join(o))
