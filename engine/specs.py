"""What is analysed for each property."""
CAPS = [dict(CAP=1), dict(CAP=2), dict(CAP=3), dict(CAP=300, DATA='uint8_t'), dict(CAP=70000)]
MORE = [dict(CAP=c, DATA=d) for c in (1, 2, 3, 4, 5, 8, 16, 100, 127, 128, 255, 256, 65535, 65536) for d in ('int', 'uint8_t', 'long', 'unsigned')]
SPECS = {}


def spec(pid, how, **kw):
    SPECS[pid] = dict(how=how, **kw)


def unit(src, quick=CAPS, thorough=MORE, **kw):
    return dict(src=src, quick=quick, thorough=thorough, **kw)


spec('C02', 'Abstract interpretation of RTML_buffer::push on an arbitrary ring state (any positions, any contents, any writer count).',
     units=[unit('c02.cpp')])
DBG = [dict(CAP=3, RTMLIB_DEBUG=3)]
spec('C01', 'Abstract interpretation of every buffer operation on an arbitrary ring state; every memory access is checked against its object and array.',
     units=[unit('c01.cpp', quick=CAPS + DBG, opts=dict(oob=True))])
spec('C03', 'Abstract interpretation of RTML_buffer::pull and pop on an arbitrary ring state.', units=[unit('c03.cpp')])
spec('C04', 'Abstract interpretation of the observers on an arbitrary ring state; the whole object is compared before and after.', units=[unit('c04.cpp', quick=CAPS + DBG)])
spec('C05', 'Abstract interpretation of assignment from an arbitrary ring state published in the buffer or in a writer; every later operation on either side is shown not to reach the other.',
     units=[unit('c05.cpp')])

spec('C06', 'Abstract interpretation of both push forms of a writer on an arbitrary ring state published in the buffer or in either frame of either of two writers; waiting paths are cut in the general case and forbidden after a preceding push.',
     units=[unit('c06.cpp', quick=CAPS[:3], thorough=[c for c in MORE if c['CAP'] < 6]), unit('c06.cpp', quick=CAPS[3:], entries='push|sequence')])

D1 = [dict(c, DEPTH=1) for c in CAPS]
D2 = [dict(CAP=1, DEPTH=2), dict(CAP=3, DEPTH=2)]
D3 = [dict(CAP=1, DEPTH=3), dict(CAP=3, DEPTH=3)]
DM = [dict(m, DEPTH=1) for m in MORE]
spec('C07', 'Abstract interpretation of both push forms under interference: before every atomic access to the shared state other writers may have published any state and changed any slot. '
     'Every publication, every store into the writer and every store into the buffer is checked against the protocol. Bounded to DEPTH interferences and retries per push, each from an arbitrary world.',
     units=[unit('c07.cpp', quick=[dict(CAP=3, DEPTH=2)] + [D1[0], D1[1], D1[3], D1[4]], thorough=D2 + D3[:1] + DM)])
spec('C08', 'Abstract interpretation of both push forms under interference with the clock as a symbolic input; the ghost state records whether the clock was read since the last snapshot.',
     units=[unit('c08.cpp', quick=D1 + [dict(CAP=3, DEPTH=2, DATA='uint8_t')], thorough=D2 + DM)])
spec('C09', 'Effect analysis over all operations: every access to the shared state word and to the frame it publishes is classified (atomicity, width, ordering) and ordered after an atomic load of the same operation; '
     'the two ends an observer reports are shown to come from one published state.',
     units=[unit('c09.cpp', quick=[CAPS[0], CAPS[2], CAPS[3]]), unit('c09s.cpp', quick=[D1[0], D1[2], D1[3]])])
spec('C10', 'Abstract interpretation of both push forms against writers that never finish (every round must re-read and yield), that finish while the push waits (one round must be enough) and that do not interfere (no round at all).',
     units=[unit('c10.cpp', quick=[CAPS[0], CAPS[2]], thorough=CAPS)])

# formulas: every small window unrolled; large rings by widening where that converges, or with a bounded window
F12 = [dict(CAP=1), dict(CAP=2)]
F3 = [dict(CAP=3)]
F4 = [dict(CAP=4), dict(CAP=5)]
WIDE = [dict(CAP=300, UNROLL=0)]
WONCE = [dict(CAP=300, UNROLL=0, ONCE=None)]
MOST = '(?!duration|until_in_between).*'
SLOW = 'duration|until_in_between'
LINEAR = '(?!duration|until_in_between|historically$|since$).*'


def long(src, way=1, **kw):
    return [unit(src, quick=[dict(CAP=270, LONG=way, UNROLL=1000)], thorough=[], **kw)]


def formulas(src, most=MOST, slow=SLOW, wide=None, win=None):
    u = [unit(src, quick=F12, thorough=[]), unit(src, quick=F3, thorough=[], entries=most)]
    u.append(dict(src=src, quick=[], thorough=F4[:1], entries=MOST))
    if slow:
        u.append(dict(src=src, quick=[], thorough=F3, entries=slow))
    if wide:
        u.append(unit(src, quick=WIDE, thorough=[], entries=wide))
        u.append(dict(src=src, quick=[], thorough=WIDE, entries='since|duration'))
    if win:
        u.append(unit(src, quick=[dict(CAP=300, WIN=2)], thorough=[dict(CAP=300, WIN=3)]))
    return u


spec('C11', 'Effect analysis: every reader and trace-cursor operation on an arbitrary buffer and reader state, with the buffer, the writer that holds the published state and another reader write-protected.',
     units=[unit('c11.cpp', quick=CAPS + DBG)] + formulas('c11f.cpp', MOST, wide=LINEAR))
spec('C12', 'Abstract interpretation of reader pull, pop and length on an arbitrary buffer and reader state.', units=[unit('c12.cpp')])
spec('C13', 'Abstract interpretation of every reader and cursor operation with every slot, the published state and the positions in it changing between any two reads.',
     units=[unit('c13.cpp', opts=dict(oob=True))])
spec('C14', 'Abstract interpretation of gap, pull and pop on an arbitrary buffer and reader state; overwritten means a later timestamp in the oldest slot.', units=[unit('c14.cpp')])
spec('C15', 'Abstract interpretation of synchronize on an arbitrary buffer and reader state.', units=[unit('c15.cpp')])
spec('C16', 'Abstract interpretation of every cursor operation on an arbitrary buffer, reader window and cursor inside the window.', units=[unit('c16.cpp')])

FH = 'Abstract interpretation of every temporal operator and the duration term on an arbitrary buffer, window, cursor and evaluation time, with subformulas that answer anything and leave the cursor anywhere%s'
spec('C17', 'Abstract interpretation of positioning at a time, on an arbitrary buffer with an arbitrary window and cursor.', units=[unit('c17.cpp', quick=F12 + F3 + [dict(CAP=300, WIN=2)], thorough=F4[:1]), unit('c17.cpp', quick=[], thorough=F4[1:], entries='set')] + long('c17.cpp') + long('c17.cpp', -1))
spec('C18', FH % ': cursor on return equals cursor on entry, cursor at each evaluation is the event of the time passed.', units=formulas('c18.cpp', wide=LINEAR))
spec('C19', FH % '; caller\'s time, window, buffer, globals and every byte not local to the evaluation are write-protected or compared.', units=formulas('c19.cpp', wide=LINEAR))
spec('C20', FH % '; the number of visits of every loop header is bounded by the ring size, also when slots change between reads.', units=formulas('c20.cpp') + [unit('c20.cpp', quick=[dict(CAP=1, UNSTABLE=None), dict(CAP=2, UNSTABLE=None)], thorough=[]),
    unit('c20.cpp', quick=[], thorough=[dict(CAP=3, UNSTABLE=None)], entries='(?!until_in_between).*')])
spec('C21', 'Abstract interpretation of the connectives over all operand values, in argument position, nested and embedded in larger expressions.', units=[unit('c21.cpp', quick=[dict(CAP=3)], thorough=[])])
spec('C22', 'Abstract interpretation of the conversions and of the duration arithmetic over all operand values.', units=[unit('c22.cpp', quick=[dict(CAP=3)], thorough=[])])
spec('C23', 'Relational abstract interpretation: each operator and its dual are run on the same window with the same subformula answers.', units=formulas('c23.cpp', slow=None))
spec('C24', 'Abstract interpretation of the proposition on an arbitrary buffer, window and cursor.', units=[unit('c24.cpp')])
spec('C25', FH % '; the sequence of evaluations and the verdict are compared with the fold.', units=formulas('c25.cpp', win=True) + long('c25.cpp') + [unit('c25.cpp', quick=WIDE, thorough=[], soft=True)])
spec('C26', FH % '; the sequence of evaluations and the verdict are compared with the scan.', units=formulas('c26.cpp', win=True) + long('c26.cpp') + [unit('c26.cpp', quick=WIDE, thorough=[], soft=True)])
spec('C27', FH % '; the sequence of evaluations and the verdict are compared with the bounded scans.', units=formulas('c27.cpp', win=True) + long('c27.cpp', entries='eventually_at') + long('c27.cpp', -1, entries='past_eventually_at|since')
    + [unit('c27.cpp', quick=WIDE, thorough=[], entries='eventually_at', soft=True),
       unit('c27.cpp', quick=[], thorough=WONCE, entries='past_eventually_at', soft=True)])
spec('C28', FH % '; the accumulated value is compared with the stretches inside the interval.', units=formulas('c28.cpp', most='.*', slow=None) + [unit('c28.cpp', quick=[dict(CAP=270, LONG=1, UNROLL=1000, BND=100000)], thorough=[])])
spec('C29', 'Abstract interpretation of every comparison, constructor and setter over all event values.', units=[unit('c29.cpp', quick=[dict(DATA=d) for d in ('int', 'uint8_t', 'long')], thorough=[])])
spec('C30', 'Abstract interpretation of the time macros over all normalised times, with the result stored over either operand.', units=[unit('c30.cpp', quick=[dict(CAP=3)], thorough=[])])

ONE = [{}]
DBGT = [dict(RTMLIB_DEBUG=3)]
TH = 'The system calls of a task are stand-ins that carry the state each call depends on; '
spec('C31', 'Abstract interpretation of the thread of a task and of the calls that control it; the status may be changed by others before every access to it. ' + TH + 'three rounds of each loop.',
     units=[unit('c31.cpp', quick=ONE, thorough=DBGT)])
spec('C32', 'Abstract interpretation of the thread of a task with an abort request at any access to the status. ' + TH + 'after the request no round is cut off.',
     units=[unit('c32.cpp', quick=ONE, thorough=DBGT)])
spec('C33', 'Abstract interpretation of the constructors: what the thread reads is compared when the thread is created and write-protected from then on.', units=[unit('c33.cpp', quick=ONE + DBGT, thorough=[])])
spec('C34', 'Typestate of thread attribute, mutex and condition over every path of thread creation and of the thread, with every call free to fail. ' + TH + 'two rounds of each loop.',
     units=[unit('c34.cpp', quick=ONE + DBGT, thorough=[])])
spec('C35', 'Abstract interpretation of the main loop of a task from any clock and period: the first release, and by generalising the release time every later one. ' + TH + 'the period may be set at any access to it.',
     units=[unit('c35.cpp', quick=ONE, thorough=DBGT)])

spec('C44', 'Abstract interpretation of the constructors and of thread creation with any policy, priority and stack size. ' + TH.rstrip('; ') + '.', units=[unit('c44.cpp', quick=ONE + DBGT, thorough=[])])
spec('C45', 'Abstract interpretation of the calls that ask a monitor, in any status. ' + TH.rstrip('; ') + '.', units=[unit('c45.cpp', quick=ONE + DBGT, thorough=[])])

spec('C36', 'Call-graph analysis of the IR of every operation of the library, instantiated with debugging off: what each function of src/ can reach outside the library.', rules=['datapath'],
     technique='interprocedural effect analysis over the call graph of the LLVM IR')
spec('C38', 'The compiler as the checker: every header alone, twice, first, last and with all others, in every debug configuration, with everything instantiated; two such units are linked.', rules=['headers'],
     technique='compile and link witnesses', note='Decided by clang 18 (and g++ for the whole library) on the host platform only; the other platforms of the headers are not compiled.')

spec('C37', 'Abstract interpretation of every buffer, reader and cursor operation with all shared state changing before every access, for ever: no loop header is visited more often than the ring has slots, and nothing yields. '
     'The call graph of these operations has no cycle and does not reach sched_yield.',
     units=[unit('c37.cpp', quick=[dict(CAP=1), dict(CAP=2)], thorough=[]), unit('c37.cpp', quick=[dict(CAP=3), dict(CAP=300)], thorough=[dict(CAP=70000)], entries='(?!(set|debug|bdebug)$).*')], rules=['acyclic'])

def levels(base, *more):
    return [base] + [dict(base, **m) for m in more]


L3 = dict(RTMLIB_DEBUG=3)
L1 = dict(RTMLIB_DEBUG=1)
FD = dict(FDEBUG=None)
C3 = dict(CAP=3)
spec('C39', 'The contracts of the other properties (buffer, writer, reader, cursor, formulas, task) are decided with debugging off and at debug levels 1 and 3, and with the arguments of the formula debug output evaluated: '
     'no rule may fail at a debug level that holds without.', diff=True,
     units=[unit('%s.cpp' % h, quick=levels(C3, L3), thorough=levels(C3, dict(RTMLIB_DEBUG=2))) for h in ('c02', 'c03', 'c04', 'c05', 'c12', 'c14', 'c15')]
     + [unit('c06.cpp', quick=levels(C3, L3), entries='push|sequence', thorough=levels(C3, L1)),
        unit('c16.cpp', quick=levels(C3, L3, FD), thorough=levels(C3, L1)),
        unit('c17.cpp', quick=levels(dict(CAP=2), FD), thorough=levels(C3, FD, L3))]
     + [unit('%s.cpp' % h, quick=levels(dict(CAP=2), FD), thorough=levels(C3, FD) if h not in ('c20', 'c23', 'c28') else []) for h in ('c18', 'c20', 'c23', 'c24', 'c25', 'c26', 'c27', 'c28')]
     + [unit('%s.cpp' % h, quick=levels({}, L3), thorough=levels({}, L1)) for h in ('c31', 'c32', 'c33', 'c34', 'c45')] + [unit('c35.cpp', quick=[], thorough=levels({}, L1, L3))])

C2 = dict(CAP=2)
NX, RT, FR = dict(PLAT='__NUTTX__'), dict(PLAT='__rtems__'), dict(PLAT='__FREERTOS__')
ANX, AFR = dict(NX, ARM=None), dict(FR, ARM=None)   # only what does not publish: the state of a buffer is a 32-bit pointer there
spec('C46', 'The contracts of the other properties are decided for the library as the RISC-V configurations see it (NuttX, RTEMS, FreeRTOS: the published word has no version, time spans are unsigned, clocks and yields are others): '
     'no rule may fail there that holds on the host. The tasks, the time arithmetic and the FreeRTOS clock are decided for ARM as well (what publishes is not: a state is named by a 32-bit pointer there). Every configuration, 32-bit x86 and ARM are also compiled with everything used.', diff=True, rules=['platforms'],
     units=[unit('%s.cpp' % h, quick=levels(C2, NX), thorough=levels(C2, RT, FR)) for h in ('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c23', 'c24', 'c25', 'c26', 'c27', 'c28', 'c37')]
     + [unit('%s.cpp' % h, quick=levels(dict(C2, DEPTH=1), NX), thorough=levels(dict(C2, DEPTH=1), RT, FR)) for h in ('c07', 'c10')]
     + [unit('c08.cpp', quick=levels(dict(C2, DEPTH=1), NX, RT), thorough=[]), unit('c30.cpp', quick=levels(C2, NX, RT, AFR), thorough=[])]   # FreeRTOS on RISC-V has no clock yet
     + [unit('%s.cpp' % h, quick=levels({}, NX, RT, FR, AFR), thorough=levels({}, ANX)) for h in ('c31', 'c32', 'c33', 'c34', 'c35', 'c44', 'c45')])

spec('C49', 'Abstract interpretation of both push forms under interference: at the compare-and-swap that publishes, and when the push returns, the slot the published state names is compared with the event it names. '
     'Bounded to DEPTH interferences and retries per push, each from an arbitrary world.',
     units=[unit('c49.cpp', quick=[dict(CAP=3, DEPTH=1), dict(CAP=1, DEPTH=2), dict(CAP=300, DEPTH=1), dict(CAP=2, DEPTH=1, DATA='uint8_t')], thorough=D2 + D3[:1])])
spec('C47', 'Type-level witnesses: for every rule about what a program may do with the library, the smallest programs that break it, which must not compile, beside those that keep it, which must.', rules=['misuse'],
     technique='compile-fail witnesses')
spec('C48', 'Every debug message of the library is type-checked against its arguments in every debug configuration, with the whole library instantiated; strings are checked to end by abstract interpretation of the constructors (also C33).', rules=['formats'],
     technique='type-checking of format strings, by the compiler', units=[unit('c33.cpp', quick=DBGT, entries='name_.*', thorough=[])])

NA = {
    'C40': 'Linearizability quantifies over whole concurrent histories; the per-operation obligations a static argument can reach are C06-C10 and C15, the composition is not decided by analysing the source.',
    'C41': 'Equality with the RMTLD3 semantics needs an executable reference semantics evaluated on every trace; the structural consequences that can be decided statically are C18-C28.',
    'C42': 'Release delay and monitoring overhead are run-time durations of the operating system and the machine, which no static argument over this source bounds.',
    'C43': 'Whether 2^64 publications can happen while one writer is preempted is a matter of run time; that every publication advances the counter is C07.',
}
