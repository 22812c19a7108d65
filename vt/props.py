"""Which runs decide which property."""
RAW = ('mask.cc', 'fmt-format.cc', 'schedparam.cc', 'format-basic.cc', 'c-api.cc', 'internal.cc', 'format-raw.cc')
ENGINE = (('engine', 'mc', ('t_engine.cc', 'eng.cc')), dict(raw=RAW))
RAWL = tuple(r for r in RAW if r != 'mask.cc')
LIFE = (('life', 'mc', ('t_life.cc', 'eng.cc', 'rbtree.cc')), dict(raw=RAWL))
FILEB = (('file', 'mc', ('t_file.cc', 't_stdio.cc', 'eng.cc')), dict(raw=RAW + ('engine.cc',)))
MASK = (('mask', 'asan', ('b_mask.cc',)), {})
CPU = (('cpu', 'asan', ('b_cpu.cc',)), {})
FMT = (('fmt', 'asan', ('b_fmt.cc',)), {})
ARGS = (('args', 'asan', ('b_args.cc',)), {})
CAPI = (('capi', 'asan', ('b_capi.cc', 'c_capi.c')), {})
RAWB = (('raw', 'asan', ('b_raw.cc',)), dict(tools=('raw-parser.cc', 'rdbuf.cc')))
RING = (('ring', 'asan', ('b_ring.cc',)), {})
OUTB = (('out', 'asan', ('b_out.cc',)), {})
TIMEB = (('time', 'asan', ('b_time.cc',)), {})
TIMES = (('times', 'asan', ('b_time.cc',)), dict(libdefs=('-DHOGL_TIMESTAMP_USE_TIMESPEC_FORMAT',)))
ENGTS = (('engts', 'mc', ('t_engine.cc', 'eng.cc')), dict(raw=RAW, libdefs=('-DHOGL_TIMESTAMP_USE_TIMESPEC_FORMAT',)))
RINGP = (('ringp', 'plain', ('b_ring.cc',)), dict(defs=('-DVT_SPARSE', '-fno-builtin')))
QUIET = (('quiet', 'plain', ('b_quiet.cc', 'c_capi.c')), {})
TOOLS = (('tools', 'script', ('p_tools.py',)), {})
RTOOLS = ('coredump.cc', 'recovery-engine.cc')
RECM = (('recover', 'mc', ('t_recover.cc', 'eng.cc')), dict(raw=RAW, tools=RTOOLS, libs=('-lbfd',)))
RECB = (('recb', 'asan', ('b_recover.cc',)), dict(tools=RTOOLS, libs=('-lbfd',), defs=('-fno-sanitize=bool,enum',)))
ASSUME = ['sequential consistency between scheduling points (no store buffering)',
          'scheduling points at volatile and atomic accesses, synchronisation, sleeps, file operations and every plain access found in a data race',
          'bounded number of threads, records and preemptions as listed per run']

def mc(bin, scenario, bound, time, label=None, opts=None, thorough_only=False, **params):
    return dict(kind='mc', bin=bin, scenario=scenario, bound=bound, time=time, params=params, label=label, opts=opts or {}, thorough_only=thorough_only)

def en(bin, scenario, time, label=None, thorough_only=False, **params):
    return mc(bin, scenario, (0, 0), time, label=label, thorough_only=thorough_only, **params)

CHECKS = {}
NOT_APPLICABLE = {}
EN = 'explicit enumeration of every choice sequence within bounds on the real code against a reference model: '
ENA = ['inputs, names and lengths beyond the listed alphabets behave like the enumerated ones', 'address and undefined-behaviour sanitizers detect accesses outside objects']
T = 'stateless model checking of the real code: every schedule within the preemption bound, '
def check(pid, technique, runs, level='model_checking', note='', assumptions=None):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, runs=runs)
    if assumptions:
        CHECKS[pid]['assumptions'] = assumptions

check('C01', T + 'writers against the engine thread', [
    mc(ENGINE, 'deliver', (3, 4), (15, 200), tso=1, n=2, cap=4),
    mc(ENGINE, 'deliver', (2, 3), (15, 200), tso=0, n=3, cap=2),
    mc(ENGINE, 'deliver', (3, 5), (15, 200), tso=1, n=4, cap=4, writers=1, patterns=3),
    mc(ENGINE, 'deliver', (2, 3), (15, 200), tso=1, n=3, cap=4, tsocap=1, writers=1),
    mc(ENGINE, 'deliver', (2, 3), (15, 200), tso=1, n=2, cap=4, tsocap=2, writers=2),
    mc(ENGINE, 'deliver', (1, 2), (15, 200), tso=1, n=2, cap=2, writers=2, pause=150),
    mc(ENGINE, 'deliver', (1, 2), (15, 200), tso=0, n=2, cap=2, writers=2, pause=150),
    mc(ENGINE, 'deliver', (1, 2), (15, 200), tso=1, n=1, cap=2, writers=4),
    mc(ENGINE, 'move', (0, 0), (15, 200), n=(5, 7)),
    mc(ENGINE, 'bulk', (0, 0), (15, 200), max=(20, 40), tsocap=4),
    mc(ENGINE, 'manyrings', (0, 0), (25, 200)),
    en(RING, 'ring', (20, 100), len=3, tails=1),
    en(RINGP, 'large', (30, 60)),
])
check('C02', T + 'rings of two and three slots overrun by their writers', [
    mc(ENGINE, 'deliver', (3, 5), (15, 200), tso=1, n=4, cap=2, writers=1),
    mc(ENGINE, 'deliver', (2, 4), (15, 200), tso=1, n=3, cap=2),
    mc(ENGINE, 'deliver', (2, 4), (15, 200), tso=1, n=4, cap=3, writers=1, tsocap=1),
    mc(ENGINE, 'shared', (2, 3), (15, 200), tso=1, n=2, cap=2),
    mc(ENGINE, 'gaps', (1, 3), (20, 200), n=(5, 6), cap=2),
    mc(ENGINE, 'gaps', (0, 2), (15, 200), n=(6, 8), cap=3),
    mc(ENGINE, 'gaps', (1, 2), (15, 100), n=(4, 6), cap=2, tso=0),
    mc(ENGINE, 'deliver', (2, 3), (15, 200), tso=1, n=4, cap=2, writers=1, pause=150),
    mc(ENGINE, 'move', (0, 0), (15, 200), n=(6, 8)),
    mc(ENGINE, 'bulk', (0, 0), (15, 200), max=(20, 40)),
    mc(ENGINE, 'bulk', (0, 0), (15, 200), max=(20, 40), tsocap=4),
    mc(ENGINE, 'bulk', (0, 0), (15, 200), max=(20, 40), tso=0),
    mc(ENGINE, 'move', (0, 1), (15, 200), n=(6, 5), cap=4),
    mc(ENGINE, 'bulk', (0, 0), (25, 200), huge=4),
    mc(ENGINE, 'bulk', (0, 0), (25, 200), huge=4, tso=0),
    en(RING, 'ring', (25, 100), len=3, tails=1),
    en(RING, 'ring', (15, 200), len=(2, 3)),
    en(RING, 'ring', (15, 200), len=4, tails=1, caps=(2, 8)),
])
check('C03', T + 'full blocking rings; lost wake-ups show as deadlock or endless polling', [
    mc(ENGINE, 'deliver', (2, 3), (20, 200), tso=1, blocking=1, n=3, cap=2),
    mc(ENGINE, 'deliver', (2, 3), (20, 200), tso=0, blocking=1, n=3, cap=2, writers=1),
    mc(ENGINE, 'deliver', (2, 3), (20, 200), tso=1, blocking=1, n=3, cap=3, tsocap=1, writers=1),
    mc(ENGINE, 'shared', (2, 3), (20, 200), tso=1, blocking=1, n=2, cap=2),
    mc(ENGINE, 'shared', (1, 2), (20, 200), tso=0, blocking=1, n=1, cap=2, writers=3),
    mc(ENGINE, 'deliver', (2, 3), (20, 200), tso=1, blocking=1, n=5, cap=4, writers=1),
    mc(ENGINE, 'deliver', (2, 3), (20, 200), tso=0, blocking=1, n=5, cap=4, writers=1),
    mc(ENGINE, 'deliver', (2, 3), (20, 200), tso=1, blocking=1, n=3, cap=2, writers=1, pause=150),
    mc(ENGINE, 'shared', (2, 3), (20, 200), tso=1, blocking=1, n=3, cap=4),
    mc(ENGINE, 'deliver', (2, 3), (15, 200), tso=1, blocking=1, n=2, cap=1, writers=1),
    mc(ENGINE, 'deliver', (1, 2), (15, 200), tso=0, blocking=1, n=2, cap=0),
])
check('C04', T + 'several writers on one shared ring', [
    mc(ENGINE, 'shared', (2, 4), (15, 200), tso=1, n=2, cap=4),
    mc(ENGINE, 'shared', (2, 4), (15, 200), tso=0, n=2, cap=2),
    mc(ENGINE, 'shared', (2, 3), (20, 200), tso=1, n=1, cap=4, writers=3),
    mc(ENGINE, 'shared', (2, 3), (15, 200), tso=1, n=2, cap=3, blocking=1),
    mc(ENGINE, 'flush', (2, 3), (15, 200), tso=1, flushers=2, others=0, n=1, shared=1),
    mc(ENGINE, 'flush', (1, 3), (15, 200), tso=0, flushers=2, others=0, n=2, shared=1),
    mc(ENGINE, 'shared', (1, 2), (15, 200), tso=1, n=2, cap=2, pause=150),
    mc(ENGINE, 'shared', (1, 2), (15, 200), tso=0, n=2, cap=4, pause=150),
])
check('C05', T + 'every assignment of timestamps and priorities to records found together, and live posting with a common clock', [
    mc(ENGINE, 'order', (0, 0), (20, 200), rings=2, n=3, vals=3, alphas=4),
    mc(ENGINE, 'order', (0, 0), (20, 200), rings=3, n=2, vals=3, tsocap=64, alphas=4),
    mc(ENGINE, 'order', (0, 0), (20, 200), rings=2, n=3, vals=3, tsocap=2, alphas=4),
    mc(ENGINE, 'order', (0, 0), (20, 200), rings=2, n=2, vals=3, tsocap=1),
    mc(ENGINE, 'order', (0, 0), (20, 200), rings=2, n=3, vals=3, tsocap=4, alphas=4),
    mc(ENGINE, 'order', (0, 0), (20, 200), rings=3, n=2, vals=1, tso=0, prios=3),
    mc(ENGINE, 'orderbig', (0, 0), (20, 60), rings=2),
    mc(ENGINE, 'orderbig', (0, 0), (20, 400), rings=3, thorough_only=True),
    mc(ENGINE, 'orderlive', (2, 3), (20, 200), rings=2, n=2, tsocap=32),
    mc(ENGINE, 'orderlive', (1, 2), (20, 200), rings=3, n=1, tsocap=32),
    mc(ENGINE, 'manyrings', (0, 0), (25, 200)),
    mc(ENGINE, 'manyrings', (0, 0), (25, 200), tso=0),
])
check('C06', T + 'flushing threads against the engine, and every combination of timeout, fill level and repetition', [
    mc(ENGINE, 'flush', (2, 4), (15, 200), tso=1, flushers=1, others=1),
    mc(ENGINE, 'flush', (2, 3), (15, 200), tso=0, flushers=2, others=0, n=1),
    mc(ENGINE, 'flush', (2, 3), (15, 200), tso=1, flushers=2, others=0, n=1, shared=1),
    mc(ENGINE, 'flush', (2, 3), (15, 200), tso=1, flushers=1, others=0, n=3, tsocap=1, obuf=16),
    mc(ENGINE, 'flushto', (0, 0), (20, 100), tso=1),
    mc(ENGINE, 'flushto', (0, 0), (20, 100), tso=0),
    mc(ENGINE, 'flushto', (0, 0), (20, 100), tso=1, shared=1),
    mc(ENGINE, 'flushslow', (0, 0), (20, 100), tso=1),
    mc(ENGINE, 'flushslow', (0, 0), (20, 100), tso=0),
    mc(ENGINE, 'flushslow', (0, 0), (20, 100), tso=1, tsrc=1),
])
check('C07', T + 'every combination of registering, finding, listing and releasing one name against the engine', [
    mc(LIFE, 'registry', (1, 2), (20, 300), flags=0, ops=2),
    mc(LIFE, 'registry', (1, 2), (20, 300), flags=1, ops=2, pre=1),
    mc(LIFE, 'registry', (1, 2), (20, 300), flags=4, ops=2, pre=1),
    mc(LIFE, 'compete', (2, 3), (20, 300), flags=0, late=350),
    mc(LIFE, 'compete', (2, 3), (20, 300), flags=1, late=350),
    mc(LIFE, 'compete', (2, 3), (20, 300), flags=4, late=350),
    mc(LIFE, 'compete', (2, 3), (20, 300), flags=0),
    mc(LIFE, 'compete', (2, 3), (20, 300), flags=1),
    mc(LIFE, 'compete', (2, 3), (20, 300), flags=4),
    mc(LIFE, 'compete', (2, 3), (20, 300), flags=4, hold=1),
    mc(LIFE, 'compete', (2, 3), (20, 300), flags=1, hold=1),
    mc(LIFE, 'lookup', (2, 3), (15, 200), n=(1, 2), rings=1),
    mc(LIFE, 'lookup', (1, 2), (15, 100), n=4, rings=1, long=1),
])
check('C08', T + 'shutdown while the rings are still used, and every sequence of operations on the default engine', [
    mc(LIFE, 'shutdown', (2, 4), (15, 200), threads=2, n=1),
    mc(LIFE, 'shutdown', (2, 4), (15, 200), threads=2, n=1, tso=0),
    mc(LIFE, 'shutdown', (2, 4), (15, 200), threads=2, n=2, flags=1),
    mc(LIFE, 'shutdown', (2, 4), (15, 200), threads=1, n=3, tsocap=1),
    mc(LIFE, 'deflt', (0, 0), (25, 100), len=(5, 6)),
    mc(LIFE, 'deflt', (0, 0), (25, 100), len=(4, 6), tso=0),
    mc(LIFE, 'deflt', (0, 0), (25, 100), len=(4, 5), tso=2),
    mc(LIFE, 'deflt', (1, 2), (25, 300), len=(2, 3), bg=1),
    mc(LIFE, 'defltopts', (0, 1), (10, 50)),
])
check('C09', EN + 'all rule lists over an alphabet of patterns, all ways to build the mask', [
    en(MASK, 'rules', (20, 200), len=(1, 2)),
    en(MASK, 'rules', (30, 300), len=2, areas=(5, 8), sects=(4, 9)),
    en(MASK, 'rules', (30, 600), len=3, exact=1, areas=(3, 4), sects=(2, 4)),
    en(MASK, 'posts', (20, 100)),
    en(MASK, 'patterns', (60, 200)),
], assumptions=ENA)
check('C10', T + 'threads adding areas, looking them up and applying masks', [
    mc(LIFE, 'areas', (2, 3), (10, 100), s0=4, s1=1),
    mc(LIFE, 'areas', (2, 3), (10, 100), s0=1, s1=2, s2=3),
    mc(LIFE, 'areas', (2, 3), (15, 200), s0=41, s1=53),
    mc(LIFE, 'areas', (2, 3), (15, 200), s0=4, s1=5, s2=1),
    mc(LIFE, 'areas', (2, 3), (15, 200), s0=4, s1=6, pre=1),
    mc(LIFE, 'areas', (2, 3), (15, 200), s0=1, s1=1, s2=6),
    mc(LIFE, 'areas', (2, 3), (15, 200), s0=3, s1=6, s2=1, pre=1),
    mc(LIFE, 'lookup', (2, 3), (15, 200), n=(2, 4)),
    mc(LIFE, 'lookup', (1, 2), (15, 100), n=4, long=1),
])
check('C11', T + 'time source changes against registering and posting threads', [
    mc(ENGINE, 'tsrc', (2, 3), (15, 200), kind=0),
    mc(ENGINE, 'tsrc', (2, 3), (15, 200), kind=1),
    mc(ENGINE, 'tsrc', (2, 3), (15, 200), kind=2),
    mc(ENGINE, 'tsrc', (2, 3), (15, 200), kind=3),
    mc(ENGINE, 'tsrc', (2, 3), (15, 200), kind=0, tso=0),
    mc(ENGINE, 'tsrc2', (2, 3), (15, 200)),
    mc(ENGINE, 'tsrc2', (2, 3), (15, 200), tso=0),
    mc(ENGINE, 'flushto', (0, 0), (15, 200), tsrc=1),
    mc(ENGINE, 'flushto', (0, 0), (15, 200), tsrc=1, tso=0),
])
check('C12', EN + 'all argument lists over all types, with the room in the record running out at every byte', [
    en(ARGS, 'types', (20, 300), len=(4, 5)),
    en(ARGS, 'many', (30, 100)),
    en(ARGS, 'room', (30, 600), len=(2, 3)),
    en(ARGS, 'lengths', (20, 100)),
    en(ARGS, 'options', (20, 100)),
    en(ARGS, 'cpptypes', (10, 20)),
    en(ARGS, 'huge', (10, 20)),
    en(RINGP, 'large', (30, 60)),
], assumptions=ENA)
check('C13', EN + 'every combination of flags, width, precision, length and conversion; every set of header fields and short sequence of boundary times; all short malformed formats', [
    en(FMT, 'directives', (30, 200)),
    en(FMT, 'multi', (20, 600), len=(3, 4)),
    en(FMT, 'many', (10, 20)),
    en(FMT, 'dumps', (20, 100)),
    en(FMT, 'plain', (20, 300), len=(3, 4)),
    en(FMT, 'header', (20, 300), len=(1, 2)),
    en(FMT, 'names', (20, 100)),
    en(FMT, 'cache', (20, 600), len=(3, 4)),
    en(FMT, 'malformed', (30, 600), len=(4, 5)),
    en(FMT, 'cut', (20, 100)),
    en(FMT, 'odd', (10, 20)),
    en(FMT, 'unknown', (10, 20)),
    en(FMT, 'differs', (5, 5), k=0),
    en(FMT, 'differs', (5, 5), k=1),
    en(FMT, 'differs', (5, 5), k=2),
    en(FMT, 'differs', (5, 5), k=3),
], assumptions=ENA)
check('C14', EN + 'all argument type lists, names, lengths and short histories, every truncation point, every reader buffer size and split of the input', [
    en(RAWB, 'types', (20, 300), len=(3, 4)),
    en(RAWB, 'many', (10, 50)),
    en(RAWB, 'histories', (20, 300), len=(4, 6)),
    en(RAWB, 'numbers', (10, 20)),
    en(RAWB, 'names', (10, 20)),
    en(RAWB, 'lengths', (20, 50)),
    en(RAWB, 'buffers', (20, 100)),
    en(RAWB, 'pieces', (20, 100), step=(3, 1)),
    en(RAWB, 'packets', (20, 60)),
    en(RAWB, 'tail', (20, 50)),
    en(RAWB, 'cook', (20, 100)),
    en(RAWB, 'oldver', (20, 100), len=(3, 4)),
], assumptions=ENA)
check('C15', EN + 'every single-byte change, removal, insertion, duplication and splice of small logs covering every argument type; every record with arguments of any type and length', [
    en(RAWB, 'mutate', (30, 100)),
    en(RAWB, 'mutate2', (30, 1200), values=(6, 12), near=(8, 300)),
    en(RAWB, 'edit', (30, 300)),
    en(RAWB, 'grammar', (10, 50), len=1),
    en(RAWB, 'grammar', (60, 200), len=2),
    en(RAWB, 'noise', (10, 200), len=(4, 7)),
    en(RAWB, 'cookbad', (20, 200), step=(3, 1)),
], assumptions=ENA)
check('C19', 'exhaustive crash-point enumeration on the real code: the process is dumped after every instruction of every schedule within the preemption bound and recovered from the dump; every enumerated ring state, argument list, byte damage and cut of a core file', [
    mc(RECM, 'crash', (2, 3), (20, 300), tso=1, writers=1, n=3, cap=4, patterns=3),
    mc(RECM, 'crash', (1, 2), (20, 300), tso=1, writers=2, n=2, cap=4),
    mc(RECM, 'crash', (1, 2), (20, 300), tso=0, writers=2, n=2, cap=4, patterns=3),
    mc(RECM, 'crash', (2, 3), (20, 300), tso=1, writers=2, n=2, cap=8, shared=1),
    mc(RECM, 'crash', (2, 3), (20, 300), tso=1, writers=1, n=4, cap=2, blocking=1),
    mc(RECM, 'crash', (2, 3), (20, 300), tso=1, writers=1, n=3, cap=4, obuf=16),
    mc(RECM, 'crash', (2, 3), (20, 300), tso=1, writers=1, n=3, cap=4, tsocap=1),
    mc(RECM, 'crash', (2, 4), (20, 300), engine=0, writers=1, n=4, cap=4, skip=3, patterns=3),
    mc(RECM, 'setup', (2, 4), (10, 60), what=0),
    mc(RECM, 'setup', (2, 4), (10, 60), what=1),
    mc(RECM, 'setup', (2, 4), (10, 60), what=2),
    mc(RECM, 'setup', (2, 4), (10, 60), what=3),
    en(RECB, 'types', (30, 300), len=(2, 3)),
    en(RECB, 'many', (40, 100)),
    en(RECB, 'states', (40, 100), rings=(2, 3)),
    en(RECB, 'buffers', (30, 100)),
    en(RECB, 'bytes1', (40, 300), values=(6, 12)),
    en(RECB, 'fields', (40, 100)),
    en(RECB, 'pairs', (60, 300), values=(6, 13)),
    en(RECB, 'missing', (30, 100)),
    en(RECB, 'lost', (30, 100)),
    en(RECB, 'cutfile', (30, 100)),
    en(RECB, 'command', (30, 60)),
], assumptions=ENA + ['memory of the dumped process is captured between two accesses of one thread'])
check('C20', EN + 'all strings up to a length over an alphabet, boundary numbers, all pairs of mask bits; threads ask the recorded stand-ins', [
    en(CPU, 'strings', (20, 300), len=(4, 6)),
    en(CPU, 'numbers', (20, 100)),
    en(CPU, 'bits', (30, 100)),
    en(CPU, 'threads', (30, 100)),
], assumptions=ENA)
check('C21', 'explicit enumeration of every sequence of context operations on the real code; schedules of two threads within the preemption bound', [
    mc(LIFE, 'contexts', (0, 0), (30, 300), len=(5, 6)),
    mc(LIFE, 'contexts', (1, 2), (20, 300), threads=2, len=1, len2=1),
    mc(LIFE, 'contexts', (0, 1), (20, 300), threads=2, len=(3, 2), len2=2),
    mc(LIFE, 'contexts', (0, 0), (20, 300), len=4, tso=0),
    mc(LIFE, 'contexts', (0, 0), (30, 300), len=(4, 5), own=1),
])

check('C16', T + 'output, rotation helper and shutdown on real files; every rotation, open failure and header failure', [
    mc(FILEB, 'rotate', (3, 4), (10, 150), n=4),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=6, len=5, size=12, max=2),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=4, obuf=8),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=4, settle=1),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=6, len=5, settle=1),
    mc(FILEB, 'rotate', (0, 0), (10, 150), n=2, len=5, settle=2),
    mc(FILEB, 'rotate', (0, 0), (10, 150), n=2, len=5, size=30, settle=2),
    mc(FILEB, 'rotate', (0, 1), (10, 150), n=2, len=5, size=30, obuf=8, settle=2),
    mc(FILEB, 'rotate', (1, 2), (10, 150), n=3, len=5, size=13, obuf=8, settle=1),
    mc(FILEB, 'rotate', (1, 2), (10, 150), n=3, len=5, size=22, obuf=7, settle=1),
    mc(FILEB, 'rotate', (1, 2), (10, 150), n=4, switch=1, swstart=3),
    mc(FILEB, 'rotate', (1, 2), (10, 150), n=4, switch=2, swstart=2, max=12),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=4, switch=1),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=4, switch=2),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=4, switch=2, settle=1),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=4, start=3, max=3),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=4, start=12, max=128, name='sub/log.#'),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=4, openfail=1),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=4, headfail=1),
    mc(FILEB, 'rotate', (1, 2), (10, 150), n=6, openfail=2, max=2),
    mc(FILEB, 'rotate', (1, 2), (10, 150), n=6, headfail=2, max=2),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=6, openfail=2, max=2, settle=1),
    mc(FILEB, 'rotate', (2, 3), (10, 150), n=6, headfail=2, max=2, settle=1),
    mc(FILEB, 'rotate', (1, 2), (10, 150), n=5, headfail=1, openfail=1, max=2, switch=1),
    mc(FILEB, 'rotate', (1, 2), (10, 150), n=4, faults=1),
    mc(FILEB, 'huge', (0, 0), (10, 100), kind=2, pieces=(2, 3)),
])
check('C17', 'exhaustive crash-point enumeration on the real code: the process is killed after every file system operation of every schedule within the preemption bound, then restarted', [
    mc(FILEB, 'crash', (2, 3), (10, 150), n=3, max=3),
    mc(FILEB, 'crash', (2, 3), (10, 150), n=3, max=2, runs=2),
    mc(FILEB, 'crash', (1, 2), (10, 150), n=3, max=3, runs=4),
    mc(FILEB, 'crash', (1, 2), (10, 150), n=3, max=12, runs=5),
    mc(FILEB, 'crash', (1, 2), (10, 150), n=3, max=128, runs=2, name='sub/log.#.1'),
    mc(FILEB, 'crash', (1, 2), (10, 150), n=3, max=1200, runs=2, name='log.#'),
    mc(FILEB, 'crash', (1, 2), (10, 150), n=3, max=3, runs=2, name='sub/plain'),
    mc(FILEB, 'crash', (1, 2), (10, 150), n=3, max=3, runs=2, name='sub/log.#.txt', abs=1),
    mc(FILEB, 'crash', (1, 2), (10, 150), n=3, max=3, runs=2, switch=1),
    mc(FILEB, 'rotate', (2, 3), (10, 100), n=4, max=3, start=2),
])
check('C18', 'exhaustive fault enumeration on the real code: every sequence of pieces and flushes, buffer size, and result of every write', [
    mc(FILEB, 'append', (0, 0), (15, 150), kind=0, faults=(1, 2), errors=0, pieces=(3, 4)),
    mc(FILEB, 'append', (0, 0), (15, 150), kind=0, faults=2, errors=1, pieces=(2, 3)),
    mc(FILEB, 'append', (0, 0), (15, 150), kind=0, faults=0, errors=1, pieces=(3, 4)),
    mc(FILEB, 'append', (0, 0), (15, 150), kind=1, faults=2, errors=1, pieces=(2, 3)),
    mc(FILEB, 'append', (0, 0), (15, 150), kind=1, faults=0, errors=1, pieces=(3, 4)),
    mc(FILEB, 'append', (0, 0), (15, 150), kind=2, faults=2, errors=1, pieces=(2, 3)),
    mc(FILEB, 'append', (0, 0), (15, 150), kind=2, faults=0, errors=1, pieces=(3, 4)),
    mc(FILEB, 'append', (0, 0), (15, 150), kind=3, faults=(1, 2), errors=0, pieces=(3, 4)),
    mc(FILEB, 'append', (0, 0), (15, 150), kind=3, faults=2, errors=1, pieces=(2, 3)),
    mc(FILEB, 'append', (0, 0), (15, 150), kind=3, faults=0, errors=1, pieces=(3, 4)),
    mc(FILEB, 'append', (1, 2), (15, 150), kind=2, faults=1, errors=0, pieces=1),
    mc(FILEB, 'rotate', (1, 1), (15, 150), n=3, faults=(1, 2)),
    en(OUTB, 'streams', (25, 200), len=(3, 4)),
    mc(FILEB, 'huge', (0, 0), (10, 100), kind=0, pieces=(2, 3)),
    mc(FILEB, 'huge', (0, 0), (10, 100), kind=1, pieces=(2, 3)),
    mc(FILEB, 'huge', (0, 0), (10, 100), kind=2, pieces=(2, 3)),
    mc(FILEB, 'huge', (0, 0), (10, 100), kind=3, pieces=(2, 3)),
])
check('C22', 'exhaustive enumeration on the real code: every sequence of records and flushes, buffer sizes, and failing flush', [
    en(OUTB, 'tees', (20, 60)),
    mc(FILEB, 'tee', (0, 0), (15, 150), ops=(4, 5)),
    mc(FILEB, 'tee', (0, 0), (20, 150), ops=(3, 4), fail=1),
    mc(FILEB, 'tee', (0, 0), (15, 150), ops=(3, 5), nested=1),
    mc(FILEB, 'tee', (0, 0), (15, 150), ops=(3, 4), nested=1, fail=1),
])

check('C23', EN + 'all argument lists over the C types, all sequences of operations through both interfaces, all combinations of options', [
    en(CAPI, 'args', (20, 50)),
    en(CAPI, 'misc', (20, 50)),
    en(CAPI, 'script', (60, 400), len=(3, 4)),
    en(CAPI, 'engine', (40, 100)),
    en(CAPI, 'tls', (20, 100)),
    en(CAPI, 'outputs', (60, 100)),
    en(CAPI, 'areas', (20, 100), len=(4, 5)),
], assumptions=ENA + ['threads of the engine and of the outputs run as the system schedules them, the compared results do not depend on it'])

check('C24', 'explicit enumeration of record kinds, lists and ring states on the real code with every system call, lock and allocation of the posting thread trapped; ' + T.lower() + 'posting threads against every background activity', [
    en(QUIET, 'self', (10, 20)),
    en(QUIET, 'lists', (30, 200), len=(3, 4)),
    en(QUIET, 'many', (20, 50)),
    en(QUIET, 'overrun', (20, 50)),
    en(QUIET, 'live', (20, 50)),
] + [mc(ENGINE, 'quiet', (2, 3), (12, 150), bg=b) for b in range(7)] + [
    mc(ENGINE, 'quiet', (2, 3), (10, 150), bg=1, tso=0),
    mc(ENGINE, 'quiet', (2, 3), (10, 150), bg=1, tsocap=1),
    mc(ENGINE, 'quiet', (2, 3), (10, 150), bg=1, writers=2),
])

check('C25', T + 'a thread printing and listing the engine against threads registering, posting and changing masks and time sources', [
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=111111, cap=2),
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=111111, cap=3, tso=0, s2=11),
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=4, s2=3),
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=44, s2=4),
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=62, s2=2),
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=33, s2=8),
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=5555),
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=57, s2=1),
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=161, s2=111, tsocap=2),
    mc(LIFE, 'inspect', (1, 2), (15, 100), s1=171, s2=3, tsocap=1),
    mc(LIFE, 'inspect', (2, 3), (25, 200), s1=4),
    mc(LIFE, 'inspect', (2, 3), (25, 200), s1=2),
])

check('C26', EN + 'all small logs over an alphabet of times, headers, texts and events, all distributions over files and ways of calling the tools', [
    en(TOOLS, 'grep', (40, 200), len=(2, 3)),
    en(TOOLS, 'trace', (40, 200), len=(2, 3)),
], assumptions=['records, times and texts beyond the listed alphabets behave like the enumerated ones', 'the grep program selects lines as documented'])
check('C27', EN + 'all pairs of boundary times through every conversion and operator, all clock values through the built-in time sources, both representations; ordering of the engine with the optional representation', [
    en(TIMEB, 'stamps', (10, 20)),
    en(TIMEB, 'sources', (10, 20)),
    en(TIMES, 'stamps', (10, 20)),
    en(TIMES, 'sources', (10, 20)),
    mc(ENGTS, 'order', (0, 0), (20, 100), rings=2, n=3, vals=3, alphas=4),
    mc(ENGTS, 'order', (0, 0), (20, 100), rings=2, n=2, vals=3, tsocap=1),
], assumptions=ENA)

def all_bins():
    seen, out = set(), []
    for c in CHECKS.values():
        for r in c['runs']:
            if r['bin'][0][0] not in seen:
                seen.add(r['bin'][0][0]); out.append(r['bin'])
    return out
