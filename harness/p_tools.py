#!/usr/bin/env python3
"""Exhaustive enumeration of small logs through the real log scripts (hogl-grep, hogl-trace).
Every case is run in a forked process on scratch files and compared with a reference
that computes with integers. Same command line and results as the binaries of en/."""
import gc, io, itertools, json, os, re, runpy, signal, sys, tempfile, time, traceback, warnings

REPO = os.environ.get('VT_REPO', '/repo')
W = min(8, os.cpu_count() or 1)
STAMPS = ['00000000000.000000000', '00000000000.000000001', '00000000000.999999999', '00000000001.000000000',
          '00000028536.361036022', '01451508993.696685263', '01451508993.696685264', '18446744073.709551615']
FEW = [STAMPS[0], STAMPS[3], STAMPS[5], STAMPS[6]]
DELTAS = ['', '(0) ', '(257) ', '(18446744073709551615) ']
TEXTS = ['AREA:DEBUG KEEP some message', 'R:12 A:I KEEP (5) {0} {} %d \\n', 'A:I drop this', 'A:I  KEEP  two   blanks ']

def ns(s):
    a, b = s.split('.')
    return int(a) * 1000000000 + int(b)

# ---- cases: (files, arguments, use of -o, selects) ----
def grep_cases(p):
    recs1 = list(itertools.product(STAMPS, DELTAS, range(len(TEXTS))))
    for r in recs1:
        for o in (0, 1):
            yield dict(files=[[r]], out=o, args=0)
    recs2 = list(itertools.product(STAMPS, DELTAS[:2] if p.get('len', 2) < 3 else DELTAS, (0, 1, 2)))
    for a in recs2:
        for b in recs2:
            yield dict(files=[[a, b]], out=0, args=0)
    recs3 = list(itertools.product(FEW, DELTAS[1:2], (0, 2)))
    for t in itertools.product(recs3, repeat=3):
        yield dict(files=[list(t)], out=0, args=0)
    for t in itertools.product(recs3, repeat=2):
        for cut in range(3):
            for args in range(3):
                for o in (0, 1):
                    yield dict(files=[list(t[:cut]), list(t[cut:])], out=o, args=args)
    if p.get('len', 2) > 2:
        for t in itertools.product(list(itertools.product(FEW, DELTAS[:2], (0, 2))), repeat=3):
            for cut in range(4):
                yield dict(files=[list(t[:cut]), list(t[cut:])], out=0, args=0)

def line(r):
    return '%s %s%s\n' % (r[0], r[1], TEXTS[r[2]])

def grep_run(c):
    names = []
    for i, f in enumerate(c['files']):
        names.append('in%d.log' % i)
        open(names[-1], 'w').write(''.join(line(r) for r in f))
    # three ways to select the same records
    argv = (['-o', 'out.txt'] if c['out'] else []) + [['KEEP'], ['--', '-i', 'keep'], ['--', '-v', 'drop']][c['args']] + names
    st, out, err = run('hogl-grep', argv)
    if c['out']:
        if out:
            return 'printed %r although an output file was given' % out[:100]
        out = open('out.txt').read() if os.path.exists('out.txt') else None
    want, last = '', None
    for f in c['files']:
        for r in f:
            if r[2] == 2:
                continue
            t = ns(r[0])
            want += '%s (%d) %s\n' % (r[0], t - (t if last is None else last), TEXTS[r[2]])
            last = t
    if st != 0:
        return 'hogl-grep %s failed (%s): %s%s' % (' '.join(argv), st, (out or '')[:200], err[-300:])
    if out != want:
        return 'hogl-grep %s prints %r instead of %r' % (' '.join(argv), out, want)
    return None

# ---- trace ----
CATS = [('net', 'send', '77')]
def events(p):
    """records with the event they stand for (None: not selected, 0: unsupported)"""
    out = []
    stamps = STAMPS if p.get('full') else FEW
    for s in stamps:
        for n, head in ((5, 'A:TRACE'), (6, 'RING:12 A:TRACE'), (7, '(197) RING:12 A:TRACE')):
            for at in range(4 if p.get('full') else 3):
                for ar in range(3):
                    attr, args = ['', 'ph:B', 'ph:X dur:5', 'tid:T9'][at], ['', 'a:1', 'seq:788 when:283'][ar]
                    l = '%s %s net send 77' % (s, head)
                    if attr or args:
                        l += ' #' + (' ' + attr if attr else ' ') + (' # ' + args if args else '')
                    e = {'ts': ns(s) // 1000, 'cat': 'net', 'name': 'send', 'pid': '77', 'tid': '77' if n == 5 else 'RING', 'dur': 1, 'ph': 'X', 'args': {}}
                    for x in attr.split():
                        k, v = x.split(':'); e[k] = v
                    for x in args.split():
                        k, v = x.split(':'); e['args'][k] = v
                    out.append((l, e))
    return out

ODD = [('01451508993.696685263 A:INFO nothing to trace', None), ('01451508993.696685263 A:TRACE too few', 0), ('01451508993.696685263 A:TRACE a b c d e f', 0),
       ('01451508993.696685263 A:TRACE a b 7 # bad # a:1', 0), ('01451508993.696685263 A:TRACE a b 7 # ph:B # bad', 0), ('A:TRACE no time at all', 0)]

def trace_cases(p):
    full = events(dict(p, full=1)); few = events({})
    for r in full + ODD:
        for o in (0, 1):
            yield dict(files=[[r]], out=o, regex=0)
    some = few[::5] + ODD
    for t in itertools.product(some, repeat=2):
        for cut in (1, 2):
            yield dict(files=[list(t[:cut]), list(t[cut:])][:2 if cut < 2 else 1], out=(len(t[0][0]) + cut) & 1, regex=0)
    tiny = few[:2] + ODD[:2] + ODD[4:5]
    for t in itertools.product(tiny, repeat=3 if p.get('len', 2) < 3 else 5):
        for o in (0, 1):
            yield dict(files=[list(t)], out=o, regex=0)
    for t in itertools.product(tiny, repeat=2):
        yield dict(files=[list(t)], out=0, regex=1)

def trace_run(c):
    names = []
    for i, f in enumerate(c['files']):
        names.append('in%d.log' % i)
        open(names[-1], 'w').write(''.join(l + '\n' for l, e in f))
    argv = (['-o', 'out.json'] if c['out'] else []) + (['-r', 'send'] if c['regex'] else []) + names
    st, out, err = run('hogl-trace', argv)
    if st != 0:
        return 'hogl-trace %s failed (%s): %s' % (' '.join(argv), st, err[-300:])
    if c['out']:
        out = open('out.json').read() if os.path.exists('out.json') else None
    try:
        got = json.loads(out)['traceEvents']
    except Exception as x:
        return 'hogl-trace %s: the output is no valid trace (%s): %r' % (' '.join(argv), x, out)
    want = [e for f in c['files'] for l, e in f if e and ('send' in l or not c['regex'])]
    if got != want:
        return 'hogl-trace %s gives %r instead of %r' % (' '.join(argv), got, want)
    return None

# ---- machinery ----
def run(tool, argv):
    """run a script in a child; returns status, stdout, stderr"""
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if not pid:
        st = 70
        try:
            signal.alarm(30)
            for n, fd in (('stdout.txt', 1), ('stderr.txt', 2)):
                f = os.open(n, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600); os.dup2(f, fd); os.close(f)
            sys.stdout = io.TextIOWrapper(os.fdopen(1, 'wb', closefd=False), encoding='utf-8')
            sys.stderr = io.TextIOWrapper(os.fdopen(2, 'wb', closefd=False), encoding='utf-8')
            sys.argv = [tool] + argv
            g = {'__name__': '__main__', '__file__': tool}
            try:
                exec(CODE[tool], g)
                st = 0
            except SystemExit as x:
                st = x.code if isinstance(x.code, int) else 0 if x.code is None else 1
            except BaseException:
                traceback.print_exc(); st = 1
            g.clear(); gc.collect() # as at the end of the interpreter: closes files
            try:
                sys.stdout.flush()
            except ValueError:
                pass # closed by the script
            sys.stderr.flush()
        finally:
            os._exit(st)
    _, s = os.waitpid(pid, 0)
    return (os.waitstatus_to_exitcode(s), open('stdout.txt', errors='replace').read(), open('stderr.txt', errors='replace').read())

CODE = {}
SCEN = dict(grep=(grep_cases, grep_run), trace=(trace_cases, trace_run))

def main():
    a = dict(time='20'); params = {}
    for i in range(1, len(sys.argv) - 1, 2):
        if sys.argv[i] == '--param':
            k, v = sys.argv[i + 1].split('='); params[k] = int(v)
        else:
            a[sys.argv[i][2:]] = sys.argv[i + 1]
    for t in ('hogl-grep', 'hogl-trace'):
        n = os.path.join(REPO, 'tools', t)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            CODE[t] = compile(open(n).read(), n, 'exec', dont_inherit=True)
    cases, fn = SCEN[a['scenario']]
    if 'replay' in a:
        c = json.loads(re.search(r'^case (.*)$', open(a['replay']).read(), re.M).group(1))
        m = fn(c); print(json.dumps(c)); print(m or 'no violation'); return 1 if m else 0
    t0 = time.time(); end = t0 + float(a['time']); pids = []
    top = os.getcwd()
    for w in range(W):
        pid = os.fork()
        if not pid:
            d = os.path.join(top, 'w%d' % w); os.makedirs(d, exist_ok=True); os.chdir(d)
            n, res, part, samples, lines = 0, None, False, [], 0
            try:
                for k, c in enumerate(cases(params)):
                    if k % W != w:
                        continue
                    if time.time() > end:
                        part = True; break
                    for o in ('out.txt', 'out.json'):
                        if os.path.exists(o):
                            os.unlink(o)
                    m = fn(c); n += 1; lines += sum(len(f) for f in c['files'])
                    if m:
                        res = (c, m); break
                    if n & (n - 1) == 0 and len(samples) < 4:
                        samples.append(json.dumps(c)[:500])
                json.dump(dict(n=n, lines=lines, res=res, part=part, samples=samples), open('result', 'w'))
                os._exit(0)
            except BaseException:
                traceback.print_exc(); os._exit(3)
        pids.append(pid)
    bad = False
    for p in pids:
        bad |= os.waitpid(p, 0)[1] != 0
    if bad:
        return 2
    rs = [json.load(open('w%d/result' % w)) for w in range(W)]
    n = sum(r['n'] for r in rs); viol = [r['res'] for r in rs if r['res']]; part = any(r['part'] for r in rs)
    msg = viol[0][1] if viol else ''
    if viol:
        print('VIOL scenario=%s %s' % (a['scenario'], msg))
        if 'replay-out' in a:
            open(a['replay-out'], 'w').write('scenario %s\nmessage %s\ncase %s\nend\n' % (a['scenario'], msg, json.dumps(viol[0][0])))
    if 'json' in a:
        full = not part and not viol
        json.dump(dict(result='violation' if viol else 'ok', message=msg[:1500], states=n, transitions=sum(r['lines'] for r in rs), executions=n, evaluations=n, skipped=0, outcomes=n, distinct=n,
                       bound_requested=0, bound_completed=0 if full else -1, exhausted=full, max_decisions=3, wall_s=round(time.time() - t0, 2), samples=[s for r in rs for s in r['samples'][:2]][:6]), open(a['json'], 'w'))
    return 1 if viol else 0

sys.exit(main())
