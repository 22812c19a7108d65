#!/usr/bin/env python3
"""Usage: check.py PROPERTY   (tier from VERIF_TIER, default quick)
       check.py --build       build everything (setup)
       check.py --replay FILE replay a violation
Exit 0: property held on everything explored; 1: VIOLATION line; 2: error."""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import build, props

V = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'

def known():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out

def t(v):
    return v[0] if isinstance(v, (tuple, list)) and TIER == 'quick' else v[1] if isinstance(v, (tuple, list)) else v

def run_one(prop, i, r, deadline):
    b = build.binary(*r['bin'][0], **r['bin'][1])
    js = os.path.join(V, 'build', 'out-%s-%d.%d.json' % (prop, i, os.getpid()))
    os.makedirs(os.path.dirname(js), exist_ok=True)
    rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, '%s-%d.txt' % (prop, i))
    for f in (js, rp):
        if os.path.exists(f):
            os.unlink(f)
    tm = max(2.0, min(float(t(r.get('time', (20, 200)))), deadline - time.time()))
    if r['kind'] == 'mc':
        cmd = [b, '--scenario', r['scenario'], '--prop', prop, '--bound', str(t(r.get('bound', (2, 4)))), '--time', '%.1f' % tm,
               '--json', js, '--replay-out', rp]
        for k, v in (r.get('opts') or {}).items():
            cmd += ['--' + k, str(t(v))]
        for k, v in (r.get('params') or {}).items():
            cmd += ['--param', '%s=%s' % (k, t(v))]
    else:
        cmd = [b, '--prop', prop, '--tier', TIER, '--time', '%.1f' % tm, '--json', js, '--replay-out', rp, '--seed', str(SEED)] + [str(a) for a in t(r.get('args', [[], []]))]
    env = dict(os.environ)
    env.pop('MC_NOASLR', None)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:exitcode=99:detect_stack_use_after_return=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    # scratch directory for everything the code under test writes
    scratch = tempfile.mkdtemp(prefix='vt-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=tm * 3 + 300, cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    out = {}
    if os.path.exists(js):
        try:
            out = json.load(open(js))
        except ValueError:
            out = {}
        os.unlink(js)
    if p.returncode not in (0, 1) or not out:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    if p.returncode == 1 and os.path.exists(rp):
        with open(rp, 'r+') as f:
            body = f.read(); f.seek(0)
            f.write('# replay: python3 %s --replay %s\nproperty %s\ncommand %s\n' % (os.path.join(V, 'check.py'), rp, prop, ' '.join(cmd)) + body)
        if r['kind'] == 'mc':
            symbolize(b, rp)
    return p.returncode, out, rp, p.stdout

def symbolize(b, rp):
    try:
        s = open(rp).read()
        head, sep, tail = s.partition('\nend\n')
        pcs = sorted(set(re.findall(r'pc=(0x[0-9a-f]+)', s)))
        if not pcs:
            return
        o = subprocess.run(['addr2line', '-sfCe', b] + ['%x' % (int(x, 16) - 1) for x in pcs], capture_output=True, text=True).stdout.split('\n')
        m = {x: '%s %s' % (o[2 * i + 1], o[2 * i].split('(')[0][:60]) for i, x in enumerate(pcs) if 2 * i + 1 < len(o)}
        tail = re.sub(r'pc=(0x[0-9a-f]+)', lambda k: 'at %s' % m.get(k.group(1), k.group(1)), tail)
        open(rp, 'w').write(head + sep + tail)
    except Exception as e:  # symbols are a convenience only
        print('symbolize: %s' % e, file=sys.stderr)

def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        s = open(sys.argv[2]).read()
        cmd = re.search(r'^command (.*)$', s, re.M).group(1).split()
        i = cmd.index('--scenario') if '--scenario' in cmd else None
        keep = [cmd[0]] + (['--scenario', cmd[i + 1]] if i else [])
        for k in range(len(cmd) - 1):
            if cmd[k] in ('--param', '--prop', '--steps', '--pcost', '--tier'):
                keep += [cmd[k], cmd[k + 1]]
        keep += ['--replay', sys.argv[2]]
        scratch = tempfile.mkdtemp(prefix='vt-')
        try:
            return subprocess.run(keep, cwd=scratch).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if len(sys.argv) == 2 and sys.argv[1] == '--build':
        for spec in props.all_bins():
            t0 = time.time(); b = build.binary(*spec[0], **spec[1]); print('built %s (%.1fs)' % (b, time.time() - t0), flush=True)
        return 0
    prop = sys.argv[1]
    c = props.CHECKS[prop]
    t0 = time.time()
    budget = 600 if TIER == 'quick' else 3000
    res, viol, kf = [], None, []
    runs = [r for r in c['runs'] if not (r.get('thorough_only') and TIER == 'quick')]
    only = os.environ.get('VT_RUN')
    for i, r in enumerate(runs):
        if only and r.get('label', r.get('scenario', '')) != only:
            continue
        rc, out, rp, txt = run_one(prop, i, r, t0 + budget)
        out['label'] = r.get('label') or (r.get('scenario', '') + ' ' + ' '.join('%s=%s' % (k, t(v)) for k, v in (r.get('params') or {}).items())).strip()
        res.append(out)
        for k in out.get('known', []):
            kf.append(k)
        if rc == 1:
            msg = '%s: %s' % (out['label'], out.get('message', ''))
            for kp, rx, desc in known():
                if kp == prop and rx.search(msg):
                    kf.append(desc)
                    break
            else:
                viol = (rp, msg)
                break
    wall = time.time() - t0
    write_evidence(prop, c, res, viol, wall)
    for k in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if viol:
        print(viol[1][:1500])
        print('VIOLATION property=%s replay=%s' % (prop, viol[0]))
        return 1
    print('OK property=%s %s' % (prop, summary(res)))
    return 0

def summary(res):
    return '%d runs, %d states, %d transitions, %d executions' % (len(res), sum(r.get('states', 0) for r in res), sum(r.get('transitions', 0) for r in res), sum(r.get('executions', r.get('evaluations', 0)) for r in res))

def write_evidence(prop, c, res, viol, wall):
    cov = {}
    # without concurrency the states are the ends of the explored sequences
    cov['states'] = sum(r.get('states', 0) or r.get('executions', 0) for r in res)
    cov['transitions'] = sum(r.get('transitions', 0) for r in res)
    mc = [r for r in res if 'bound_completed' in r]
    en = [r for r in res if 'bound_completed' not in r]
    # every explored execution runs the real code to its end and is judged by the oracle
    cov['traces_validated_against_impl'] = sum(r['executions'] - r.get('pruned', 0) - r.get('discarded', 0) for r in mc) + sum(r.get('evaluations', 0) for r in en)
    if en or c['level'] in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = sum(r.get('executions', r.get('evaluations', 0)) for r in res)
        cov['distinct_nontrivial'] = sum(r.get('distinct', r.get('states', 0)) for r in res)
        cov['rule'] = '; '.join(sorted(set(r['rule'] for r in res if r.get('rule')))) or 'every schedule within the bound; distinct = different happens-before states'
    cov['samples'] = []
    for r in res:
        for s in r.get('samples', [])[:2]:
            cov['samples'].append('%s: %s' % (r['label'], s[:600]))
    cov['exhaustive'] = bool(res) and all((r.get('bound_completed', -1) >= r.get('bound_requested', 0) or r.get('exhausted')) and not r.get('diverged') if 'bound_completed' in r else r.get('exhaustive', False) for r in res) and not viol
    cov['runs'] = [{k: v for k, v in r.items() if k not in ('samples',)} for r in res]
    if not cov['samples']:
        cov['samples'] = ['no execution completed: %s' % (viol[1][:300] if viol else '')]
    ev = dict(property=prop, tier=TIER, seed=SEED, level=c['level'], coverage=cov, assumptions=c.get('assumptions', props.ASSUME), wall_s=round(wall, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print('BUILD-ERROR %s' % e); sys.exit(2)
    except Exception as e:
        import traceback; traceback.print_exc()
        print('CHECK-ERROR %s' % e); sys.exit(2)
