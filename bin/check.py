#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current working tree.

exit 0  held on everything explored
exit 1  VIOLATION property=<id> replay=<file>   (counterexample confirmed on the real code)
exit 2  the check itself could not answer
"""
import collections, glob, json, os, re, shutil, signal, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS, COMMON_ASSUMPTIONS

VERIF = build.VERIF


def merge(d):
    r = dict(n=collections.Counter(), max={}, unsup=collections.Counter(), cover=set(), func=set(), viol=[],
             sample=[], site=collections.Counter(), meta={}, workers=0)
    for f in glob.glob(d + '/w*.txt'):
        r['workers'] += 1
        for l in open(f):
            k, v = l.rstrip('\n').split(' ', 1)
            if k == 'n':
                a, b = v.split()
                r['n'][a] += int(b)
            elif k == 'max':
                a, b = v.split()
                r['max'][a] = max(r['max'].get(a, 0), int(b))
            elif k in ('unsup', 'site'):
                a, b = v.split(' ', 1)
                r[k][b] += int(a)
            elif k in ('cover', 'func'):
                r[k].add(v)
            elif k == 'viol':
                label, code, kind, rest = v.split(' ', 3)
                ins, site = rest.split(' ', 1) if ' ' in rest else (rest, '')
                r['viol'].append(dict(label=int(label), code=int(code), kind=kind, inputs=ins.strip('[]'), site=site))
            elif k == 'sample':
                a, b = v.split(' ')
                r['sample'].append((a, b))
    for l in open(d + '/meta.txt'):
        k, v = l.rstrip('\n').split(' ', 1)
        r['meta'][k] = v
    return r


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
    return [re.sub(r'\[[0-9a-f]{6,16}\]', '', n) for n in p.stdout.decode(errors='replace').split('\n') if n]


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(b, entry, params, inputs, label, timeout=20):
    """-> (confirmed, text)"""
    cmd = [b['replay'], 'one', entry, '[%s]' % params, '[%s]' % inputs, str(label)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired as e:
        return True, 'does not end within %d s\n%s' % (timeout, (e.stdout or b'')[-2000:].decode(errors='replace'))
    out = p.stdout.decode(errors='replace')
    out = out if len(out) < 6000 else out[:3000] + '\n...\n' + out[-3000:]
    if p.returncode == 0:
        return False, out
    if p.returncode == 3:
        return False, out
    if p.returncode == 10:
        return True, out
    return True, 'ended with status %d\n%s' % (p.returncode, out)


def known_findings(pid):
    f = VERIF + '/known-findings.json'
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k.get('property') == pid and k.get('status') == 'known']


def judge_counterexamples(b, label, known, viols):
    """re-runs the solver's counterexamples on the native build -> confirmed, unconfirmed, known"""
    confirmed, unconfirmed, hits = [], [], []
    seen = set()
    for v in viols:
        key = (v['code'], v['kind'], v['site'][:120])
        if key in seen and confirmed:
            continue
        seen.add(key)
        ok, text = replay(b, v['entry'], v['params'], v['inputs'], label)
        if not ok and v.get('confirm') is not None:
            # the same family at a size where the native stack shows the defect
            v['params'] = ','.join(str(x) for x in v['confirm'])
            ok, text = replay(b, v['entry'], v['params'], v['inputs'], label)
        for _ in range(200 if v.get('hash') and not ok else 0):
            # natively every process hashes differently
            ok, text = replay(b, v['entry'], v['params'], v['inputs'], label)
            if ok:
                break
        v['replay_output'] = text
        hit = ok and next((k for k in known if k['entry'] == v['entry'] and k['site'] == v['code'] and
                           k.get('kind', 'assert') == v['kind'] and re.search(k['match'], text)), None)
        if hit:
            hits.append(hit)
        elif ok:
            confirmed.append(v)
        else:
            unconfirmed.append(v)
        if len(confirmed) >= 5:
            break
    return confirmed, unconfirmed, hits


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[pid]
    label = int(pid[1:])
    t0 = time.time()
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    work = '%s/build/%s' % (VERIF, pid)
    shutil.rmtree(work, ignore_errors=True)
    jobs = P['quick'] if tier == 'quick' else P.get('thorough', P['quick'])
    entries = sorted(set(j['entry'] for j in jobs))
    try:
        b = build.build_all(work, entries)
    except build.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    known = known_findings(pid)
    tot = collections.Counter()
    mx = {}
    unsup = collections.Counter()
    funcs = set()
    jrep = []
    confirmed = []
    unconfirmed = []
    hits = []
    lines = []
    missing = []
    bad = 0
    z3 = ''
    hard = 780 if tier == 'quick' else 6 * 3600
    for i, j in enumerate(jobs):
        out = '%s/j%d' % (work, i)
        os.makedirs(out)
        budget = min(j.get('time', 120), max(5, hard - (time.time() - t0)))
        params = ','.join(str(x) for x in j.get('params', []))
        cmd = [b['engine'], b['ll'], j['entry'], '--label', str(label), '--params', params, '--workers', '8',
               '--time', str(budget), '--out', out, '--seed', str(seed), '--steps', str(j.get('steps', 3000000)), '--hash', j.get('hash', '0,0'),
               '--depth', str(j.get('depth', 600)), '--samples', str(j.get('samples', 25)), '--viols', '6']
        ts = time.time()
        err = open(out + '/stderr', 'w')
        try:
            rc = subprocess.run(cmd, stdout=err, stderr=err, timeout=budget + 60).returncode
        except subprocess.TimeoutExpired:
            print('ERROR: engine did not stop on %s' % j['entry'])
            return 2
        if rc not in (0, 2):
            print('ERROR: engine failed on %s: %s' % (j['entry'], open(out + '/stderr').read()[-2000:]))
            return 2
        r = merge(out)
        z3 = r['meta'].get('z3', '')
        bad += int(r['meta'].get('bad', '0'))
        complete = r['n']['unexplored'] == 0 and not r['unsup'] and rc == 0 and r['n']['unknown'] == 0
        tot.update(r['n'])
        for k, v in r['max'].items():
            mx[k] = max(mx.get(k, 0), v)
        unsup.update(r['unsup'])
        funcs |= r['func']
        found = judge_counterexamples(b, label, known, [
            dict(v, entry=j['entry'], params=params, confirm=j.get('confirm'), hash=j.get('hash')) for v in r['viol']])
        confirmed += found[0]
        unconfirmed += found[1]
        hits += [k for k in found[2] if k not in hits]
        for (a, o) in r['sample']:
            lines.append((j['entry'], params, a, o))
        mis = [c for c in j.get('covers', []) if str(c) not in r['cover']]
        if mis and complete:
            missing.append('%s(%s): %s' % (j['entry'], params, mis))
        jrep.append(dict(entry=j['entry'], params=j.get('params', []), bound=j.get('bound', ''),
                         paths=r['n']['paths'], assumed_away=r['n']['killed'], branch_points=r['n']['branches'],
                         complete=complete, unexplored=r['n']['unexplored'], covers=sorted(int(c) for c in r['cover']),
                         queries=r['n']['queries'] + r['n']['cached'] + r['n']['patched'],
                         asserts=r['n']['asserts'], wall_s=round(time.time() - ts, 2)))
        if os.environ.get('VERBOSE'):
            print(json.dumps(jrep[-1]))
            for k, n in r['site'].most_common(12):
                print('   SITE', n, k[:200])
            for k, n in r['unsup'].most_common(8):
                print('   UNSUP', n, k[:300])
        if confirmed:
            break
    # ---- sampled paths on the real code
    validated = 0
    mismatch = None
    step = max(1, len(lines) // 400)
    sel = lines[::step]
    if sel:
        inp = ''.join('%s [%s] %s %s %d\n' % (e, p, a, o, 9999) for (e, p, a, o) in sel)
        p = subprocess.run([b['replay'], 'batch'], input=inp.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=300)
        out = p.stdout.decode(errors='replace')
        m = re.search(r'VALIDATED (\d+)', out)
        if m:
            validated = int(m.group(1))
        else:
            runs = re.findall(r'RUN (\d+)', out)
            mismatch = out[-1500:] + '\nline: ' + (inp.split('\n')[int(runs[-1])] if runs else '?')
    for k in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    reported = confirmed[:5]
    # ---- evidence
    rdir = VERIF + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob('%s/%s-*' % (rdir, pid)):
        os.remove(f)
    paths = []
    for i, v in enumerate(reported):
        f = '%s/%s-%d.json' % (rdir, pid, i + 1)
        json.dump(dict(property=pid, entry=v['entry'], params=v['params'], inputs=v['inputs'], kind=v['kind'],
                       site_code=v['code'], site=v['site'], output=v['replay_output'],
                       how="build with 'python3 bin/check.py %s', then: build/%s/native/release/replay one %s '[%s]' '[%s]' %d"
                           % (pid, pid, v['entry'], v['params'], v['inputs'], label)), open(f, 'w'), indent=1)
        paths.append(f)
    fn = sorted(set(demangle(sorted(funcs))))
    own = [f for f in fn if re.match(r'<?(dyn )?magmaflow::', f) or ' as magmaflow::' in f]
    complete = all(j['complete'] for j in jrep)
    samples = []
    for (e, p, a, o) in (sel[:: max(1, len(sel) // 4)][:4]):
        samples.append(dict(entry=e, params=p, inputs=a[:400], observations=o[:400]))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot['paths'], transitions=tot['branches'],
                            traces_validated_against_impl=validated, samples=samples, exhaustive=complete,
                            meaning='states: complete symbolic paths through the real code, each standing for every '
                                    'input satisfying its path condition; transitions: branch decisions on symbolic '
                                    'values; traces_validated_against_impl: paths whose concrete model was re-run on '
                                    'the native build and gave the same observations',
                            bounds=P['bounds'], outside_bounds=P['outside'], jobs=jrep,
                            instructions_executed=tot['steps'], assumed_away=tot['killed'],
                            assertions_checked=tot['asserts'], assertions_decided_by_solver=tot['asserts_proved'],
                            assertions_decided_by_simplifier=tot['asserts_trivial'],
                            solver='z3 ' + z3, solver_queries=tot['queries'], solver_sat=tot['sat'],
                            solver_unsat=tot['unsat'], solver_unknown=tot['unknown'],
                            sat_by_model_reuse=tot['patched'], queries_cached=tot['cached'],
                            solver_s=round(tot['solver_us'] / 1e6, 3),
                            max_query_s=round(mx.get('max_query_us', 0) / 1e6, 3),
                            max_call_depth=mx.get('max_depth', 0), unsupported=dict(unsup.most_common(5)),
                            functions_encoded=len(fn), magmaflow_functions_encoded=own,
                            build_s=round(b['build_s'], 2)),
              assumptions=COMMON_ASSUMPTIONS + P.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(reported))
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
    shutil.rmtree(work + '/ht', ignore_errors=True)
    print('%s %s: %d paths, %d branch decisions, %d solver queries (%.2f s), %d replayed natively, complete=%s, %.1f s' %
          (pid, tier, tot['paths'], tot['branches'], tot['queries'], tot['solver_us'] / 1e6, validated, complete,
           time.time() - t0))
    if not complete:
        print('  incomplete: unexplored=%d unknown=%d unsupported=%s' % (
            tot['unexplored'], tot['unknown'], dict(unsup.most_common(3))))
    if reported:
        for v, f in zip(reported, paths):
            print('--- %s site %d, %s %s' % (v['kind'], v['code'], v['entry'], v['site'][:300]))
            print(v['replay_output'][:1500])
            print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    if unconfirmed:
        for v in unconfirmed[:5]:
            print('UNCONFIRMED %s site %d %s(%s) [%s] %s\n%s' % (v['kind'], v['code'], v['entry'], v['params'],
                                                            v['inputs'][:300], v['site'][:600], v['replay_output'][:800]))
        return 2
    if mismatch:
        print('ERROR: a sampled path behaves differently natively: %s' % mismatch)
        return 2
    if bad:
        print('ERROR: %d engine workers failed' % bad)
        return 2
    if missing:
        print('ERROR: vacuous, never reached: %s' % '; '.join(missing))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
