#!/usr/bin/env python3
"""dev.py [--nobuild] LABEL ENTRY params [time] : one symbolic run with statistics (development aid)"""
import sys, os, subprocess, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/../bin')
import build, check, re
d = build.VERIF + '/build/dev'
nb = sys.argv[1] == '--nobuild'
a = [x for x in sys.argv[1:] if x != '--nobuild']
lib = open(build.VERIF + '/harness/src/lib.rs').read()
entries = re.findall(r'\w+::(h_\w+)', lib)
if nb:
    b = dict(engine=build.VERIF + '/build/engine/release/symex', ll=d + '/red.ll', replay=d + '/native/release/replay')
else:
    b = build.build_all(d, entries)
    print('build %.1f' % b['build_s'])
for spec in a[1:]:
    p = spec.split(':')
    out = d + '/run'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    t = p[2] if len(p) > 2 else '60'
    t0 = time.time()
    cmd = [b['engine'], b['ll'], p[0], '--label', a[0], '--params', p[1] if len(p) > 1 else '', '--workers', '8', '--time', t,
           '--out', out, '--seed', '1', '--steps', os.environ.get('STEPS', '3000000'), '--depth', os.environ.get('DEPTH', '600'), '--hash', os.environ.get('HASH', '0,0'), '--samples', '25', '--viols', '6']
    rc = subprocess.run(cmd, stderr=open(out + '/stderr', 'w')).returncode
    r = check.merge(out)
    n = r['n']
    print('%s rc=%d %.1fs paths=%d killed=%d branches=%d unexpl=%d unknown=%d queries=%d solver=%.1fs steps=%d viols=%d covers=%s' % (
        spec, rc, time.time() - t0, n['paths'], n['killed'], n['branches'], n['unexplored'], n['unknown'], n['queries'],
        n['solver_us'] / 1e6, n['steps'], len(r['viol']), sorted(map(int, r['cover']))))
    if os.environ.get('V'):
        for k, c in r['site'].most_common(12):
            print('   SITE', c, k[:160])
    for k, c in r['unsup'].most_common(8):
        print('   UNSUP', c, k[:300])
    seen = set()
    for v in r['viol']:
        key = (v['code'], v['kind'], v['site'][:80])
        if key in seen: continue
        seen.add(key)
        ok, text = check.replay(b, p[0], p[1] if len(p) > 1 else '', v['inputs'], int(a[0]))
        print('  VIOL', v['kind'], v['code'], v['site'][:300], 'CONFIRMED' if ok else 'unconfirmed', text[:1500])
    inp = ''.join('%s [%s] %s %s %d\n' % (p[0], p[1] if len(p) > 1 else '', x, o, 9999) for (x, o) in r['sample'][:60])
    if inp:
        q = subprocess.run([b['replay'], 'batch'], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print('  batch', q.stdout.decode()[-100:].strip().split(chr(10))[-1])
    e = open(out + '/stderr').read()
    if e.strip(): print('  stderr', e[-800:])
