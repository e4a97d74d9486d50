#!/usr/bin/env python3
"""Plants the bugs described in tools/plants/*.py: writes seeded/<id>/, and confirms each one
in a scratch copy (builds, passes the tests, the demo tells the trees apart), then runs
the property's check against it in /repo.   plant.py [--no-check] [ID...]"""
import glob, json, os, shutil, subprocess, sys, time
V = '/verif'; R = '/repo'
os.chdir(V)
spec = {}
exec(open(V + '/tools/plants.py').read())
args = [a for a in sys.argv[1:] if not a.startswith('--')]
def sh(c, t=900, cwd=None):
    return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, cwd=cwd)
def clean(): assert sh(f'git -C {R} status --short').stdout == '', 'dirty'
for P in PLANTS:
    if args and P['id'] not in args: continue
    clean()
    d = f"{V}/seeded/{P['id']}"
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d + '/demo')
    for f in ['Cargo.toml', 'host.cjs', 'prelude.rs']:
        s = open(f'{V}/tools/demo/{f}').read()
        if f == 'Cargo.toml': s = s.replace('@FEATURES@', ', '.join('"%s"' % x for x in P.get('features', [])))
        open(f'{d}/demo/{f}', 'w').write(s)
    if 'conc' in P:
        shutil.rmtree(d + '/demo')
        shutil.copytree(V + '/conc', d + '/conc', ignore=shutil.ignore_patterns('target'))
        open(d + '/demo.sh', 'w').write(open(V + '/tools/demo/conc.sh').read().replace('@ARGS@', P['conc']).replace('@VARIANT@', P.get('variant', '')))
    else:
        lock = open(V + '/harness/Cargo.lock').read().replace('name = "verif-harness"', 'name = "demo"')
        open(d + '/demo/Cargo.lock', 'w').write(lock)
        open(d + '/demo/lib.rs', 'w').write('mod prelude;\nuse prelude::*;\n' + P['demo'])
        shutil.copy(V + '/tools/demo/demo.sh', d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': P['prop'], 'needs': P['needs'], 'what_it_breaks': P['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    out = [P['id'], P['prop']]
    try:
        r = sh(f'bash {d}/demo.sh', cwd=R)
        out.append('clean-demo:%d' % r.returncode)
        if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
        for file, a, b in P['edits']:
            s = open(f'{R}/{file}').read()
            assert s.count(a) == 1, (P['id'], 'pattern count', s.count(a), a)
            open(f'{R}/{file}', 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
        r = sh(f'cd {R} && bash /opt/vp/build.sh > /tmp/pb.log 2>&1 && bash /opt/vp/test.sh /tmp/po.json >/dev/null 2>&1; cat /tmp/po.json')
        try: t = json.loads(r.stdout); out.append('tests:%d/%d' % (len(t['passed']), len(t['failed'])))
        except Exception: out.append('BUILD FAIL ' + sh('grep -m3 -A5 ^error /tmp/pb.log').stdout)
        r = sh(f'bash {d}/demo.sh', cwd=R)
        out.append('bug-demo:%d' % r.returncode + ' ' + ' / '.join(r.stdout.strip().split('\n')[-4:])[:200])
        if '--no-check' not in sys.argv:
            t0 = time.time(); r = sh(f'./check {P["prop"]} quick')
            l = [x for x in r.stdout.split('\n') if x.startswith(P['prop'] + ' ')]
            out.append('CHECK rc%d %.0fs %s' % (r.returncode, time.time() - t0, l[-1][:160] if l and r.returncode == 1 else (r.stdout + r.stderr)[-300:] if r.returncode == 2 else ''))
    finally:
        sh(f'git -C {R} checkout -- .'); sh('rm -f /tmp/po.json')
    print(' | '.join(out), flush=True)
