"""mut.py PROP MODULE OLD NEW [nth]: engine verdict on a textual mutation of a scratch copy (development aid)"""
import os, shutil, subprocess, sys, tempfile
prop, mod, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/paragami', d + '/paragami')
    f = d + '/paragami/' + mod + '.py'
    s = open(f).read()
    parts = s.split(old)
    assert len(parts) > nth + 1, 'pattern occurs %d times' % (len(parts) - 1)
    s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(f, 'w').write(s)
    r = subprocess.run([sys.executable if 'pyvenv' in sys.executable else '/opt/veriftools/pyvenv/bin/python', '-m', 'pv.run', prop] + [a for a in sys.argv[6:]], cwd='/verif',
                       env=dict(os.environ, PARAGAMI_REPO=d), capture_output=True, text=True)
    out = [l for l in r.stdout.splitlines() if l.startswith('FAILED')]
    print('\n'.join(out[:6]))
    print(r.stdout.splitlines()[-1] if r.stdout else r.stderr[-2000:])
finally:
    shutil.rmtree(d)
