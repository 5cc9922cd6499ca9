"""mkseed.py ID PROPERTY FILE <<< spec : helper to write a planted change.
Reads a python file defining: edits=[(file, old, new)], needs, breaks, demo (C++), env (optional shell lines)."""
import sys, os, json, subprocess, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = runpy.run_path(spec)
    for s in g['SEEDS']:
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0
        for f, old, new in s['edits']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout)
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.cc', 'w').write(s['demo'])
        t = open(V + '/tools/demo.sh').read()
        if s.get('env'):
            t = t.replace('here=', s['env'] + '\nhere=', 1)
        open(d + '/demo.sh', 'w').write(t)
        for n, c in s.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(c)
        print(s['id'])
