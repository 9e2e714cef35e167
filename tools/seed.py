"""seed.py ID: builds /verif/seeded/ID from tools/seeds/ID.py-like description given on stdin:
a Python dict literal {'property','needs','what_it_breaks','edits': [(file, old, new)…]} then a line ---- and demo.py."""
import ast, json, os, shutil, subprocess, sys, tempfile
ID = sys.argv[1]
text = sys.stdin.read()
head, demo = text.split('\n----\n', 1)
d = ast.literal_eval(head)
D = f'/verif/seeded/{ID}'
os.makedirs(D, exist_ok=True)
tmp = tempfile.mkdtemp(prefix='seed_')
shutil.copytree('/repo/glompo', tmp + '/b/glompo', ignore=shutil.ignore_patterns('__pycache__'))
shutil.copytree('/repo/glompo', tmp + '/a/glompo', ignore=shutil.ignore_patterns('__pycache__'))
for f, old, new in d['edits']:
    p = f'{tmp}/b/{f}'
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=tmp, capture_output=True, text=True).stdout
r = r.replace('--- a/', '--- a/').replace('diff --git a/', 'diff --git a/')
open(D + '/patch.diff', 'w').write(r)


# lines removed must be lines of the original repository
for l in r.splitlines():
    if l.startswith('-') and not l.startswith('---') and l[1:].strip():
        fs = [f for f, _, _ in d['edits']]
        if not any(l[1:] in subprocess.run(['git', '-C', '/repo', 'show', f'138750f:{f}'], capture_output=True, text=True).stdout.splitlines() for f in fs):
            print('NOTE not an original line:', l)
json.dump({k: d[k] for k in ('property', 'needs', 'what_it_breaks')}, open(D + '/meta.json', 'w'), indent=1)
shutil.copy('/verif/tools/seedlib/lib.py', D)
shutil.copy('/verif/tools/seedlib/demo.sh', D)
open(D + '/demo.py', 'w').write(demo)
shutil.rmtree(tmp)
