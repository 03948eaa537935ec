"""mkseed.py ID PROPERTY FILE 'old' 'new' needs breaks: writes seeded/ID/{patch.diff,meta.json} (one textual replacement; FILE relative to /repo).
The demo (demo.sh, demo.cpp) is written by hand."""
import sys, json, subprocess, os, tempfile, shutil
def make(id, prop, file, reps, needs, breaks, demo, flags='', inc=''):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        files = {file} if isinstance(file, str) else set(file)
        for r in reps:
            f, old, new = (file, *r) if len(r) == 2 else r
            p = f'{w}/r/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (id, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        df = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(df)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write('''#!/bin/sh
# run with cwd /repo
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
g++ -std=c++20 -O1 %s -Iinclude %s -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$w/demo" || { rm -rf "$w"; exit 3; }
"$w/demo"
r=$?
rm -rf "$w"
exit $r
''' % (flags, inc))
        os.chmod(d + '/demo.sh', 0o755)
        a = subprocess.run(['sh', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['sh', d + '/demo.sh'], cwd=w + '/r', capture_output=True, text=True)
        print(id, 'clean rc', a.returncode, 'patched rc', b.returncode, (b.stdout + b.stderr)[-200:] if b.returncode == 3 or b.returncode == 0 else '', a.stderr[-300:] if a.returncode else '')
    finally:
        shutil.rmtree(w)
