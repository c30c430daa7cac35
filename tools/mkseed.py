"""mkseed.mk(id, prop, [(file, old, new)...], demo, needs, breaks): write /verif/seeded/<id>/ from edits of /repo's HEAD"""
import os, subprocess, json, tempfile, difflib
def mk(id, prop, edits, demo, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
        assert s.count(old) == 1, (f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, n in files.items():
        o = subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
        out += ''.join(difflib.unified_diff(o.splitlines(1), n.splitlines(1), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/sh\n# run with cwd at the repository, after its build\n'
        'D=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$D/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
