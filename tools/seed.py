"""seed.py FILE: python file with SEEDS = [(id, property, file, old, new, needs, breaks, demo)] -> seeded/<id>/ (patches made against /repo's tree)"""
import json, os, subprocess, sys, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for sid, prop, edits, needs, breaks, demo in ns['SEEDS']:
    if only and sid not in only:
        continue
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p, encoding='utf-8', newline='').read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/demo.py', 'w').write('from gd import *\n' + demo)
    shutil.copy('/verif/tools/gd.py', d)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\ncd "$(dirname "$0")" && exec python3 -B demo.py 2>&1\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
