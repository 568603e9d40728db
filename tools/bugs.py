#!/usr/bin/env python3
"""Generate /verif/seeded/<id> from the entries in tools/bugdefs/*.py.

Each entry: B(id, property, [(file, old, new), ...], demo, needs, breaks).
usage: tools/bugs.py [ID...]
"""
import difflib
import json
import os
import re
import runpy
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/bash
# cwd is the repository (or a scratch copy of it)
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def main():
    want = sys.argv[1:]
    for fn in sorted(os.listdir(os.path.join(HERE, 'tools', 'bugdefs'))):
        if not fn.endswith('.py'):
            continue
        out = []

        def B(id, prop, edits, demo, needs, breaks):
            out.append((id, prop, edits, demo, needs, breaks))
        runpy.run_path(os.path.join(HERE, 'tools', 'bugdefs', fn), {'B': B})
        for id, prop, edits, demo, needs, breaks in out:
            if want and not any(re.fullmatch(w, id) for w in want):
                continue
            patch = ''
            bysrc = {}
            for f, old, new in edits:
                bysrc.setdefault(f, []).append((old, new))
            for f, l in bysrc.items():
                src = open(os.path.join(REPO, f)).read()
                mod = src
                for old, new in l:
                    assert mod.count(old) == 1, (id, f, mod.count(old), old)
                    mod = mod.replace(old, new)
                patch += ''.join(x if x.endswith('\n') else x + '\n\\ No newline at end of file\n'
                                 for x in difflib.unified_diff(
                    src.splitlines(True), mod.splitlines(True), 'a/' + f, 'b/' + f))
            d = os.path.join(HERE, 'seeded', id)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(patch)
            open(os.path.join(d, 'demo.sh'), 'w').write(SH)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            print(id)


main()
