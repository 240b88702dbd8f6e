#!/usr/bin/env python3
"""mkbug.py <id> <property> : assembles seeded/<id>/ from /tmp/bugs/<id>/{patch.diff or edits applied to /tmp/bugs/repo, demo.cc, meta.json}.
Copies the build kit beside the demo (demos may not use anything of /verif)."""
import os, shutil, subprocess, sys, tarfile, io
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def kit(dst):
    with tarfile.open(dst, 'w:gz') as t:
        def flt(i):
            i.mtime = 0; i.uid = i.gid = 0; i.uname = i.gname = ''; return i
        for d in ('compat', 'tools/gen_ninja.py'): t.add(os.path.join(V, d), d, filter=flt)
DEMO = '''#!/bin/bash
# Builds demo.cc with /repo's sources (third-party libraries replaced by the kit's
# stand-ins) in a scratch directory and runs it there.
set -u
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
T="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$T"' EXIT
tar -C "$T" -xzf "$here/kit.tgz" && mkdir "$T/harness" && cp "$here"/*.cc "$T/harness/" || exit 2
for h in "$here"/*.h "$here"/*.inc; do [ -e "$h" ] && cp "$h" "$T/harness/"; done
VERIF_REPO="$repo" VERIF_OPT=-O0 python3 "$T/tools/gen_ninja.py" plain || exit 2
ninja --quiet -C "$T/build/plain" bin/demo >"$T/log" 2>&1 || { grep -aE 'error|undefined' "$T/log" | head -20; exit 2; }
cd "$T" && timeout 120 "$T/build/plain/bin/demo"
'''
def main(id):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    kit(os.path.join(d, 'kit.tgz'))
    p = os.path.join(d, 'demo.sh'); open(p, 'w').write(DEMO); os.chmod(p, 0o755)
main(sys.argv[1])
