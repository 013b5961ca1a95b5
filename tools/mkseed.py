#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes a planted bug folder from a spec that defines id, prop, needs, breaks,
edits=[(file, old, new)], and ccml/expect (run by nano_driver), demo (C++) or sh (shell) with files."""
import sys, os, subprocess, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = '/verif/seeded/' + ns['id']
os.makedirs(d, exist_ok=True)
for f, old, new in ns['edits']:
    p = '/repo/source/' + f
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(d + '/patch.diff', 'w').write(diff)
json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
for n, t in ns.get('files', {}).items():
    open(d + '/' + n, 'w').write(t)
if 'sh' in ns:
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cd "$d"
''' + ns['sh'])
elif 'demo' in ns:
    open(d + '/demo.cpp', 'w').write('#include "demo.h"\n' + ns['demo'])
    open(d + '/demo.h', 'w').write(open('/verif/tools/demo.h').read())
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
B=/repo/_build
g++ -std=c++17 -w -include cstring -D__error_t_defined=1 -fno-delete-null-pointer-checks -I/repo/source/lib_common -I/repo/source \\
  "$here/demo.cpp" $B/libnano_lib_builtin.a $B/libnano_lib_compiler.a $B/libnano_lib_vm.a $B/libnano_lib_common.a -o "$d/demo" || exit 3
cd "$d" && timeout 60 ./demo
''')
else:
    open(d + '/demo.ccml', 'w').write(ns['ccml'])
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cd "$d"
got=$(timeout 60 /repo/_build/nano_driver "$here/demo.ccml" 2>&1)
want=%s
echo "got: $got"; echo "want: $want"
[ "$got" == "$want" ]
''' % json.dumps(ns['expect']))
