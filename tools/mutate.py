#!/usr/bin/env python3
"""Developer tool: a mutation campaign over /repo's sources in scratch copies under /tmp/mut.
  mutate.py gen            list mutants            -> /tmp/mut/mutants.json
  mutate.py tests          keep those that build and pass the tests -> /tmp/mut/alive.json
  mutate.py checks [div]   run the checks (quick cases / div) until one fails -> /tmp/mut/res.jsonl
Each worker has a copy of the repository, bind mounted over /repo in a namespace of its own."""
import sys, os, re, json, subprocess, random, shutil
from concurrent.futures import ThreadPoolExecutor
import threading, queue
M = '/tmp/mut'
V = M + '/vsrc'  # a copy of /verif/src, so that editing it does not disturb a campaign
FILES = [f for f in subprocess.check_output(['git', '-C', '/repo', 'ls-files', 'source'], text=True).split()
         if f.endswith(('.cpp', '.h'))]
N = 5
ALL = ['C%02d' % i for i in range(1, 24)]
ASAN = {'C06', 'C09', 'C12', 'C15', 'C17', 'C22', 'C23'}

def gen():
    out = []
    for f in FILES:
        depth_comment = False
        for i, l in enumerate(open('/repo/' + f).read().split('\n')):
            c = l.split('//')[0]
            if 'assert(' in c or c.strip().startswith('#') or not c.strip():
                continue
            new = set()
            def sub(pat, rep):
                for m in re.finditer(pat, c):
                    # not inside strings
                    if c[:m.start()].count('"') % 2:
                        continue
                    new.add(c[:m.start()] + m.expand(rep) + c[m.end():])
            for a, b in [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
                         (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '),
                         (r' \+= ', ' -= '), (r' \|= ', ' = '), (r'\bmax\b', 'min'), (r'\bmin\b', 'max'),
                         (r'\.back\(\)', '.front()'), (r'\.rbegin\(\)', '.begin()'), (r'\.end\(\)', '.begin()'),
                         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z(])', ''), (r'\+\+', '--'), (r'--', '++'),
                         (r'\bcontinue;', 'break;'), (r'\bbreak;', ';'),
                         (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])1(?![\w.])', '0'),
                         (r'\bif \((.*)\) \{$', r'if (!(\1)) {'), (r'\bif \((.*)\) \{$', r'if (true) {'), (r'\bif \((.*)\) \{$', r'if (false) {'),
                         (r'(?<![\w.])([2-9]|[1-9][0-9]+)(?![\w.])', None)]:
                if b is None:
                    for m in re.finditer(a, c):
                        if c[:m.start()].count('"') % 2 == 0:
                            new.add(c[:m.start()] + str(int(m.group(1)) + 1) + c[m.end():])
                else:
                    sub(a, b)
            s = c.strip()
            if s.endswith(';') and not s.startswith(('return', 'break', 'continue', 'case', 'using', 'struct', 'typedef', '}')) \
               and re.match(r'^[\w:>.\-\[\]()*+ ]*(\(|=|\+\+|--)', s) and not re.match(r'^(const |auto |int32_t |bool |float |std::|uint|char |value_t \*\w+ =|static |virtual |void )', s):
                new.add('  ;')
            if re.match(r'^\s*case TOK_\w+:|^\s*case INS_\w+:', c):
                pass
            new.discard(c)
            for x in sorted(new):
                out.append(dict(file=f, line=i, old=l, new=x))
    random.Random(7).shuffle(out)
    json.dump(out, open(M + '/mutants.json', 'w'))
    print(len(out))

def ns(w, cmd, timeout, extra=''):
    return subprocess.run(['timeout', '-k', '2', str(timeout), 'unshare', '-Urm', '--pid', '--fork', '--kill-child', 'bash', '-c', 'mount --bind %s/w%d /repo && %s%s' % (M, w, extra, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')

def setup(w):
    d = '%s/w%d' % (M, w)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])

class Applied:
    def __init__(self, w, m):
        self.p = '%s/w%d/%s' % (M, w, m['file']); self.m = m
    def __enter__(self):
        self.orig = open(self.p).read()
        L = self.orig.split('\n')
        assert L[self.m['line']] == self.m['old'], self.m
        L[self.m['line']] = self.m['new']
        open(self.p, 'w').write('\n'.join(L))
    def __exit__(self, *a):
        open(self.p, 'w').write(self.orig)

def pool(items, fn):
    q = queue.Queue()
    for x in items: q.put(x)
    def run(w):
        setup(w)
        while True:
            try: x = q.get_nowait()
            except queue.Empty: return
            try: fn(w, x)
            except Exception as e: print('ERR', x, e, flush=True)
    ts = [threading.Thread(target=run, args=(w,)) for w in range(N)]
    [t.start() for t in ts]; [t.join() for t in ts]

def tests(limit):
    base = json.load(open('/opt/vp/BASELINE.json'))
    st = base.get('stable') or base.get('passed')
    st = set(st)
    items = json.load(open(M + '/mutants.json'))[:limit]
    alive = []; lock = threading.Lock(); n = [0, 0]
    def one(w, m):
        with Applied(w, m):
            r = ns(w, 'ulimit -v 6000000; cd /repo && ninja -C _build nano_driver nano_comp nano_driver_sdl >/dev/null 2>&1 && rm -rf _build/testrun && mkdir -p _build/testrun && python3 -B /opt/vp/run_tests.py /repo/_build/testrun/results.txt >/dev/null 2>&1; rc=$?; exit $rc', 90)
            ok = False
            if r.returncode == 0:
                got = set(l.split(None, 1)[1].strip() for l in open('%s/w%d/_build/testrun/results.txt' % (M, w)) if l.startswith('PASS'))
                ok = not (st - got)
            with lock:
                n[0] += 1; n[1] += ok
                if ok: alive.append(m)
                if n[0] % 100 == 0: print(n, flush=True); json.dump(alive, open(M + '/alive.json', 'w'))
    pool(items, one)
    json.dump(alive, open(M + '/alive.json', 'w')); print(n)

FL = '-std=c++17 -include cstring -D__error_t_defined=1 -I/repo/source/lib_common -I/repo/source -fwrapv -fno-delete-null-pointer-checks -fno-strict-aliasing -O1 -g1 -w'
AS = FL + ' -fsanitize=address -fno-omit-frame-pointer -DPBT_ASAN'
def objs(kind, libs):
    return ' '.join('%%s/%s/%s.o' % (kind, os.path.basename(f)[:-4]) for f in libs)
LIBS = [f for f in FILES if f.startswith('source/lib_') and f.endswith('.cpp')]
MINE = ['engine', 'lang', 'ref', 'api']

def compile_cmd(kind, src, obj, more=''):
    return 'g++ %s %s -c %s -o %s' % (AS if kind == 'asan' else FL, more, src, obj)

def base_build(d):
    cmds = []
    for kind in ('plain', 'asan'):
        os.makedirs('%s/%s' % (d, kind), exist_ok=True)
        for f in LIBS: cmds.append(compile_cmd(kind, '/repo/' + f, '%s/%s/%s.o' % (d, kind, os.path.basename(f)[:-4])))
        for m in MINE: cmds.append(compile_cmd(kind, '' + V + '/%s.cpp' % m, '%s/%s/m_%s.o' % (d, kind, m)))
        for c in ALL:
            if (c in ASAN) == (kind == 'asan'):
                cmds.append(compile_cmd(kind, '' + V + '/%s.cpp' % c.lower(), '%s/%s/m_%s.o' % (d, kind, c)))
    cmds.append(compile_cmd('plain', '/repo/source/driver/driver.cpp', d + '/plain/driver.o'))
    cmds.append(compile_cmd('plain', '/repo/source/comp/driver.cpp', d + '/plain/comp.o'))
    cmds.append(compile_cmd('asan', '/repo/source/driver_sdl/driver.cpp', d + '/asan/sdl.o', '-I' + V + '/sdlstub -Dmain=sdl_driver_main'))
    return cmds

def link(d, c):
    k = 'asan' if c in ASAN else 'plain'
    o = ' '.join('%s/%s/%s.o' % (d, k, os.path.basename(f)[:-4]) for f in LIBS)
    m = ' '.join('%s/%s/m_%s.o' % (d, k, x) for x in MINE + [c])
    r = 'g++ %s -o %s/check %s %s %s -pthread' % ('-fsanitize=address' if k == 'asan' else '', d, m, o, d + '/asan/sdl.o' if c == 'C17' else '')
    if c == 'C16':
        r += ' && g++ -o %s/nano_driver %s/plain/driver.o %s && g++ -o %s/nano_comp %s/plain/comp.o %s' % (d, d, o, d, d, o)
    return r

def checks(div, which, src):
    quick = {}
    for c in ALL:
        quick[c] = int(re.search(r'quick_cases = (\d+)', open('/verif/src/%s.cpp' % c.lower()).read()).group(1))
    items = json.load(open(src))
    done = set()
    if os.path.exists(M + '/res.jsonl'):
        for l in open(M + '/res.jsonl'):
            d = json.loads(l); done.add((d['file'], d['line'], d['new']))
    items = [m for m in items if (m['file'], m['line'], m['new']) not in done]
    base = M + '/base'
    shutil.rmtree(V, ignore_errors=True); shutil.copytree('/verif/src', V)
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    with ThreadPoolExecutor(N) as ex:
        for r in ex.map(lambda c: subprocess.run(c, shell=True).returncode, base_build(base)): assert r == 0
    lock = threading.Lock()
    n = [0, 0]
    def one(w, m):
        d = '%s/o%d' % (M, w)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(['cp', '-a', base, d])
        res = None
        with Applied(w, m):
            f = m['file']
            if f.endswith('.h'):
                cmds = base_build(d)
            else:
                b = os.path.basename(f)[:-4]
                if 'driver_sdl' in f: cmds = [base_build(d)[-1]]
                elif f.startswith('source/driver'): cmds = [base_build(d)[-3]]
                elif f.startswith('source/comp'): cmds = [base_build(d)[-2]]
                else: cmds = [compile_cmd(k, '/repo/' + f, '%s/%s/%s.o' % (d, k, b)) for k in ('plain', 'asan')]
            r = ns(w, ' && '.join(cmds), 900)
            if r.returncode: res = 'build'
            order = which
            if 'driver_sdl' in f: order = ['C17']
            elif f.startswith('source/driver') or f.startswith('source/comp'): order = ['C16']
            for c in order:
                if res: break
                r = ns(w, link(d, c) + ' && export VERIF_WORKERS=1 ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0 VP_CHECK_DIR=%s && %s/check --evidence %s/ev.json --replay-dir %s/replay --cases %d' % (d, d, d, d, max(200, quick[c] // div)), 600)
                if 'VIOLATION' in r.stdout:
                    res = c + ': ' + (re.search(r'failure: (.*)', r.stdout) or [None, '?'])[1][:200]
                elif r.returncode not in (0, 1):
                    res = c + ': rc %d %s' % (r.returncode, r.stdout[-200:])
        shutil.rmtree(d, ignore_errors=True)
        with lock:
            n[0] += 1; n[1] += bool(res)
            m2 = dict(m); m2['res'] = res
            open(M + '/res.jsonl', 'a').write(json.dumps(m2) + '\n')
            if n[0] % 10 == 0: print(n, 'of', len(items), flush=True)
    pool(items, one)
    print(n)

if sys.argv[1] == 'gen': gen()
elif sys.argv[1] == 'tests': tests(int(sys.argv[2]) if len(sys.argv) > 2 else 10**9)
elif sys.argv[1] == 'checks':
    checks(int(sys.argv[2]) if len(sys.argv) > 2 else 20, sys.argv[4].split(',') if len(sys.argv) > 4 else ALL,
           sys.argv[3] if len(sys.argv) > 3 else M + '/alive.json')
