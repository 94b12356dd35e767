#!/usr/bin/env python3
"""Mutation study: disables one guard at a time in a scratch copy of the repository and tells which properties notice.
usage: mut.py OUT.jsonl PROPS(comma) RUNS FILE... [--sites=a,b] ; development aid, not part of any check."""
import sys, re, os, json, subprocess, shutil, time
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opts = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--'))
out, props, runs, files = args[0], args[1].split(','), int(args[2]), args[3:]
W = opts.get('work', '/tmp/mutw')
R = W + '/repo'
SRC = opts.get('src', '/repo') + '/'
os.makedirs(W, exist_ok=True)
subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', '_build*', SRC, R + '/'], check=True) if shutil.which('rsync') else subprocess.run(f'rm -rf {R} && mkdir -p {R} && cd {SRC} && git archive HEAD | tar x -C {R}', shell=True, check=True)
env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=W + '/build', SIM_TMP=W, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=1')
NP = int(opts.get('j', '8'))
def build(sim=opts.get('sim', 'net')):
    r = subprocess.run(['python3', '/verif/sim/build.py', sim], env=env, capture_output=True, text=True)
    return r.stdout.strip().split('\n')[-1] if r.returncode == 0 else None
def run(exe, prop, n):
    per = (n + NP - 1) // NP; ps = []
    for i in range(NP):
        o = f'{W}/o.{prop}.{i}'
        ps.append((subprocess.Popen([exe, '--prop', prop, '--count', str(per), '--base', str(1 + i * per), '--max-seconds', '90', '--out', o], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), o))
    kinds = {}; stop = False
    while any(p.poll() is None for p, _ in ps):
        time.sleep(0.3)
        for p, o in ps:
            if p.poll() is not None:
                for l in open(o):
                    if '"status": "violation"' in l or '"kind"' in l: stop = True
        if stop:
            for p, _ in ps: p.terminate()
    for p, o in ps:
        p.wait()
        try:
            for l in open(o):
                r = json.loads(l)
                if 'summary' not in r and 'nondeterministic' not in r and r['status'] != 'ok': kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
        except Exception: pass
    return kinds
GUARD = re.compile(r'^(\s*(?:else )?)if \((.*)\)( (?:RETURN_VERIFY_ERROR|THROW_ERROR|THROW_ERROR_WITH|return false|return 0|return C4_ERROR|return NULL_BYTES|return NULL|return -1|break|continue|return 2|RETRY_REQUEST)\b.*)$')
GUARD2 = re.compile(r'^(\s*(?:else )?)if \((.*)\)( \{)?$')
NEXT = re.compile(r'^\s*(RETURN_VERIFY_ERROR|THROW_ERROR|THROW_ERROR_WITH|return false|return 0|return C4_ERROR|return NULL|RETRY_REQUEST)\b')
muts = []
if 'list' in opts: # explicit mutations: json list of [file, old, new]
    for f, a, b in json.load(open(opts['list'])):
        muts.append((f, 0, a, b))
for f in files:
    L = open(SRC + f).read().split('\n')
    for i, l in enumerate(L):
        m = GUARD.match(l)
        if not m:
            m2 = GUARD2.match(l)
            if m2 and i + 1 < len(L) and NEXT.match(L[i + 1]): m = m2
        if m and m.group(2).count('(') == m.group(2).count(')'):
            muts.append((f, i, l, f'{m.group(1)}if (({m.group(2)}) && 0){m.group(3) or ""}'))
print(len(muts), 'mutants', flush=True)
fo = open(out, 'a')
for f, i, a, b in muts:
    src = open(SRC + f).read()
    if i: L = src.split('\n'); L[i] = b; new = '\n'.join(L)
    else:
        if src.count(a) < 1: print('not found', f, a); continue
        new = src.replace(a, b, 1)
    open(R + '/' + f, 'w').write(new)
    exe = build(); res = {}
    def test(exe):
        for p in props:
            k = run(exe, p, runs)
            if k: res[p] = k; break
    if exe: test(exe)
    if exe and not res and '(' in a.split('if (', 1)[-1].split(') return')[0].split(') RETURN')[0] and ') && 0)' in b: # second form: the condition is not even evaluated
        c = b.replace('if ((', 'if (0 && (', 1).replace(') && 0)', '))', 1)
        L = src.split('\n'); L[i] = c; open(R + '/' + f, 'w').write('\n'.join(L))
        e2 = build()
        if e2: test(e2)
    rec = {'file': f, 'line': i + 1, 'code': a.strip()[:220], 'built': bool(exe), 'caught': res}
    fo.write(json.dumps(rec) + '\n'); fo.flush()
    print(('CAUGHT ' if res else 'ALIVE  ') if exe else 'NOBUILD', f.split('/')[-1], i + 1, a.strip()[:150], list(res.items())[:1], flush=True)
    open(R + '/' + f, 'w').write(src)
