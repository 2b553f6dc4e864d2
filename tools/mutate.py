#!/usr/bin/env python3
"""Mutation campaign: how much of a realistic change do the checks notice?

mutate.py OUT.jsonl FILE[:N] ...   N mutants per file (default 60), on scratch copies under /tmp/mut.
Each line of OUT: file, line, old, new, orig (line of the original repository), result, by.
result: nobuild, killed (with the property in "by"), survived.
Not used by any registered check."""
import json, os, random, re, shutil, subprocess, sys, threading, queue

PROPS = {
    'predicates/predicates.rs': 'E01 E02 E03 T05 T01',
    'predicates/orient2d.rs': 'E06', 'predicates/orient3d.rs': 'E05', 'predicates/less_than.rs': 'E07',
    'predicates/generic_point.rs': 'E09 E05 E06 E07', 'predicates/interval_number.rs': 'E04 E05',
    'predicates/expansion_number.rs': 'E03 E05', 'predicates/mod.rs': 'E08 E05 E06 E09',
    'triangle/triangle.rs': 'T02 T01 T04 T03', 'triangle/tetrahedron.rs': 'T05 T06',
    'graphcut/mod.rs': 'G01 G02', 'graphcut/push_relabel_fifo.rs': 'G02', 'disjoint_set/mod.rs': 'D01',
    'math/mod.rs': 'N01', 'mesh/': 'M01 M02 M03', 'polygonlization/mod.rs': 'R01 P03 P04 P01 P02 P06 P05 P08 P07',
    'polygonlization/': 'P03 P02 P04 P05 P08 P01 P06 P07', 'lib.rs': 'T01 T02 T03 N01 P03',
}
CASES = dict(E01=150000, E02=60000, E03=60000, E04=150000, E05=60000, E06=60000, E07=60000, E08=100000, E09=40000,
             T01=12000, T02=12000, T03=12000, T04=12000, T05=12000, T06=8000, G01=100000, G02=60000, D01=100000,
             M01=30000, M02=30000, M03=20000, N01=100000, R01=40000,
             P01=12000, P02=3000, P03=8000, P04=8000, P05=6000, P06=4000, P07=8000, P08=5000)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2025-05-01', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', RUSTC_WRAPPER='', HOME='/root',
           PATH='/root/.cargo/bin:' + os.environ['PATH'], VH_JOBS='1')
W = '/tmp/mut'

def props(f):
    for k, v in PROPS.items():
        if f.startswith('src/' + k): return v.split()
    return []

def code(lines):
    """indices of mutable lines"""
    out, intest = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#[test]') or s.startswith('#[cfg(test)]'): intest = True
        if intest: continue
        if not s or s.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'impl', 'fn ', 'pub fn', 'const fn', 'pub const fn', 'where', '*', '/*', 'struct', 'pub struct', 'trait', 'pub trait', 'type ')): continue
        if 'debug_assert' in s or 'println' in s or 'assert' in s: continue
        out.append(i)
    return out

def mutants(line):
    s = line.split('//')[0]
    res = set()
    def sub(m, r):
        res.add(line[:m.start()] + r + line[m.end():])
    for pat, reps in ((r'(?<=\s)<(?=\s)', ['<=', '>']), (r'(?<=\s)>(?=\s)', ['>=', '<']), (r'(?<=\s)<=(?=\s)', ['<', '>=']), (r'(?<=\s)>=(?=\s)', ['>', '<=']),
                      (r'==', ['!=']), (r'!=(?=\s)', ['==']), (r'&&', ['||']), (r'\|\|(?=\s)', ['&&']),
                      (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['+']), (r'(?<=\s)/(?=\s)', ['*']),
                      (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
                      (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]', '[2]']), (r'\[2\]', ['[1]', '[0]']),
                      (r'(?<=[\s(,])0(?=[\s),;])', ['1']), (r'(?<=[\s(,])1(?=[\s),;])', ['0', '2']), (r'(?<=[\s(,])2(?=[\s),;])', ['1', '3']),
                      (r'(?<=[\s(,])-(?=[a-z])', ['']), (r'!(?=[a-z(])', ['']), (r' \+ 1\b', ['']), (r' - 1\b', ['']),
                      (r'\.prev\(', ['.next(']), (r'\.next\(', ['.prev(']), (r'\bfirst\b', ['last']), (r'\bbreak;', ['']), (r'\bcontinue;', ['']),
                      (r'\bu\b', ['v']), (r'\bva\b', ['vb']), (r'\bvb\b', ['va']), (r'\bpa\b', ['pb']), (r'\bpb\b', ['pc']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']),
                      (r'\bNegative\b', ['Positive']), (r'\bPositive\b', ['Negative']), (r'\b0\.0\b', ['1.0']),
                      (r'_min\b', ['_max']), (r'\bis_some\(', ['is_none(']), (r'\bx\b', ['y']), (r'\by\b', ['x']),):
        for m in re.finditer(pat, s):
            for r in reps: sub(m, r)
    # swap adjacent simple arguments
    for m in re.finditer(r'([(,]\s*)(&?[a-z_][\w.\[\]]*)(,\s*)(&?[a-z_][\w.\[\]]*)(?=\s*[,)])', s):
        if m.group(2) != m.group(4):
            res.add(line[:m.start()] + m.group(1) + m.group(4) + m.group(3) + m.group(2) + line[m.end():])
    t = s.strip()
    if t.endswith(';') and not t.startswith(('let ', 'return', 'const', 'break', 'continue', '}', ')', '.')) and t.count('(') == t.count(')') and t.count('{') == t.count('}'):
        res.add('')
    m = re.match(r'\s*(?:\} else )?if (?!let)(.*) \{$', s)
    if m: res.add(s.replace('if ' + m.group(1), 'if !(' + m.group(1) + ')', 1))
    res.discard(line)
    return sorted(res)

def setup(w):
    d = f'{W}/{w}'
    if not os.path.isdir(d):
        os.makedirs(d + '/root')
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'fetch', '-q'], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'reset', '-q', '--hard', 'origin/HEAD'], check=True)
    shutil.rmtree(d + '/harness', ignore_errors=True)
    shutil.copytree('/verif/harness', d + '/harness', ignore=shutil.ignore_patterns('target'))
    p = d + '/harness/Cargo.toml'
    s = open(p).read().replace('path = "/repo"', f'path = "{d}/repo"')
    open(p, 'w').write(s)
    p = d + '/harness/build.rs'
    s = open(p).read().replace('/repo', d + '/repo')
    open(p, 'w').write(s)
    shutil.copy('/verif/known-findings.txt', d + '/root/')

def build(w):
    d = f'{W}/{w}'
    return subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d + '/harness', env=dict(ENV, CARGO_TARGET_DIR=d + '/target', CARGO_BUILD_JOBS='2'),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def run(w, p, cases, seed=1):
    d = f'{W}/{w}'
    try:
        r = subprocess.run([d + '/target/debug/vh', p, 'quick', '--cases', str(cases), '--seed', str(seed)], cwd=d + '/root', env=dict(ENV, VH_ROOT=d + '/root'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=400)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 9, 'timeout'

def main():
    out = sys.argv[1]
    rnd = random.Random(int(os.environ.get('MSEED', '1')))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            j = json.loads(l); done.add((j['file'], j['line'], j['new']))
    jobs = []
    for a in sys.argv[2:]:
        f, _, n = a.partition(':')
        n = int(n or 60)
        src = open('/repo/' + f).read().split('\n')
        blame = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], stdout=subprocess.PIPE, text=True).stdout.split('\n')
        base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], stdout=subprocess.PIPE, text=True).stdout[:7]
        c = []
        for i in code(src):
            ms = mutants(src[i])
            rnd.shuffle(ms)
            for m in ms[:3]:
                c.append(dict(file=f, line=i + 1, old=src[i], new=m, orig=base in blame[i][:12]))
        rnd.shuffle(c)
        jobs += [j for j in c[:n] if (f, j['line'], j['new']) not in done]
    rnd.shuffle(jobs)
    q = queue.Queue()
    for j in jobs: q.put(j)
    lock = threading.Lock()
    print(len(jobs), 'mutants', flush=True)
    def work(w):
        setup(w)
        while True:
            try: j = q.get_nowait()
            except queue.Empty: return
            p = f'{W}/{w}/repo/' + j['file']
            src = open(p).read()
            ls = src.split('\n')
            assert ls[j['line'] - 1] == j['old']
            ls[j['line'] - 1] = j['new']
            open(p, 'w').write('\n'.join(ls))
            b = build(w)
            if b.returncode: j['result'] = 'nobuild'
            else:
                j['result'] = 'survived'
                for pr in props(j['file']):
                    rc, o = run(w, pr, CASES[pr])
                    if rc:
                        j['result'] = 'killed' if rc == 1 else 'rc%d' % rc
                        j['by'] = pr
                        j['how'] = next((l for l in o.split('\n') if 'VIOLATION' in l), o[-200:])[:200]
                        break
            open(p, 'w').write(src)
            with lock:
                with open(out, 'a') as fo: fo.write(json.dumps(j) + '\n')
    ts = [threading.Thread(target=work, args=('w%d' % i,)) for i in range(int(os.environ.get('MJOBS', '7')))]
    for t in ts: t.start()
    for t in ts: t.join()
main()
