"""Engine A: obligations decided by the compilers' own data-flow analyses.

Each obligation of witness/<id>.cpp is compiled, never run.  It is discharged if in at least one of the
optimisation pipelines the call of violated_<name>() has been proved dead while reached_<name>() (or, for
operations that must be rejected, the throw or the assertion) is still alive."""
import os, re, subprocess, concurrent.futures as cf

COMMON = ['-std=c++17', '-include', 'cstdint', '-isystem', '/repo', '-I/repo', '-DWITH_PYTHON', '-DESL_RELEASE=1', '-isystem', '/usr/include/python3.12', '-w']
INL = ['-mllvm', '-inline-threshold=20000', '-mllvm', '-inlinecold-threshold=20000', '-mllvm', '-inlinehint-threshold=20000']
PIPES = {
    'clang-O2': ['clang++', '-O2', '-S', '-emit-llvm'] + INL,
    'clang-O3-wrapv': ['clang++', '-O3', '-fwrapv', '-ffp-contract=off', '-S', '-emit-llvm', '-mllvm', '-unroll-threshold=4000', '-mllvm', '-unroll-max-upperbound=16'] + INL,
    'g++-O2': ['g++', '-O2', '-S', '-finline-limit=100000', '--param', 'large-function-growth=10000', '--param', 'max-inline-insns-single=10000', '--param', 'inline-unit-growth=10000'],
    'g++-O3': ['g++', '-O3', '-S', '-finline-limit=100000', '--param', 'large-function-growth=10000', '--param', 'max-inline-insns-single=10000', '--param', 'inline-unit-growth=10000', '--param', 'max-completely-peeled-insns=2000'],
}
# only for the files that name them: tables of hundreds of constants
MORE = {
    'clang-O2-unroll': ['clang++', '-O2', '-S', '-emit-llvm'] + INL + sum([['-mllvm', x] for x in ('-unroll-threshold=100000', '-unroll-max-iteration-count-to-analyze=400', '-unroll-full-max-count=400', '-unroll-max-upperbound=400')], []),
}
# how often the optimiser runs again over its own result
AGAIN = {'clang-O3-wrapv': 2}


def functions(text, kind):
    """the body of each obligation function in the compiler's output"""
    out = {}
    if kind == 'll':
        for m in re.finditer(r'^define [^\n]*@obligation_(\w+)\([^\n]*\{\n(.*?)^\}', text, re.M | re.S):
            out[m.group(1)] = m.group(2)
    else:
        cur = None
        for line in text.split('\n'):
            m = re.match(r'^obligation_(\w+?)(\.cold|\.part\.\d+|\.constprop\.\d+)*:', line)
            if m:
                cur = m.group(1)
                out.setdefault(cur, '')
                continue
            if re.match(r'^\s*\.size\s+(obligation_\w+)', line):
                cur = None if '.cold' in line else cur
            if cur:
                out[cur] += line + '\n'
    return out


class CompileError(Exception):
    pass


def run(path, workdir, repo='/repo', pipes=None, extra=()):
    path = os.path.abspath(path)
    names = list(pipes or PIPES)
    res = {}
    def one(p):
        out = os.path.join(workdir, os.path.basename(path) + '.' + p + '.s')
        flags = PIPES.get(p) or MORE[p]
        cmd = flags[:1] + COMMON + flags[1:] + list(extra) + ['-I' + os.path.dirname(path), path, '-o', out]
        cmd = [c.replace('/repo', repo) for c in cmd]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return p, None, r.stderr
        if p in AGAIN:
            for k in range(AGAIN[p]):
                r = subprocess.run(['/usr/lib/llvm-18/bin/opt', '-S', '-passes=default<O3>', out, '-o', out + '.opt'], capture_output=True, text=True)
                if r.returncode:
                    return p, None, r.stderr
                os.replace(out + '.opt', out)
        return p, open(out).read(), ''
    with cf.ThreadPoolExecutor(4) as ex:
        for p, text, err in ex.map(one, names):
            if text is None:
                raise CompileError('%s: %s' % (p, err[:3000]))
            res[p] = (text, functions(text, 'll' if p.startswith('clang') else 's'))
    report = []
    obs = {}
    for p in names:
        if p.startswith('clang'):
            for m in re.finditer(r'^@target_(\w+) = [^\n]*c"(\w) (\d+) ([^\n]*)\\00"', res[p][0], re.M):
                obs[m.group(1)] = (m.group(2), int(m.group(3)), m.group(4))
            break
    for name, (kind, line, tgt) in sorted(obs.items(), key=lambda x: x[1][1]):
        by = []
        seen = False
        for p in names:
            text, fns = res[p]
            body = fns.get(name)
            if body is None:
                continue
            seen = True
            dead = not re.search(r'violated_%s\b' % name, text)
            alive = bool(re.search(r'reached_%s\b' % name, text))
            if kind == 'R' and not alive:
                alive = '__assert_fail' in body or '__cxa_throw' in body
            if dead and alive:
                by.append(p)
        report.append({'kind': kind, 'name': name, 'target': tgt, 'line': line, 'by': by, 'seen': seen})
    return report


def decide(path, workdir, repo='/repo'):
    """All obligations of a file.  A file that says '// pipelines: a b' has very many small obligations and goes through
    these pipelines, one after the other, until none is left open."""
    with open(path) as f:
        m = re.match(r'// pipelines: (.*)', f.readline())
    if not m:
        return run(path, workdir, repo), list(PIPES)
    lines = open(path).read().split('\n')
    obs = [k for k, l in enumerate(lines) if l.startswith('OBLIGATION(')]
    used, rep, left = [], {}, obs
    for p in m.group(1).split():
        used.append(p)
        parts = [left[i::PARTS] for i in range(PARTS) if left[i::PARTS]]
        def one(n):
            # the other obligations become empty lines, so that the line numbers stay
            keep = set(parts[n])
            f = os.path.join(workdir, 'part%d_%s' % (n, os.path.basename(path)))
            with open(f, 'w') as h:
                h.write('\n'.join('' if l.startswith('OBLIGATION(') and k not in keep else l for k, l in enumerate(lines)))
            return run(f, workdir, repo, pipes=[p], extra=['-I' + os.path.dirname(os.path.abspath(path))])
        with cf.ThreadPoolExecutor(PARTS) as ex:
            for rs in ex.map(one, range(len(parts))):
                for r in rs:
                    rep[r['line']] = r
        left = [k for k in obs if not (k + 1 in rep and rep[k + 1]['by'])]
        if not left:
            break
    return [rep[k] for k in sorted(rep)], used


PARTS = 8


if __name__ == '__main__':
    import sys, tempfile
    for f in sys.argv[1:]:
        with tempfile.TemporaryDirectory() as d:
            rep = run(f, d)
        for r in rep:
            print('%-3s %-24s %-50s %s' % ('ok' if r['by'] else 'NO', r['name'], r['target'], ','.join(r['by'])))
        print(len(rep), 'obligations', sum(1 for r in rep if r['by']), 'discharged')
