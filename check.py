#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property of /repo's current source by static analysis (nothing of the library is run).
exit 0: every obligation of the property is discharged (listed known findings are printed)
exit 1: a line VIOLATION property=<id> replay=<file> for obligations that are not
exit 2: the analysis itself has no answer (an anchor vanished, the sources do not parse)
"""
import argparse, importlib, json, os, sys, time, traceback, glob, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.dont_write_bytecode = True
from prog import Anchor


class Context:
    def __init__(self, prop, tier, repo, work):
        self.prop, self.tier, self.repo, self.work = prop, tier, repo, work
        self.obligations = []          # (key, ok, where, what)
        self.info = {}
        self.notes = []
        self._prog = None
        self._seen = set()

    def ob(self, key, ok, where, what):
        o = (key, bool(ok), where, what)
        if o not in self._seen:
            self._seen.add(o)
            self.obligations.append(o)
        return bool(ok)

    def need(self, cond, what):
        """an anchor of the rules: without it there is no verdict"""
        if not cond:
            raise Anchor(what)

    def program(self, extra=()):
        if self._prog is None:
            import dump
            self._prog, info = dump.load(self.repo, self.work, extra)
            self.info.update(info)
        return self._prog

    def witness(self, path):
        import witness
        rep, pipes = witness.decide(path, self.work, self.repo)
        if not rep:
            raise Anchor('no obligations in ' + path)
        self.info.setdefault('pipelines', pipes)
        self.info.setdefault('witness_files', []).append(os.path.relpath(path, HERE))
        for r in rep:
            w = '%s (%s:%d)' % (r['target'], os.path.basename(path), r['line'])
            self.ob(r['name'], bool(r['by']), w,
                    'violated_%s() cannot be reached in %s' % (r['name'], ','.join(r['by'])) if r['by'] else
                    'no pipeline proves violated_%s() unreachable' % r['name'])


def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split(None, 2)[:2])
                out[(d['property'], d['key'])] = line[6:].split(None, 2)[2]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='eslcheck.')
    ctx = Context(a.prop, a.tier, os.path.abspath(a.repo), work)
    err = None
    try:
        mods = 0
        for w in sorted(glob.glob(os.path.join(HERE, 'witness', a.prop + '*.cpp'))):
            ctx.witness(w)
            mods += 1
        if os.path.exists(os.path.join(HERE, 'rules', a.prop + '.py')):
            m = importlib.import_module(a.prop)
            m.check(ctx)
            mods += 1
        if not mods:
            raise Anchor('no rules for property ' + a.prop)
        if not ctx.obligations:
            raise Anchor('the rules of %s matched nothing' % a.prop)
    except Exception as e:
        err = e
        if a.v or not isinstance(e, Anchor):
            traceback.print_exc()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kn = known()
    bad, listed = [], []
    for key, ok, where, what in ctx.obligations:
        if a.v:
            print('%-4s %-34s %s: %s' % ('ok' if ok else 'FAIL', key, where, what))
        if ok:
            continue
        if (a.prop, key) in kn:
            listed.append((key, kn[(a.prop, key)]))
        else:
            bad.append((key, where, what))
    for key, text in dict(listed).items():
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, key, text))
    n = len(ctx.obligations)
    done = sum(1 for o in ctx.obligations if o[1])
    print('%s: %d obligations, %d discharged, %d known findings, %d violations%s' % (a.prop, n, done, len(dict(listed)), len(bad), ', NO ANSWER: %s' % err if err else ''))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': getattr(sys.modules.get(a.prop), 'EXPLAIN', None) or 'obligations compiled from the current sources; discharged when a compiler pipeline proves the violation call dead for every input',
                       'obligations': n, 'discharged': done,
                       'sites': sorted({o[2] for o in ctx.obligations})[:400],
                       'samples': ['%s: %s: %s' % (o[0], o[2], o[3]) for o in ctx.obligations[:25]],
                       'analysed': ctx.info, 'notes': ctx.notes},
          'assumptions': getattr(sys.modules.get(a.prop), 'ASSUME', ['the compiler front ends and optimisation passes are correct']),
          'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    if err:
        ev['coverage']['error'] = str(err)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if bad:
        out = os.path.join(HERE, 'out')
        os.makedirs(out, exist_ok=True)
        rp = os.path.join(out, a.prop + '.txt')
        with open(rp, 'w') as f:
            for key, where, what in bad:
                f.write('%s\n  at   %s\n  what %s\n' % (key, where, what))
        for key, where, what in bad[:20]:
            print('  %s at %s: %s' % (key, where, what))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        sys.exit(1)
    sys.exit(2 if err else 0)


if __name__ == '__main__':
    main()
