"""Loads the dump printed by esldump."""
import json


class Program:
    def __init__(self, path):
        self.functions = []
        self.by_fid = {}
        self.by_qn = {}
        self.records = []
        self.vars = []
        with open(path) as f:
            for line in f:
                if not line.strip():
                    continue
                o = json.loads(line)
                k = o['k']
                if k == 'function':
                    self.functions.append(o)
                    self.by_fid.setdefault(o['fid'], o)
                    self.by_qn.setdefault(o['qn'], []).append(o)
                elif k == 'record':
                    self.records.append(o)
                elif k == 'var':
                    self.vars.append(o)

    def fn(self, fid):
        return self.by_fid.get(fid)

    def find(self, qn, dep=False, pred=None):
        return [f for f in self.by_qn.get(qn, []) if (dep is None or f['dep'] == dep) and (pred is None or pred(f))]

    def one(self, qn, pred=None, dep=False):
        r = self.find(qn, dep, pred)
        if not r:
            raise Anchor('function %s not found' % qn)
        return r[0]

    def record(self, qn, inst=None):
        r = [x for x in self.records if x['qn'] == qn and (inst is None or x['inst'] == inst)]
        if not r:
            raise Anchor('class %s not found' % qn)
        return r[0]


class Anchor(Exception):
    """something the rules are anchored to is gone: the analysis has no answer"""


def walk(x):
    """all nodes of a tree"""
    if isinstance(x, dict):
        if 'k' in x:
            yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)
