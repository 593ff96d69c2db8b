"""Program representation: the exporter's JSON with lookup tables."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.records = d['records']
        self.functions = d['functions']
        self.vars = d['vars']
        self.harnesses = {}
        self.contracts = {}
        for f in self.functions:
            if f.get('ctor') and f.get('rec') is not None and not f['sys'] and 'body' in f and not f.get('defaulted'):
                self.records[f['rec']]['sys'] = False  # a library class whose members are followed
            for a in f.get('ann', []):
                if a.startswith('verif_harness:'):
                    _, name, opts = a.split(':', 2)
                    self.harnesses[name] = (f['id'], opts)
                elif a.startswith('verif_contract:'):
                    # target may contain '::'
                    body = a[len('verif_contract:'):]
                    target, where = body.rsplit(':', 1)
                    self.contracts.setdefault(target, []).append((f['id'], where))
        self._bases = {}

    def ty(self, t):
        return self.types[t]

    def strip_ref(self, t):
        ty = self.types[t]
        while ty['k'] == 'ref':
            t = ty['to']
            ty = self.types[t]
        return t

    def rec_of(self, t):
        ty = self.types[self.strip_ref(t)]
        return ty.get('rec') if ty['k'] == 'rec' else None

    def rec_name(self, t):
        r = self.rec_of(t)
        return self.records[r]['name'] if r is not None else None

    def targ(self, rec, i):
        ta = self.records[rec].get('targs') or []
        if i < len(ta) and ta[i] is not None:
            return ta[i].get('t') if 't' in ta[i] else int(ta[i]['i'])
        return None

    def all_bases(self, rec):
        """rec and its transitive bases, nearest first"""
        if rec in self._bases:
            return self._bases[rec]
        out = [rec]
        for b in self.records[rec].get('bases', []):
            for x in self.all_bases(b['rec']):
                if x not in out:
                    out.append(x)
        self._bases[rec] = out
        return out

    def base_path(self, rec, base):
        """list of base record ids leading from rec to base"""
        if rec == base:
            return []
        for b in self.records[rec].get('bases', []):
            p = self.base_path(b['rec'], base)
            if p is not None:
                return [b['rec']] + p
        return None
