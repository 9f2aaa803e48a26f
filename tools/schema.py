"""Write checks/schema.json: the fields of every structure of the library, as the standards define them
(names, identifier octets, optional or default), the oracle of C13.  Run once; reviewed against the RFCs; not run by any check."""
import importlib
import json
import os
import sys
sys.path.insert(0, '/repo')
from asn1crypto import core
MODS = ('algos', 'cms', 'crl', 'csr', 'keys', 'ocsp', 'pdf', 'pkcs12', 'tsp', 'x509')


def octets(spec, params, depth=0):
    """([wrapping first octets], [first octets of the element], kind)"""
    params = dict(params)
    wraps = []
    e = params.pop('explicit', None)
    i = params.pop('implicit', None)
    inst = None
    if e is not None:
        es = [e] if not isinstance(e, (list, tuple)) or isinstance(e[0], str) else list(e)
        for x in reversed(es):
            cls, tag = (2, x) if isinstance(x, int) else ({'application': 1, 'context': 2, 'private': 3}.get(x[0], x[0]), x[1])
            wraps.append(cls * 64 + 32 + tag)
        wraps = wraps[::-1]
    if spec is None or issubclass(spec, core.Any):
        return wraps, 'any'
    if issubclass(spec, core.Choice):
        alts = []
        for a in spec._alternatives:
            w, f = octets(a[1], a[2] if len(a) > 2 else {}, depth + 1)
            if f == 'any':
                return wraps, 'any'
            if w:
                alts.append([w, f])
            else:
                alts.extend([[[], [x]] for x in f] if isinstance(f[0], int) else f)
        if e is None and spec.explicit:
            e = spec.explicit if isinstance(spec.explicit[0], tuple) else (spec.explicit,)
            wraps = [c * 64 + 32 + t for c, t in e]
        if i is not None:
            return wraps, 'odd'
        return wraps, alts
    inst = spec()
    if inst.explicit:
        wraps = wraps + [c * 64 + 32 + t for c, t in inst.explicit]
    cls, tag = inst.class_, inst.tag
    if i is not None:
        cls, tag = (2, i) if isinstance(i, int) else ({'application': 1, 'context': 2, 'private': 3}.get(i[0], i[0]), i[1])
    if tag >= 31:
        return wraps, 'odd'
    return wraps, [cls * 64 + inst.method * 32 + tag]


out = {}
for m in MODS:
    mod = importlib.import_module('asn1crypto.' + m)
    for n, c in sorted(vars(mod).items()):
        if not isinstance(c, type) or c.__module__ != mod.__name__ or not issubclass(c, core.Sequence) and not issubclass(c, core.SequenceOf) and not issubclass(c, core.Choice):
            continue
        if issubclass(c, core.Choice):
            out['%s.%s' % (m, n)] = {'kind': 'choice', 'alts': [[a[0]] + list(octets(a[1], a[2] if len(a) > 2 else {})) for a in c._alternatives]}
            continue
        if issubclass(c, core.SequenceOf):
            w, f = octets(c._child_spec, {})
            out['%s.%s' % (m, n)] = {'kind': 'set of' if c.tag == 17 else 'sequence of', 'child': [w, f]}
            continue
        if not c._fields:
            continue
        fs = []
        pair = c._oid_pair and c._oid_specs is not None and c._oid_pair[1]
        for f in c._fields:
            p = f[2] if len(f) > 2 else {}
            w, o = octets(f[1], p)
            how = 'default' if 'default' in p else 'optional' if p.get('optional') else 'required'
            d = None
            if how == 'default':
                d = f[1](**p).dump().hex()
            fs.append([f[0], how, w, o, d])
        out['%s.%s' % (m, n)] = {'kind': 'set' if c.tag == 17 else 'sequence', 'fields': fs}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks', 'schema.json'), 'w') as f:
    json.dump(out, f, indent=0)
print(len(out))
