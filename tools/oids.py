"""Write checks/oids.json: the types of the open fields of the library for each identifier, as the standards define them,
the oracle of C17.  Run once; reviewed; not run by any check."""
import importlib
import json
import os
import sys
sys.path.insert(0, '/repo')
from asn1crypto import core
MODS = ('algos', 'cms', 'crl', 'csr', 'keys', 'ocsp', 'pdf', 'pkcs12', 'tsp', 'x509')
ID_FIELDS = ('algorithm', 'type', 'extn_id', 'content_type')


NULLS = ['1.2.840.113549.1.1.1', '1.2.840.113549.1.1.11', '1.2.840.113549.1.1.12', '1.2.840.113549.1.1.13', '1.2.840.113549.1.1.14',
         '1.3.14.3.2.26', '2.16.840.1.101.3.4.2.1', '2.16.840.1.101.3.4.2.2', '2.16.840.1.101.3.4.2.3', '2.16.840.1.101.3.4.2.4']


def name(s):
    return None if s is None else s.__module__.split('.')[-1] + '.' + s.__name__


out = {}
for m in MODS:
    mod = importlib.import_module('asn1crypto.' + m)
for m in MODS:
    mod = importlib.import_module('asn1crypto.' + m)
    for n, c in sorted(vars(mod).items()):
        if not isinstance(c, type) or c.__module__ != mod.__name__ or not issubclass(c, core.Sequence) or not c._fields:
            continue
        fields = {f[0]: f for f in c._fields}
        cbs = list(c._spec_callbacks or {})
        if c._oid_pair:
            idf, vf = c._oid_pair
        elif cbs and cbs[0] in fields:
            ids = [k for k in ID_FIELDS if k in fields and issubclass(fields[k][1], core.ObjectIdentifier)]
            if not ids:
                print('skipped', n, cbs)
                continue
            idf, vf = ids[0], cbs[0]
        else:
            continue
        idt = fields[idf][1]
        if not issubclass(idt, core.ObjectIdentifier):
            print('skipped', n, idt)
            continue
        idt()
        entries = {}
        extra = {d for d in NULLS if vf == 'parameters' and hasattr(c, '_null_algos')}
        for dotted in sorted(set(idt._map or {}) | extra):
            if not dotted[0].isdigit():
                continue
            inst = c({idf: dotted})
            s = inst.spec(vf)
            if vf in (cbs or []) and fields[vf][1] is not None and issubclass(fields[vf][1], (core.ParsableOctetString,)):
                pass
            entries[dotted] = name(s)
        u = c({idf: '1.2.3.4.5'}).spec(vf)
        out['%s.%s' % (m, n)] = {'id': idf, 'value': vf, 'fields': [f[0] for f in c._fields], 'field': name(fields[vf][1]), 'entries': entries, 'other': name(u)}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks', 'oids.json'), 'w') as f:
    json.dump(out, f, indent=0, sort_keys=True)
print(len(out))
for k, v in out.items():
    print(k, v['id'], v['value'], v['field'], 'other', v['other'], v['fields'])
    for d, s in v['entries'].items():
        if s != v['other']:
            print('    ', d, s)
