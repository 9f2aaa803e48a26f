"""Write checks/samples.json: well-formed encodings of every type of the library, made from the type definitions.
Run once with /opt/venv/bin/python; not run by any check.  {class: {label: hex}}"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '/repo')
sys.path.insert(0, os.path.join(HERE, 'checks'))
from asn1crypto import core, x509
from hlib import ref_len

MODS = ('core', 'algos', 'cms', 'crl', 'csr', 'keys', 'ocsp', 'pdf', 'pkcs12', 'tsp', 'x509')
CLS = {'universal': 0, 'application': 1, 'context': 2, 'private': 3}


def tlv(cls, m, tag, body):
    if tag < 31:
        first = bytes([cls * 64 + m * 32 + tag])
    else:
        first = bytes([cls * 64 + m * 32 + 31, tag])
    return first + ref_len(len(body)) + body


def oid_contents(d):
    return core.ObjectIdentifier(d).contents


def prim(spec):
    if issubclass(spec, core.Enumerated):
        return core.Integer(sorted(spec._map)[0]).contents
    if issubclass(spec, core.Integer):
        return core.Integer(sorted(spec._map)[-1] if spec._map else 1).contents
    if issubclass(spec, core.Boolean):
        return b'\xff'
    if issubclass(spec, core.Null):
        return b''
    if issubclass(spec, core.ObjectIdentifier):
        return oid_contents(sorted(spec._map)[0]) if spec._map else b'\x2a\x03\x04'
    if issubclass(spec, (core.BitString, core.OctetBitString, core.IntegerBitString)):
        return b'\x06\x40' if issubclass(spec, core.BitString) and spec._map else b'\x00\x05\x00'
    if issubclass(spec, core.ParsableOctetBitString):
        return b'\x00\x05\x00'
    if issubclass(spec, x509.IPAddress):
        return b'\x0a\x01\x02\x03'
    if issubclass(spec, (core.OctetString, core.IntegerOctetString, core.ParsableOctetString)):
        return b'\x05\x00'
    if issubclass(spec, core.UTCTime):
        return b'200229235959Z'
    if issubclass(spec, core.GeneralizedTime):
        return b'20200229235959Z'
    if issubclass(spec, core.BMPString):
        return b'\x00a'
    if issubclass(spec, core.UniversalString):
        return b'\x00\x00\x00a'
    if issubclass(spec, x509.EmailAddress):
        return b'a@b.c'
    if issubclass(spec, x509.URI):
        return b'http://a.b/c'
    if issubclass(spec, core.NumericString):
        return b'1'
    if issubclass(spec, core.AbstractString):
        return b'a'
    if issubclass(spec, core.Real):
        return b'\x00'
    if issubclass(spec, core.Primitive):
        return b'a'
    raise ValueError(spec)


def element(spec, params=None, full=0, pick=None, value_spec=None, depth=0):
    params = dict(params or {})
    exp, imp = params.get('explicit'), params.get('implicit')
    if 'tag_type' in params:
        if params['tag_type'] == 'explicit':
            exp = params['tag']
        else:
            imp = params['tag']
    if spec is None or issubclass(spec, core.Any):
        if value_spec is not None and not issubclass(value_spec, core.Any):
            out = element(value_spec, {}, full, depth=depth)
        else:
            out = b'\x05\x00'
    elif issubclass(spec, core.Choice):
        a = spec._alternatives[pick or 0]
        out = element(a[1], a[2] if len(a) > 2 else {}, full, depth=depth + 1)
        if spec.explicit:
            e = spec.explicit if isinstance(spec.explicit[0], tuple) else (spec.explicit,)
            for c, t in e:
                out = tlv(c, 1, t, out)
    else:
        inst = spec(**({'spec': params['spec']} if 'spec' in params else {}))
        if issubclass(spec, core.Sequence):
            body = fields(spec, full, pick, depth)
        elif issubclass(spec, core.SequenceOf):
            child = params.get('spec') or spec._child_spec
            if value_spec is not None and value_spec is not spec:
                child = value_spec
            body = element(child, {}, full, depth=depth + 1) if child and depth < 6 else b''
        elif value_spec is not None and value_spec is not spec:
            body = element(value_spec, {}, full, depth=depth + 1)
            if issubclass(spec, core.ParsableOctetBitString):
                body = b'\x00' + body
        else:
            body = prim(spec)
        cls, tag = inst.class_, inst.tag
        if imp is not None:
            cls, tag = (2, imp) if isinstance(imp, int) else (CLS.get(imp[0], imp[0]), imp[1])
        out = tlv(cls, inst.method, tag, body)
        for c, t in inst.explicit or ():
            out = tlv(c, 1, t, out)
    if exp is not None:
        es = [exp] if not isinstance(exp, (list, tuple)) or isinstance(exp[0], str) else list(exp)
        for x in es:
            c, t = (2, x) if isinstance(x, int) else (CLS.get(x[0], x[0]), x[1])
            out = tlv(c, 1, t, out)
    return out


PREFER = ('data', 'common_name', 'sha256', 'key_usage', 'sha256_rsa', 'rsassa_pkcs1v15', 'aes128_cbc', 'rsa', 'content_type', 'time_stamping', 'other_name', 'pbkdf2')


def fields(spec, full, pick, depth):
    out = []
    pair = spec._oid_pair if spec._oid_pair and (spec._oid_specs or spec._spec_callbacks) else None
    oid = None
    if pair:
        f = dict((x[0], x[1]) for x in spec._fields)[pair[0]]
        if issubclass(f, core.ObjectIdentifier):
            rev = dict((v, k) for k, v in f._map.items()) if f._map else {}
            keys = sorted(k for k in (spec._oid_specs or {}) if k)
            if depth and pick is None and 'data' in rev:
                keys = ['data']
            elif depth and pick is None:
                known = [k for k in PREFER if k in (keys or rev)]
                keys = known or keys
            if keys:
                key = keys[(pick or 0) % len(keys)]
                oid = rev.get(key, key)
    inst = spec()
    inst.children = [core.VOID] * len(spec._fields)
    for index, info in enumerate(spec._fields):
        name, fs, params = info[0], info[1], info[2] if len(info) > 2 else {}
        needed = not ('optional' in params or 'default' in params)
        if not needed and name != (pair and pair[1]) and (full == 0 or depth >= full):
            continue
        if pair and name == pair[0] and oid:
            e = tlv(0, 0, 6, oid_contents(oid)) if not params.get('implicit') and not params.get('explicit') else element(fs, params, full, depth=depth + 1)
        else:
            if depth > 9:
                raise ValueError('too deep')
            try:
                _, fs, vs, p2, _ = inst._determine_spec(index)
            except Exception as x:
                vs = fs
            e = element(fs, params, full, value_spec=vs, depth=depth + 1)
        out.append(e)
        if fs is not None and not issubclass(fs, core.Any):
            try:
                inst.children[index] = fs.load(e, **params)
            except Exception as x:
                pass
    if spec.tag == 17:
        out.sort(key=lambda x: (x[0] >> 6, x[0] & 31))
    return b''.join(out)


out, bad, read = {}, [], 0
for m in MODS:
    mod = importlib.import_module('asn1crypto.' + m)
    for n, c in sorted(vars(mod).items()):
        if not isinstance(c, type) or c.__module__ != mod.__name__ or not issubclass(c, core.Asn1Value):
            continue
        if n in ('Asn1Value', 'NoValue', 'Any', 'Void', 'Primitive', 'AbstractString', 'AbstractTime', 'Sequence', 'SequenceOf', 'Set', 'SetOf', 'Choice', 'ObjectDescriptor', 'InstanceOf', 'Real', 'EmbeddedPdv') and m == 'core':
            continue
        d = {}

        def add(label, **k):
            try:
                e = element(c, **k)
            except Exception as x:
                bad.append((m, n, label, repr(x)[:100]))
                return
            try:
                v = c.load(e, strict=True)
                v.native
            except Exception as x:
                bad.append((m, n, label, repr(x)[:150], e.hex()[:100]))
                return
            if e.hex() not in d.values():
                d[label] = e.hex()
        add('min')
        if issubclass(c, core.Sequence):
            add('full', full=1)
            add('deep', full=3)
            if c._oid_pair and c._oid_specs:
                for i in range(len([k for k in c._oid_specs if k])):
                    add('oid%d' % i, pick=i)
        if issubclass(c, core.Choice):
            for i in range(len(c._alternatives)):
                add('alt%d' % i, pick=i)
        out['%s.%s' % (m, n)] = d
with open(os.path.join(HERE, 'checks', 'samples.json'), 'w') as f:
    json.dump(out, f, indent=0, sort_keys=True)
print(len(out), sum(len(d) for d in out.values()), sum(len(h) // 2 for d in out.values() for h in d.values()))
for b in bad:
    print(b)
