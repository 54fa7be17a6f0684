# -*- coding: utf-8 -*-
import copy
import common, gen, spec_pdu as sp
ID = 'C07'
QUICK, THOROUGH = 80000, 4000000
RULE = ('random and boundary references, part counts, part numbers and ports (0, 255, 256, 65535 ...) through user-built elements, decoded elements, decode-modify-encode chains, headers of several elements inside a whole '
        'message, and unknown elements of 0..60 octets; compared with the 3GPP layouts. Distinct by (element kind, width, operation, size).')
ASSUMPTIONS = ['the size of a user-built element is meaningful once it has been encoded']
FLOORS = {'built': 20, 'decoded': 20, 'unknown': 8, 'wide': 15, 'narrow': 15, 'modified': 8}

def setup():
    common.import_repo()
    global pdu
    from gsmmodem import pdu

def v16(rng): return rng.choice([0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF, rng.randrange(256), rng.randrange(65536)])
def v8(rng): return rng.choice([0, 1, 2, 127, 128, 255, rng.randrange(256)])
def gen_case(rng, i, tier):
    return {'op': rng.choice(['build', 'build', 'decode', 'decode', 'modify', 'message']), 'kind': rng.choice(['concat', 'concat', 'port', 'port', 'unknown']),
            'v': [v16(rng), v16(rng), v8(rng), v8(rng)], 'v2': [v16(rng), v16(rng), v8(rng), v8(rng)], 'iei': rng.choice([1, 2, 3, 6, 7, 9, 0x24, 0x70, 0xFF]),
            'data': [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 10, 60]))], 'wide': rng.random() < .5, 'seed': rng.getrandbits(32)}

def layout(kind, v, wide=None, iei=None, data=None):
    """ (octets, fits 8-bit) """
    if kind == 'unknown': return bytes([iei, len(data)]) + bytes(data), None
    if kind == 'concat':
        w = v[0] > 255 if wide is None else wide
        return (bytes([8, 4, v[0] >> 8, v[0] & 255, v[2], v[3]]) if w else bytes([0, 3, v[0] & 255, v[2], v[3]])), w
    w = (v[0] > 255 or v[1] > 255) if wide is None else wide
    return (bytes([5, 4, v[0] >> 8, v[0] & 255, v[1] >> 8, v[1] & 255]) if w else bytes([4, 2, v[0] & 255, v[1] & 255])), w

def vals(kind, e): return (e.reference, e.parts, e.number) if kind == 'concat' else (e.destination, e.source)
def want(kind, v): return (v[0], v[2], v[3]) if kind == 'concat' else (v[0], v[1])

def build(kind, v):
    e = pdu.Concatenation() if kind == 'concat' else pdu.PortAddress()
    assign(kind, e, v); return e
def assign(kind, e, v):
    if kind == 'concat': e.reference, e.parts, e.number = v[0], v[2], v[3]
    else: e.destination, e.source = v[0], v[1]

def check_decoded(rec, kind, octets, e, v, tag):
    rec.eq(e.id, octets[0], 'identifier', '%s: id from %s' % (tag, octets.hex()))
    rec.eq(len(e), len(octets), 'size', '%s: len of element %s' % (tag, octets.hex()))
    rec.eq(bytes(bytearray(e.data)), bytes(octets[2:]), 'data', '%s: data of %s' % (tag, octets.hex()))
    if kind != 'unknown':
        cls = pdu.Concatenation if kind == 'concat' else pdu.PortAddress
        if rec.expect(isinstance(e, cls), 'class', lambda: '%s decoded from %s' % (type(e).__name__, octets.hex())):
            rec.eq(vals(kind, e), want(kind, v), 'values', '%s: decoded from %s' % (tag, octets.hex()))

def decode(octets, tail=b'\xAA\xBB'):
    it = iter(bytearray(bytes(octets) + tail))
    e = pdu.InformationElement.decode(it)
    return e, bytes(bytearray(it)) == tail

def run(c, rec):
    kind, v = c['kind'], list(c['v'])
    if kind == 'unknown':
        o, _ = layout(kind, v, iei=c['iei'], data=c['data'])
        rec.count('unknown')
        ok, r = common.guarded(rec, 'decode-raised', decode, o)
        if not ok: return
        e, exact = r
        rec.expect(exact, 'overread', lambda: 'decoding %s consumed the wrong number of octets' % o.hex())
        check_decoded(rec, kind, o, e, v, 'decode')
        ok, b = common.guarded(rec, 'encode-raised', e.encode)
        if ok: rec.eq(bytes(b), o, 'reencode', 're-encoding')
        ok, b = common.guarded(rec, 'encode-raised', lambda: pdu.InformationElement(c['iei'], len(c['data']), list(c['data'])).encode())
        if ok: rec.eq(bytes(b), o, 'encode', 'encoding a user-built unknown element')
        rec.key(kind, len(o)); return
    op = c['op']
    if op in ('build', 'message'):
        o, w = layout(kind, v)
        rec.count('built'); rec.count('wide' if w else 'narrow')
        ok, e = common.guarded(rec, 'build-raised', build, kind, v)
        if not ok: return
        for again in range(2): # encoding is repeatable, and does not disturb the values
            ok, b = common.guarded(rec, 'encode-raised', e.encode)
            if not ok: return
            rec.eq(bytes(b), o, 'encode', 'encoding %s %r' % (kind, want(kind, v)))
            rec.eq(vals(kind, e), want(kind, v), 'values', 'values after encoding')
            rec.eq(len(e), len(o), 'size', 'len after encoding %s %r' % (kind, want(kind, v)))
        e2 = build(kind, c['v2']) # elements do not share state
        e2.encode()
        rec.eq(bytes(e.encode()), o, 'encode', 'encoding after another element was encoded')
        ok, r = common.guarded(rec, 'decode-raised', decode, bytes(b))
        if ok:
            rec.expect(r[1], 'overread', lambda: 'decoding %s' % bytes(b).hex())
            check_decoded(rec, kind, bytes(b), r[0], v, 'round trip')
            rec.eq(vals(kind, r[0]), want(kind, v), 'roundtrip', 'decoding what was encoded')
        if op == 'message':
            import random, datetime as dt
            rng = random.Random(c['seed'])
            o2, _ = layout('unknown', v, iei=c['iei'], data=c['data'][:20])
            hdr = o + o2 if rng.random() < .5 else o2 + o
            raw = sp.deliver(None, sp.Addr('2782', 1), dt.datetime(2020, 1, 2, 3, 4, 5), 0, 0, [65] * rng.randint(0, 20), hdr)
            ok, d = common.guarded(rec, 'decode-raised', pdu.decodeSmsPdu, sp.hexs(raw))
            if ok:
                got = [bytes([x.id, x.dataLength]) + bytes(bytearray(x.data)) for x in d.get('udh', [])]
                rec.eq(b''.join(got), hdr, 'message-header', 'header elements of %s' % raw.hex())
                ok, got = common.guarded(rec, 'encode-raised', lambda: b''.join(bytes(x.encode()) for x in d.get('udh', [])))
                if ok: rec.eq(got, hdr, 'message-header', 're-encoded header elements')
                for x in d.get('udh', []):
                    if x.id == o[0]: rec.eq(vals(kind, x), want(kind, v), 'values', 'in message')
    else:
        wide = c['wide']
        if not wide: v[0] &= 255; v[1] &= 255
        o, _ = layout(kind, v, wide)
        rec.count('decoded'); rec.count('wide' if wide else 'narrow')
        ok, r = common.guarded(rec, 'decode-raised', decode, o)
        if not ok: return
        e, exact = r
        rec.expect(exact, 'overread', lambda: 'decoding %s consumed the wrong number of octets' % o.hex())
        check_decoded(rec, kind, o, e, v, 'decode')
        if op == 'modify':
            rec.count('modified')
            v = c['v2']
            e = copy.copy(e) if c['seed'] % 2 else e
            assign(kind, e, v)
        o2, _ = layout(kind, v)
        ok, b = common.guarded(rec, 'encode-raised', e.encode)
        if ok:
            rec.eq(bytes(b), o2, 'reencode', 're-encoding %s after %s' % (o.hex(), op))
            rec.eq(len(e), len(o2), 'size', 'len after re-encoding')
            rec.eq(e.id, o2[0], 'identifier', 'id after re-encoding')
    rec.key(kind, op, [x > 255 for x in v], len(o))
