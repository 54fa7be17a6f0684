# -*- coding: utf-8 -*-
import datetime as dt
import common, gen, spec_pdu as sp
ID = 'C03'
QUICK, THOROUGH = 80000, 4000000
RULE = ('well-formed SMS-DELIVER / STATUS-REPORT / SUBMIT PDUs built by an independent encoder from random fields: 3 alphabets, all septet alignments, user data headers of 0..30+ octets with known and '
        'unknown elements, numeric and alphanumeric addresses of every length, all offsets, hostile text ends (@, CR, escape pairs), full-size user data; every decoded field is compared. '
        'Distinct by (type, alphabet, text length mod 8, header length, last character class, address type and length).')
ASSUMPTIONS = ['uncompressed user data; no TP-DCS value that 3GPP reserves', 'extension-table codes that 3GPP leaves undefined are not sent', 'alphanumeric sender names of 8 characters do not end in @',
               'timestamps are valid calendar times in 2000..2068']
FLOORS = {'deliver': 20, 'report': 5, 'submit': 5, 'udh': 20, 'fill_bits': 8, 'ends_at': 2, 'alnum': 5}

def setup():
    common.import_repo()
    global pdu
    from gsmmodem import pdu

def rtime(rng):
    return [rng.randint(2000, 2067), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, rng.randint(-79, 79), rng.randint(-56, 56)])]

def rudh(rng):
    """ list of [iei, hex] """
    ies = []
    style = rng.random()
    n = rng.choice([1, 1, 1, 2, 3])
    for _ in range(n):
        r = rng.random()
        if r < .3: ies.append([0, bytes([rng.randrange(256), rng.randint(1, 255), rng.randint(1, 255)]).hex()])
        elif r < .5: ies.append([8, bytes([rng.randrange(256), rng.randrange(256), rng.randint(1, 255), rng.randint(1, 255)]).hex()])
        elif r < .6: ies.append([4, bytes([rng.randrange(256), rng.randrange(256)]).hex()])
        elif r < .7: ies.append([5, bytes(rng.randrange(256) for _ in range(4)).hex()])
        else:
            iei = rng.choice([1, 2, 3, 6, 7, 9, 0x0A, 0x20, 0x24, 0x25, 0x70, 0xA0, 0xFF])
            ies.append([iei, bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20]))).hex()])
    return ies

def gen_case(rng, i, tier):
    kind = rng.choice(['deliver', 'deliver', 'deliver', 'submit', 'report'])
    c = {'kind': kind, 'smsc': None if rng.random() < .15 else gen.number(rng, 1, 20), 'as': rng.choice(['str', 'bytearray', 'lower'])}
    if rng.random() < .2 and kind == 'deliver': c['addr'] = [gen.alnum(rng), 5]
    else:
        n, ton = gen.number(rng, 1, 20)
        c['addr'] = [n, rng.choice([0, 2, 3, 4]) if ton != 1 else 1]
    c['time'] = rtime(rng)
    c['mr'] = rng.randrange(256)
    if kind == 'report':
        c['time2'] = rtime(rng); c['st'] = rng.choice([0, 1, 2, 0x20, 0x30, 0x40, 0x46, 0x60, 0x7F, 255, rng.randrange(256)]); c['fo'] = rng.choice([0x02, 0x06, 0x22, 0x26]); return c
    a = c['alphabet'] = rng.choice([0, 0, 0, 1, 2, 2])
    c['udh'] = rudh(rng) if rng.random() < .5 else None
    room = 140 - (1 + sum(2 + len(x[1]) // 2 for x in c['udh']) if c['udh'] else 0)
    if a == 0:
        cap = (room * 8) // 7
        n = rng.choice([0, 1, 2, 7, 8, 9, 15, 16, cap, cap - 1, rng.randint(0, cap), rng.randint(0, cap)])
        c['text'] = gen.gsm_text(rng, min(n, cap))
    elif a == 2:
        cap = room // 2
        c['text'] = gen.ucs_text(rng, min(cap, rng.choice([0, 1, 2, cap, rng.randint(0, cap)])))
        if rng.random() < .2: c['text'] = gen.gsm_text(rng, min(cap, 10), 0) # GSM-7 characters sent as UCS2
    else:
        c['text'] = ''.join(chr(rng.randrange(256)) for _ in range(min(room, rng.choice([0, 1, 5, room, rng.randint(0, room)]))))
    c['pid'] = rng.choice([0, 0, 0x41, rng.randrange(256)])
    # general group (also with message class / marked for deletion), message class group, message waiting groups, reserved groups
    c['dcs'] = rng.choice([a << 2 | rng.choice([0, 0, 0x10, 0x11, 0x12, 0x13, 0x40, 0x50]), a << 2,
                           rng.choice({0: [0xF0, 0xF1, 0xF2, 0xC8, 0xC0, 0xD0, 0xD9], 1: [0xF4, 0xF5, 0xF6, 0xF7], 2: [0xE0, 0xE8, 0xE1, 0x08]}[a])])
    c['flags'] = rng.choice([0, 0x20, 0x80, 0xA0, 0x04] if kind == 'deliver' else [0, 0x20, 0x04, 0x80])
    if kind == 'submit': c['vp'] = rng.choice([None, rng.randrange(256), rtime(rng)])
    return c

def off_ok(got, t):
    want = dt.datetime(*t[:6])
    return isinstance(got, dt.datetime) and got.replace(tzinfo=None) == want and got.utcoffset() == dt.timedelta(minutes=15 * t[6])

def run(c, rec):
    smsc = sp.Addr(c['smsc'][0].lstrip('+'), c['smsc'][1]) if c['smsc'] else None
    addr = sp.Addr(c['addr'][0].lstrip('+') if c['addr'][1] != 5 else c['addr'][0], c['addr'][1], 0 if c['addr'][1] == 5 else 1)
    kind = c['kind']
    t = c['time']
    if kind == 'report':
        raw = sp.status_report(smsc, addr, c['mr'], dt.datetime(*t[:6]), t[6], dt.datetime(*c['time2'][:6]), c['time2'][6], c['st'], c['fo'])
    else:
        a = c['alphabet']
        payload = sp.gsm7_septets(c['text']) if a == 0 else sp.utf16(c['text']) if a == 2 else c['text'].encode('latin-1')
        udh = b''.join(bytes([i, len(d) // 2]) + bytes.fromhex(d) for i, d in c['udh']) if c['udh'] else None
        if kind == 'deliver':
            raw = sp.deliver(smsc, addr, dt.datetime(*t[:6]), t[6], a, payload, udh, c['pid'], c['dcs'], flags=c['flags'])
        else:
            vp = c['vp']
            if isinstance(vp, list): vp = (dt.datetime(*vp[:6]), vp[6])
            raw = sp.submit(smsc, c['mr'], addr, a, payload, udh, vp, c['pid'], c['dcs'], flags=c['flags'])
    arg = sp.hexs(raw) if c['as'] == 'str' else sp.hexs(raw).lower() if c['as'] == 'lower' else bytearray(raw)
    ok, d = common.guarded(rec, 'decode-raised', pdu.decodeSmsPdu, arg)
    if not ok: return
    rec.count(kind)
    def E(name, cond, want):
        rec.expect(cond, name, lambda: '%s: got %r, encoded %r; PDU %s' % (name, d.get(name, '<missing>'), want, raw.hex()))
    E('type', d.get('type') == {'deliver': 'SMS-DELIVER', 'report': 'SMS-STATUS-REPORT', 'submit': 'SMS-SUBMIT'}[kind], kind)
    E('smsc', d.get('smsc') == (smsc.display() if smsc else None), c['smsc'])
    E('number', d.get('number') == addr.display(), c['addr'])
    off = raw[0] + 1
    E('tpdu_length', d.get('tpdu_length') == len(raw) - off, len(raw) - off)
    if addr.ton == 5: rec.count('alnum')
    if kind == 'report':
        E('reference', d.get('reference') == c['mr'], c['mr'])
        E('time', off_ok(d.get('time'), t), t); E('discharge', off_ok(d.get('discharge'), c['time2']), c['time2'])
        E('status', d.get('status') == c['st'], c['st'])
        rec.key(kind, c['addr'][1], len(c['addr'][0]), c['st'])
        return
    E('protocol_id', d.get('protocol_id') == c['pid'], c['pid'])
    if kind == 'deliver': E('time', off_ok(d.get('time'), t), t)
    else:
        E('reference', d.get('reference') == c['mr'], c['mr'])
        vp = c['vp']
        if vp is None: E('validity', d.get('validity') is None, None)
        elif isinstance(vp, int): E('validity', d.get('validity') == sp.rel_validity(vp), vp)
        else: E('validity', off_ok(d.get('validity'), vp), vp)
    E('text', d.get('text') == c['text'], c['text'])
    if c['udh']:
        rec.count('udh')
        fill = (-(len(udh) + 1) * 8) % 7
        if a == 0 and fill: rec.count('fill_bits')
        got = d.get('udh')
        if rec.expect(got is not None and len(got) == len(c['udh']), 'udh', lambda: 'udh %r, encoded %r; PDU %s' % (got, c['udh'], raw.hex())):
            for g, (iei, h) in zip(got, c['udh']):
                v = bytes.fromhex(h)
                rec.expect(g.id == iei and bytes(g.data) == v and g.dataLength == len(v) and len(g) == len(v) + 2, 'udh-element', lambda: 'element %r/%r encoded as %02x %s' % (g.id, g.data, iei, h))
                if iei == 0: rec.expect((g.reference, g.parts, g.number) == tuple(v), 'udh-values', lambda: '%r from %s' % ((g.reference, g.parts, g.number), h))
                if iei == 8: rec.expect((g.reference, g.parts, g.number) == (v[0] << 8 | v[1], v[2], v[3]), 'udh-values', lambda: '%r from %s' % ((g.reference, g.parts, g.number), h))
                if iei == 4: rec.expect((g.destination, g.source) == tuple(v), 'udh-values', lambda: '%r from %s' % ((g.destination, g.source), h))
                if iei == 5: rec.expect((g.destination, g.source) == (v[0] << 8 | v[1], v[2] << 8 | v[3]), 'udh-values', lambda: '%r from %s' % ((g.destination, g.source), h))
    else:
        rec.expect(not d.get('udh'), 'udh', lambda: 'invented header %r' % (d.get('udh'),))
    if c['text'].endswith('@') and a == 0: rec.count('ends_at')
    rec.key(kind, a, len(payload) % 8, len(udh) if udh else 0, c['text'][-1:] in '@\r', c['addr'][1], len(c['addr'][0]))
