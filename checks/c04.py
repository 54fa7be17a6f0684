# -*- coding: utf-8 -*-
import datetime as dt
import common, gen, spec_pdu as sp, c03
ID = 'C04'
QUICK, THOROUGH = 12000, 600000
CPU_BUDGET = 10
RULE = ('per case one well-formed PDU (generator of C03) from which are derived: every truncation, and 12 random mutations (bit flips, length octets set to extremes, '
        'inserted/removed/duplicated octets, spliced PDUs, odd or non-hex or non-ASCII strings), plus purely random octets and strings; the oracle admits only a result with fields of documented types or EncodingError. '
        'Distinct by (result kind, type, mutation kind, fields present, first octet class).')
ASSUMPTIONS = ['the documented error is gsmmodem.exceptions.EncodingError', 'truncation inside the user data itself may be decoded leniently']
FLOORS = {'truncations': 2000, 'header_truncations': 1200, 'rejected': 1500, 'accepted': 300}

def setup():
    common.import_repo(); c03.setup()
    global pdu, EncodingError
    from gsmmodem import pdu
    from gsmmodem.exceptions import EncodingError

def gen_case(rng, i, tier):
    c = c03.gen_case(rng, i, tier)
    c['seed'] = rng.getrandbits(48)
    return c

def raw_of(c):
    smsc = sp.Addr(c['smsc'][0].lstrip('+'), c['smsc'][1]) if c['smsc'] else None
    addr = sp.Addr(c['addr'][0].lstrip('+') if c['addr'][1] != 5 else c['addr'][0], c['addr'][1], 0 if c['addr'][1] == 5 else 1)
    t = c['time']; T = dt.datetime(*t[:6])
    if c['kind'] == 'report':
        r = sp.status_report(smsc, addr, c['mr'], T, t[6], dt.datetime(*c['time2'][:6]), c['time2'][6], c['st'], c['fo'])
        return r, len(r)
    a = c['alphabet']
    payload = sp.gsm7_septets(c['text']) if a == 0 else sp.utf16(c['text']) if a == 2 else c['text'].encode('latin-1')
    udh = b''.join(bytes([i, len(d) // 2]) + bytes.fromhex(d) for i, d in c['udh']) if c['udh'] else None
    if c['kind'] == 'deliver': r = sp.deliver(smsc, addr, T, t[6], a, payload, udh, c['pid'], c['dcs'], flags=c['flags'])
    else:
        vp = c['vp']
        if isinstance(vp, list): vp = (dt.datetime(*vp[:6]), vp[6])
        r = sp.submit(smsc, c['mr'], addr, a, payload, udh, vp, c['pid'], c['dcs'], flags=c['flags'])
    _, octets = sp.ud(a, payload, udh)
    return r, len(r) - len(octets) + (len(udh) + 1 if udh is not None else 0) # octets up to and including the user data header

def well_typed(d):
    def istime(x):
        x.isoformat(); x.utcoffset(); str(x)
        return isinstance(x, dt.datetime) and x.tzinfo is not None and isinstance(x.utcoffset(), dt.timedelta)
    isnum = lambda x: x is None or isinstance(x, str)
    isint = lambda x: isinstance(x, int) and not isinstance(x, bool)
    octet = lambda x: isint(x) and 0 <= x <= 255
    if not isinstance(d, dict): return 'not a dictionary'
    t = d.get('type')
    need = {'SMS-DELIVER': ('smsc', 'tpdu_length', 'number', 'protocol_id', 'time', 'text'), 'SMS-SUBMIT': ('smsc', 'tpdu_length', 'reference', 'number', 'protocol_id', 'text'),
            'SMS-STATUS-REPORT': ('smsc', 'tpdu_length', 'reference', 'number', 'time', 'discharge', 'status')}.get(t)
    if need is None: return 'type %r' % (t,)
    for n in need:
        if n not in d: return 'field %s missing' % n
    for n, v in d.items():
        if n in ('smsc', 'number') and not isnum(v): return '%s=%r' % (n, v)
        if n in ('time', 'discharge') and not istime(v): return '%s=%r' % (n, v)
        if n in ('reference', 'protocol_id', 'status') and not octet(v): return '%s=%r' % (n, v)
        if n == 'tpdu_length' and not isint(v): return '%s=%r' % (n, v)
        if n == 'text' and not isinstance(v, str): return '%s=%r' % (n, v)
        if n == 'validity' and v is not None and not isinstance(v, dt.timedelta) and not istime(v): return '%s=%r' % (n, v)
        if n == 'udh':
            if not isinstance(v, list): return 'udh=%r' % (v,)
            for e in v:
                if not isinstance(e, pdu.InformationElement) or not octet(e.id): return 'udh element %r' % (e,)
                if isinstance(e, pdu.Concatenation) and not (isint(e.reference) and isint(e.parts) and isint(e.number)): return 'concatenation %r' % (vars(e),)
                if isinstance(e, pdu.PortAddress) and not (isint(e.destination) and isint(e.source)): return 'ports %r' % (vars(e),)
    return None

def attempt(rec, arg, tag, must_reject=False):
    rec.count('decodes')
    rec.info['last'] = repr(arg)[:800]
    try:
        d = pdu.decodeSmsPdu(arg)
    except EncodingError:
        rec.count('rejected'); rec.key(tag, 'rejected', len(arg)); return
    except common.Stuck: raise
    except BaseException as e:
        rec.violation('escaped-exception', '%s: %s escaped from decoding %r' % (type(e).__name__, e, arg)); return
    rec.count('accepted')
    if must_reject: rec.violation('truncated-header-accepted', 'decoding %r returned %r' % (arg, d)); return
    try: bad = well_typed(d)
    except Exception as e: bad = 'using a field raised %s: %s' % (type(e).__name__, e)
    rec.expect(bad is None, 'ill-typed-result', lambda: '%s; input %r, result %r' % (bad, arg, d))
    rec.key(tag, d.get('type') if isinstance(d, dict) else None, len(d.get('udh', ())), type(d.get('validity')).__name__, len(arg) // 8)

def run(c, rec):
    import random
    rng = random.Random(c['seed'])
    r, hdr = raw_of(c)
    form = lambda b: [sp.hexs(b), bytearray(b), sp.hexs(b).encode(), sp.hexs(b).lower()][rng.randrange(4)]
    for n in range(len(r)):
        rec.count('truncations')
        # a PDU cut within the TP-UDL/user-data part may still be decodable; the headers may not be cut
        if n < hdr: rec.count('header_truncations')
        attempt(rec, form(r[:n]), 'trunc', must_reject=n < hdr)
    for k in range(12):
        b = bytearray(r)
        m = rng.randrange(9)
        if m == 0:
            for _ in range(rng.randint(1, 4)): b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif m == 1: b[rng.randrange(min(len(b), 40))] = rng.choice([0, 1, 0x7F, 0x80, 0xFF, 0x1B, 0x0D])
        elif m == 2: p = rng.randrange(len(b)); del b[p:p + rng.randint(1, 5)]
        elif m == 3: p = rng.randrange(len(b)); b[p:p] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 5)))
        elif m == 4: b = bytearray(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 8, 20, 60, 200])))
        elif m == 5: # plausible start, random rest
            b = b[:rng.randrange(len(b))] + bytearray(rng.randrange(256) for _ in range(rng.randint(0, 160)))
        elif m == 6: # random header octets incl. lengths, then mutate
            for _ in range(rng.randint(1, 8)): b[rng.randrange(len(b))] = rng.randrange(256)
        elif m == 7: # header flag forced on
            b[min(b[0] + 1, len(b) - 1)] |= rng.choice([0x40, 0x18, 0x10, 0x03, 0x02])
        else:
            s = sp.hexs(b)
            p = rng.randrange(len(s))
            s = [s[:p] + rng.choice('GZ \n-x\u00e9\u4e2d\x00') + s[p + 1:], s[:-1], s + '0', '0x' + s, ' ' + s, s + '\r', '\u0660' * 10, ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x110000 - 0x900)])) for _ in range(rng.randrange(30))), ''][rng.randrange(9)]
            attempt(rec, s, 'm8'); continue
        attempt(rec, form(b), 'm%d' % m)
    del rec.info['last']
