# -*- coding: utf-8 -*-
import datetime as dt
import common, gen, spec_pdu as sp
ID = 'C02'
QUICK, THOROUGH = 60000, 3000000
RULE = ('random combinations of destination (international, local, alphanumeric; 1..20 digits), SMSC, reference, validity (none/relative/absolute), report, reject-duplicates, flash '
        'and text (1..4 parts, both alphabets); a strict decoder reads every field of every PDU, and the PDUs of each case are compared with those of a case that differs in one option. '
        'Distinct by (option combination, address lengths and types, alphabet, part count).')
ASSUMPTIONS = ['lib/spec_pdu.py is a faithful reading of 3GPP TS 23.040', 'digits-only numbers may be announced as national or unknown', 'reference 0..255; numeric SMSC; alphanumeric addresses within the GSM-7 alphabet']
FLOORS = {'pdus': 100, 'multipart': 10, 'vp_relative': 10, 'vp_absolute': 10, 'alnum': 5, 'pairs': 60}

def setup():
    common.import_repo()
    global pdu, util
    from gsmmodem import pdu, util

OPTS = ('number', 'smsc', 'ref', 'vp', 'srr', 'rd', 'flash')
def one(rng, name):
    if name == 'number':
        r = rng.random()
        if r < .15: return gen.alnum(rng)
        return gen.number(rng, 1, 20)[0]
    if name == 'smsc': return None if rng.random() < .4 else gen.number(rng, 1, 18)[0]
    if name == 'ref': return rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)])
    if name == 'vp':
        r = rng.random()
        if r < .35: return None
        if r < .7: return ['rel', rng.choice([300 * rng.randint(1, 144), 43200 + 1800 * rng.randint(1, 24), 86400 * rng.randint(1, 30), 86400 * 7 * rng.randint(5, 63)])]
        return ['abs', rng.randint(2000, 2067), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(-56, 56)]
    return rng.random() < .5

def gen_case(rng, i, tier):
    case = {k: one(rng, k) for k in OPTS}
    n = rng.choice([0, 1, 50, 140, 160, 161, 153*2, 153*2+1, 500])
    case['text'] = gen.gsm_text(rng, n) if rng.random() < .6 else gen.ucs_text(rng, n // 2)
    case['alter'] = rng.choice(OPTS)
    case['altered'] = one(rng, case['alter'])
    return case

def build(rec, c):
    vp = c['vp']
    if vp and vp[0] == 'rel': v = dt.timedelta(seconds=vp[1])
    elif vp: v = dt.datetime(*vp[1:7], tzinfo=util.SimpleOffsetTzInfo(vp[7] / 4.0) if c['ref'] % 2 else dt.timezone(dt.timedelta(minutes=15 * vp[7])))
    else: v = None
    return common.guarded(rec, 'encode-raised', pdu.encodeSmsSubmitPdu, c['number'], c['text'], reference=c['ref'], validity=v, smsc=c['smsc'],
                          requestStatusReport=c['srr'], rejectDuplicates=c['rd'], sendFlash=c['flash'])

def addr_ok(got, want, tp):
    if want is None: return got is None
    if got is None: return False
    if want.isdigit(): return got.value == want and got.ton in (0, 2)
    if want[0] == '+' and want[1:].isdigit(): return got.value == want[1:] and got.ton == 1
    return tp and got.value == want and got.ton == 5

def check(rec, c, pdus, tag):
    fields = []
    for k, p in enumerate(pdus):
        data = bytes(p.data)
        rec.expect(str(p).upper() == data.hex().upper() and len(str(p)) == 2 * len(data), 'hex-form', lambda: '%s vs %s' % (p, data.hex()))
        try: d = sp.parse_submit(data)
        except sp.SpecError as e:
            rec.violation('undecodable', '%s: %s' % (e, data.hex())); return None
        rec.count('pdus')
        E = lambda name, cond, got, want: rec.expect(cond, name, lambda: '%s of PDU %d/%d: got %r, requested %r (options %r)' % (name, k + 1, len(pdus), got, want, {o: c[o] for o in OPTS}))
        a = d['da']
        E('destination', addr_ok(a, c['number'], True), (a.value, a.ton), c['number'])
        E('numbering-plan', a.npi == (0 if a.ton == 5 else 1), a.npi, 1)
        E('smsc', addr_ok(d['smsc'], c['smsc'], False), d['smsc'] and (d['smsc'].value, d['smsc'].ton), c['smsc'])
        E('tpdu-length', p.tpduLength == d['tpdu_len'], p.tpduLength, d['tpdu_len'])
        E('reference', d['mr'] == c['ref'], d['mr'], c['ref'])
        E('status-report', d['srr'] == c['srr'], d['srr'], c['srr'])
        E('reject-duplicates', d['rd'] == c['rd'], d['rd'], c['rd'])
        E('flash', d['class'] == (0 if c['flash'] else None), d['class'], c['flash'])
        E('reply-path', not d['rp'], d['rp'], False)
        E('protocol-id', d['pid'] == 0, d['pid'], 0)
        E('header-indicator', d['udhi'] == (len(pdus) > 1), d['udhi'], len(pdus) > 1)
        vp = c['vp']
        if vp is None: E('validity', d['vp'] is None, d['vp'], None)
        elif vp[0] == 'rel': E('validity', d['vp'] == dt.timedelta(seconds=vp[1]), d['vp'], vp); rec.count('vp_relative')
        else: E('validity', d['vp'] == (dt.datetime(*vp[1:7]), vp[7]), d['vp'], vp); rec.count('vp_absolute')
        if len(pdus) > 1:
            for iei, v in d['ies']:
                if iei == 0: E('concatenation-reference', v[0] == c['ref'], v[0], c['ref'])
                elif iei == 8: E('concatenation-reference', (v[0] << 8 | v[1]) == c['ref'], v, c['ref'])
        if a.ton == 5: rec.count('alnum')
        fields.append((a.value, a.ton, d['smsc'] and (d['smsc'].value, d['smsc'].ton), d['mr'], d['srr'], d['rd'], d['class'], d['vp'], d['text'], d['alphabet'], d['pid'], d['rp']))
    if len(pdus) > 1: rec.count('multipart')
    return fields

NAMES = {'number': (0, 1), 'smsc': (2,), 'ref': (3,), 'srr': (4,), 'rd': (5,), 'flash': (6,), 'vp': (7,)}
def run(case, rec):
    ok, pdus = build(rec, case)
    if not ok: return
    f1 = check(rec, case, pdus, 'a')
    other = dict(case); other[case['alter']] = case['altered']
    ok, pdus2 = build(rec, other)
    if not ok: return
    f2 = check(rec, other, pdus2, 'b')
    if f1 is None or f2 is None: return
    rec.count('pairs')
    may = NAMES[case['alter']]
    rec.expect(len(f1) == len(f2) and all(x == y or k in may for p, q in zip(f1, f2) for k, (x, y) in enumerate(zip(p, q))), 'unrelated-field-changed',
               lambda: 'changing %s from %r to %r: %r became %r' % (case['alter'], case[case['alter']], case['altered'], f1[:2], f2[:2]))
    vp = case['vp']
    rec.key(vp and vp[0], case['srr'], case['rd'], case['flash'], len(case['number']), case['number'][:1] == '+', case['smsc'] and len(case['smsc']), len(pdus), sp.is_gsm7(case['text']))
