# -*- coding: utf-8 -*-
import common, gen, spec_pdu as sp
ID = 'C01'
QUICK, THOROUGH = 60000, 3000000
CPU_BUDGET = 30
RULE = ('random texts over the GSM-7 basic and extension tables, the BMP and astral characters, with lengths clustered around every 1/2/3-part boundary '
        '(plus texts of up to 255 parts); every PDU is decoded by an independent strict 3GPP decoder and the parts are reassembled. Non-trivial: the text is not empty; '
        'distinct by (alphabet, length, number of parts, extension/astral characters at part boundaries).')
ASSUMPTIONS = ['lib/spec_pdu.py is a faithful reading of 3GPP TS 23.038/23.040', 'texts contain no lone UTF-16 surrogates and need at most 255 parts']
FLOORS = {'multipart': 15, 'gsm7': 20, 'ucs2': 20, 'boundary_escape': 1, 'boundary_surrogate': .5}

def setup():
    common.import_repo()
    global pdu
    from gsmmodem import pdu

def gen_case(rng, i, tier):
    t, a = gen.text(rng, big=(i % 150 == 7))
    r = rng.random()
    if r < .12: # escape pair straddling the first / second part boundary
        t = gen.gsm_text(rng, rng.choice([1, 2]) * 153 - 1, 0) + rng.choice(sp.EXT_CHARS) + gen.gsm_text(rng, rng.randrange(0, 170))
    elif r < .2: # surrogate pair straddling a boundary
        t = gen.ucs_text(rng, rng.choice([1, 2]) * 67 - 1, 0) + rng.choice(gen.ASTRAL) + gen.ucs_text(rng, rng.randrange(0, 70))
    elif r < .25: # only extension characters, or only astral ones
        t = ''.join(rng.choice(sp.EXT_CHARS if rng.random() < .5 else gen.ASTRAL) for _ in range(rng.choice([1, 35, 36, 70, 76, 77, 80, 81, 153, 154, 160])))
    elif r < .3: # one odd character in an otherwise GSM-7 text decides the alphabet
        t = gen.gsm_text(rng, rng.choice([5, 69, 70, 71, 159, 160, 161, 162, 170, 200, 307, 320, 500, 1000]), .1)
        p = rng.choice([rng.randrange(len(t) + 1), rng.randrange(len(t) + 1), len(t), 0])
        t = t[:p] + rng.choice('`\x1b\t\x00ç“ЖЁ'+gen.ASTRAL[0]) + t[p:]
    return {'text': t, 'ref': rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]), 'number': gen.number(rng)[0], 'flash': rng.random() < .1, 'srr': rng.random() < .5}

def run(case, rec):
    text = case['text']
    ok, pdus = common.guarded(rec, 'encode-raised', pdu.encodeSmsSubmitPdu, case['number'], text, reference=case['ref'], requestStatusReport=case['srr'], sendFlash=case['flash'])
    if not ok: return
    gsm = sp.is_gsm7(text)
    size = len(sp.gsm7_septets(text)) if gsm else len(sp.utf16(text)) // 2
    rec.count('gsm7' if gsm else 'ucs2')
    rec.count('pdus', len(pdus))
    fits = size <= (160 if gsm else 70)
    rec.expect((len(pdus) == 1) == fits and len(pdus) > 0, 'part-count', lambda: '%d septets/units sent as %d PDUs' % (size, len(pdus)))
    if len(pdus) > 1:
        need = parts_needed([2 if ch in sp.EXT_CHARS else 1 for ch in text] if gsm else [len(sp.utf16(ch)) // 2 for ch in text], 153 if gsm else 67)
        rec.expect(len(pdus) <= need, 'more-parts-than-needed', lambda: 'a text of %d septets/units that fits %d parts was sent in %d' % (size, need, len(pdus)))
    out = []
    refs = set()
    for k, p in enumerate(pdus):
        octets = bytes.fromhex(str(p))
        try:
            d = sp.parse_submit(octets)
        except sp.SpecError as e:
            rec.violation('undecodable-part', 'part %d of %d: %s; %s' % (k + 1, len(pdus), e, octets.hex())); return
        rec.count('oracle_evaluations')
        rec.expect(d['alphabet'] == (0 if gsm else 2), 'alphabet', 'alphabet %r for a text that is%s GSM-7' % (d['alphabet'], '' if gsm else ' not'))
        cat = [(i, v) for i, v in d['ies'] if i in (0, 8)]
        if len(pdus) > 1:
            rec.expect(len(d['ies']) == 1 and len(cat) == 1 and len(cat[0][1]) == (3 if cat[0][0] == 0 else 4), 'concatenation-header', lambda: 'part %d has elements %r' % (k + 1, d['ies']))
            if cat:
                v = cat[0][1]
                refs.add((cat[0][0], v[:-2]))
                rec.expect(tuple(v[-2:]) == (len(pdus), k + 1), 'part-numbering', lambda: 'PDU %d of %d announces %d/%d' % (k + 1, len(pdus), v[-1], v[-2]))
        else:
            rec.expect(not d['udhi'], 'unexpected-header', 'single PDU has a user data header')
        if k and out[-1] and d['text'] and not gsm:
            rec.expect(not (0xD800 <= ord(out[-1][-1]) <= 0xDBFF), 'split-surrogate', 'part %d ends in half a surrogate pair' % k)
        out.append(d['text'])
    rec.expect(len(refs) <= 1, 'shared-reference', lambda: 'references differ between parts: %r' % refs)
    got = ''.join(out)
    rec.expect(got == text, 'text-altered', lambda: diff(text, got))
    if len(pdus) > 1:
        rec.count('multipart')
        for a, b in zip(out, out[1:]):
            lim = 153 if gsm else 67
            sz = len(sp.gsm7_septets(a)) if gsm else len(sp.utf16(a)) // 2
            if sz < lim: rec.count('boundary_escape' if gsm else 'boundary_surrogate')
    if text: rec.key(gsm, size, len(pdus), tuple(len(o) for o in out[:4]))

def parts_needed(sizes, room): # filling every part as far as possible is optimal when no character may be split
    n, used = 1, 0
    for z in sizes:
        if used + z > room: n, used = n + 1, 0
        used += z
    return n

def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    return 'texts of %d and %d characters differ at %d: %r became %r' % (len(a), len(b), i, a[max(0, i-5):i+10], b[max(0, i-5):i+10])
