# -*- coding: utf-8 -*-
import common, gen, spec_pdu as sp
ID = 'C06'
QUICK, THOROUGH = 80000, 4000000
RULE = ('every BMP character and every septet value once (exhaustively, in slices), then random texts, septet strings of length 0..200 with all pad widths, digit strings of length 0..40 and UTF-16 texts, '
        'each compared with the independent codec, in all documented input forms (str, bytearray, iterator, hex string). Distinct by (codec, length, pad, last element, input form).')
ASSUMPTIONS = ['texts have no lone surrogates', 'unpackSeptets without a count may not distinguish a final @ at a multiple of 8 septets from filler',
               'septets outside the tables (undefined extension codes) are not decoded']
FLOORS = {'encode': 20, 'refused': 3, 'discarded': 3, 'pack': 15, 'unpack': 15, 'semi': 8, 'ucs2': 8}

def setup():
    common.import_repo()
    global pdu
    from gsmmodem import pdu

SLICES = 64
def gen_case(rng, i, tier):
    if i < SLICES: return {'k': 'exhaustive', 'slice': i}
    k = rng.choice(['gsm', 'gsm', 'discard', 'refuse', 'pack', 'pack', 'pad', 'semi', 'ucs2'])
    c = {'k': k}
    n = rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 40, 160, rng.randint(0, 200)])
    if k == 'gsm': c['text'] = gen.gsm_text(rng, n)
    elif k in ('discard', 'refuse'):
        t = list(gen.gsm_text(rng, n))
        for _ in range(rng.randint(1, 5)): t.insert(rng.randrange(len(t) + 1), rng.choice(gen.BMP_EXTRA.replace('€', '') + gen.ASTRAL + '`\x1bç'))
        c['text'] = ''.join(t)
    elif k in ('pack', 'pad'):
        c['sept'] = [rng.choice([0, 0x7F, 0x0D, rng.randrange(128), rng.randrange(128)]) for _ in range(n)]
        if k == 'pad': c['pad'] = rng.randint(1, 6); c['sept'] = c['sept'] or [1]
        c['form'] = rng.choice(['bytearray', 'str', 'iter'])
    elif k == 'semi': c['num'] = gen.digits(rng, 0, rng.choice([1, 2, 20, 40])); c['form'] = rng.choice(['bytearray', 'hex', 'iter', 'count'])
    else: c['text'] = gen.ucs_text(rng, n) if rng.random() < .8 else gen.gsm_text(rng, n)
    return c

def run(c, rec):
    G = common.guarded
    k = c['k']
    if k == 'exhaustive':
        lo, hi = 0x10000 * c['slice'] // SLICES, 0x10000 * (c['slice'] + 1) // SLICES
        for o in list(range(lo, hi)) + [0x10000 + c['slice'] * 16384 + 5]:
            if 0xD800 <= o < 0xE000: continue
            ch = chr(o)
            want = sp.CHAR_TO_SEPTETS.get(ch)
            try: got = tuple(pdu.encodeGsm7(ch))
            except ValueError: got = None
            rec.eq(got, want, 'gsm7-table', 'encodeGsm7(%r)' % ch)
            rec.eq(bytes(pdu.encodeUcs2(ch)), sp.utf16(ch), 'ucs2-encode', 'encodeUcs2(%r)' % ch)
        if c['slice'] == 0:
            for s in range(128):
                if s == 0x1B: continue
                rec.eq(pdu.decodeGsm7(bytearray([s])), sp.SEPTETS_TO_CHAR[(s,)], 'gsm7-decode-table', 'decodeGsm7(%d)' % s)
            for s in sp._EXT: rec.eq(pdu.decodeGsm7(bytearray([0x1B, s])), sp.SEPTETS_TO_CHAR[(0x1B, s)], 'gsm7-decode-table', 'decodeGsm7(1B %02X)' % s)
            for d in range(100): rec.eq(bytes(pdu.encodeSemiOctets('%02d' % d)), sp.bcd('%02d' % d), 'semi-octets', str(d))
        rec.key(k, c['slice']); return
    if k == 'gsm':
        t = c['text']; want = sp.gsm7_septets(t)
        rec.count('encode')
        for kw in ({}, {'discardInvalid': True}):
            ok, got = G(rec, 'gsm7-encode-raised', pdu.encodeGsm7, t, **kw)
            if ok: rec.eq(list(bytearray(got)), want, 'gsm7-encode', 'encodeGsm7(%r, %r)' % (t, kw))
        for arg in (bytearray(want), ''.join(map(chr, want))):
            ok, got = G(rec, 'gsm7-decode-raised', pdu.decodeGsm7, arg)
            if ok: rec.eq(got, t, 'gsm7-decode', 'decodeGsm7(%r)' % (arg,))
        ok, p = G(rec, 'pack-raised', lambda: pdu.packSeptets(pdu.encodeGsm7(t)))
        if ok:
            ok, got = G(rec, 'unpack-raised', lambda: pdu.decodeGsm7(pdu.unpackSeptets(p, len(want))))
            if ok: rec.eq(got, t, 'gsm7-roundtrip', 'encode/pack/unpack/decode of %r' % t)
        rec.key(k, len(want), t[-1:])
    elif k == 'refuse':
        rec.count('encode'); rec.count('oracle_evaluations')
        try: got = pdu.encodeGsm7(c['text'])
        except ValueError: rec.count('refused')
        except Exception as e: rec.violation('refusal-exception', '%s: %s' % (type(e).__name__, e))
        else: rec.violation('not-refused', 'encodeGsm7(%r) = %r' % (c['text'], got))
        rec.key(k, len(c['text']))
    elif k == 'discard':
        want = [x for ch in c['text'] for x in sp.CHAR_TO_SEPTETS.get(ch, ())]
        ok, got = G(rec, 'discard-raised', pdu.encodeGsm7, c['text'], True)
        if ok: rec.count('encode'); rec.count('discarded'); rec.eq(list(bytearray(got)), want, 'discard', 'encodeGsm7(%r, True)' % c['text'])
        rec.key(k, len(c['text']))
    elif k in ('pack', 'pad'):
        s = c['sept']; pad = c.get('pad', 0)
        want = sp.pack(s, (7 - pad) % 7) # padBits counts the bits of the first septet that precede the text (e.g. of a header)
        form = lambda b: bytearray(b) if c['form'] == 'bytearray' else ''.join(map(chr, b)) if c['form'] == 'str' else iter(bytearray(b))
        ok, got = G(rec, 'pack-raised', pdu.packSeptets, form(s), **({'padBits': pad} if pad else {}))
        if not ok: return
        rec.count('pack')
        rec.eq(bytes(got), want, 'pack', 'packSeptets(%r, padBits=%d)' % (s, pad))
        if not pad:
            for cnt in (len(s), None):
                if cnt == 0: continue
                ok, got = G(rec, 'unpack-raised', pdu.unpackSeptets, form(want), *([cnt] if cnt is not None else []))
                if not ok: continue
                rec.count('unpack')
                want2 = s
                if cnt is None and s and len(s) % 8 == 0 and s[-1] == 0: want2 = s[:-1] # indistinguishable from filler
                if cnt is None and want2 != s and list(got) == s: want2 = s
                rec.eq(list(bytearray(got)), want2, 'unpack', 'unpackSeptets(%s, %r)' % (want.hex(), cnt))
        rec.key(k, len(s), pad, c['form'], s[-1:] == [0])
    elif k == 'semi':
        n = c['num']; want = sp.bcd(n)
        ok, got = G(rec, 'semi-octets-raised', pdu.encodeSemiOctets, n)
        if ok: rec.count('semi'); rec.eq(bytes(got), want, 'semi-octets', 'encodeSemiOctets(%r)' % n)
        f = c['form']
        if f == 'hex': args = [want.hex().upper()]
        elif f == 'iter': args = [iter(bytearray(want))]
        elif f == 'count': args = [iter(bytearray(want + b'\x21\x43')), len(want)] if n else [bytearray(want)]
        else: args = [bytearray(want)]
        ok, got = G(rec, 'semi-octets-raised', pdu.decodeSemiOctets, *args)
        if ok: rec.eq(got, n, 'semi-octets-decode', 'decodeSemiOctets(%s) as %s' % (want.hex(), f))
        if f == 'count' and n and ok and n and len(n) % 2 == 0: # the following octets are left for the next field
            rec.eq(list(args[0]), [0x21, 0x43], 'semi-octets-overread', 'octets left after decodeSemiOctets(..., %d)' % len(want))
        rec.key(k, len(n), f)
    else:
        t = c['text']; want = sp.utf16(t)
        ok, got = G(rec, 'ucs2-raised', pdu.encodeUcs2, t)
        if ok: rec.count('ucs2'); rec.eq(bytes(got), want, 'ucs2-encode', 'encodeUcs2(%r)' % t)
        it = iter(bytearray(want + b'\x00\x41'))
        ok, got = G(rec, 'ucs2-raised', pdu.decodeUcs2, it, len(want))
        if ok:
            rec.eq(got, t, 'ucs2-decode', 'decodeUcs2(%s)' % want.hex())
            rec.eq(list(it), [0, 0x41], 'ucs2-overread', 'octets left after decodeUcs2')
        rec.key(k, len(want), any(ord(x) > 0xFFFF for x in t))
