# -*- coding: utf-8 -*-
""" Generators shared by the codec checks """
import spec_pdu as sp

BMP_EXTRA = ''.join(map(chr, [0x0416, 0x4E2D, 0x05D0, 0x0627, 0x20AC, 0x201C, 0xE7, 0x60, 0xFFFD, 0xFEFF, 0x2028, 0xAC00, 0x3042, 0x00, 0x09, 0x1B, 0x0D00, 0xA6, 0xFFFF, 0xD7FF, 0xE000]))
ASTRAL = ''.join(map(chr, [0x1F600, 0x10000, 0x10FFFF, 0x1F1E6, 0x2F800]))

def gsm_char(rng, pext):
    return rng.choice(sp.EXT_CHARS) if rng.random() < pext else rng.choice(sp.BASIC_CHARS)

def gsm_text(rng, septets, pext=None):
    """ text of exactly this many septets """
    if pext is None: pext = rng.choice([0, 0, .02, .3, .9])
    style = rng.random()
    out, n = [], 0
    filler = rng.choice(sp.BASIC_CHARS)
    while n < septets:
        c = gsm_char(rng, pext) if style < .7 else (filler if rng.random() < .8 else gsm_char(rng, pext))
        k = len(sp.CHAR_TO_SEPTETS[c])
        if n + k > septets: c, k = rng.choice(sp.BASIC_CHARS), 1
        out.append(c); n += k
    if out and rng.random() < .3: # hostile ends: '@' is septet 0, CR is filler
        k = len(sp.CHAR_TO_SEPTETS[out[-1]])
        if k == 1: out[-1] = rng.choice('@\r@\n ')
    return ''.join(out)

def ucs_text(rng, units, past=None):
    """ text of exactly this many UTF-16 code units with at least one character outside GSM-7 (if units > 0) """
    if past is None: past = rng.choice([0, 0, .05, .5, 1])
    out, n = [], 0
    while n < units:
        r = rng.random()
        if r < past and n + 2 <= units: out.append(rng.choice(ASTRAL)); n += 2
        elif r < .3: out.append(rng.choice(BMP_EXTRA)); n += 1
        elif r < .5: out.append(chr(rng.choice([rng.randrange(0x20, 0xD800), rng.randrange(0xE000, 0x10000)]))); n += 1
        else: out.append(gsm_char(rng, .1)); n += 1
    s = ''.join(out)
    if s and sp.is_gsm7(s):
        s = s[:-1] + rng.choice(BMP_EXTRA[:4]) if ord(s[-1]) < 0x10000 else s
    return s

LEN7 = [0, 1, 2, 6, 7, 8, 9, 13, 14, 15, 16, 63, 70, 71, 152, 153, 154, 158, 159, 160, 161, 162, 304, 305, 306, 307, 308, 459, 460, 612]
LEN16 = [0, 1, 2, 3, 33, 66, 67, 68, 69, 70, 71, 72, 133, 134, 135, 136, 200, 201, 202]

def text(rng, big=False):
    """ (text, alphabet wanted by the spec: 0 or 2) """
    r = rng.random()
    if rng.random() < .5:
        n = rng.choice(LEN7) if r < .7 else rng.randrange(0, 700)
        if big: n = rng.randrange(700, 255 * 153 - 200)
        t = gsm_text(rng, n)
    else:
        n = rng.choice(LEN16) if r < .7 else rng.randrange(0, 300)
        if big: n = rng.randrange(300, 255 * 67 - 200)
        t = ucs_text(rng, n)
    return t, (0 if sp.is_gsm7(t) else 2)

def digits(rng, lo, hi): return ''.join(rng.choice('0123456789') for _ in range(rng.randint(lo, hi)))
def number(rng, lo=1, hi=20):
    """ (string given to / expected from the API, Addr) """
    d = digits(rng, lo, hi)
    return ('+' + d, 1) if rng.random() < .6 else (d, 2)
def alnum(rng, hi=11):
    while True:
        s = gsm_text(rng, rng.randint(1, hi), rng.choice([0, 0, .2]))
        if rng.random() < .6: s = ''.join(rng.choice('ABCDEFghijkLMnop 0123456789-.&!') for _ in range(rng.randint(1, hi)))
        if s.isdigit() or (s[:1] == '+' and s[1:].isdigit()) or s[-1:] in '@ \r' : continue
        if s.strip() != s: continue
        return s
