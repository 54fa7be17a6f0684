# -*- coding: utf-8 -*-
"""Independent reference codec for SMS TPDUs (3GPP TS 23.040 / 23.038).

Written from the specifications only; shares no code or tables with the code under test.
Bits are handled as integers/bit lists, deliberately unlike the implementation's shifting loops.
"""
import datetime as _dt

# 3GPP TS 23.038 6.2.1 default alphabet, by code point
_BASIC = [
    0x40,0xA3,0x24,0xA5,0xE8,0xE9,0xF9,0xEC,0xF2,0xC7,0x0A,0xD8,0xF8,0x0D,0xC5,0xE5,
    0x394,0x5F,0x3A6,0x393,0x39B,0x3A9,0x3A0,0x3A8,0x3A3,0x398,0x39E,None,0xC6,0xE6,0xDF,0xC9,
    0x20,0x21,0x22,0x23,0xA4,0x25,0x26,0x27,0x28,0x29,0x2A,0x2B,0x2C,0x2D,0x2E,0x2F,
    0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3A,0x3B,0x3C,0x3D,0x3E,0x3F,
    0xA1,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4A,0x4B,0x4C,0x4D,0x4E,0x4F,
    0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5A,0xC4,0xD6,0xD1,0xDC,0xA7,
    0xBF,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6A,0x6B,0x6C,0x6D,0x6E,0x6F,
    0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7A,0xE4,0xF6,0xF1,0xFC,0xE0]
_EXT = {0x0A:0x0C,0x14:0x5E,0x28:0x7B,0x29:0x7D,0x2F:0x5C,0x3C:0x5B,0x3D:0x7E,0x3E:0x5D,0x40:0x7C,0x65:0x20AC}
assert len(_BASIC) == 128
CHAR_TO_SEPTETS = {}
for _i,_c in enumerate(_BASIC):
    if _c is not None: CHAR_TO_SEPTETS[chr(_c)] = (_i,)
for _i,_c in _EXT.items(): CHAR_TO_SEPTETS[chr(_c)] = (0x1B,_i)
SEPTETS_TO_CHAR = {v:k for k,v in CHAR_TO_SEPTETS.items()}
BASIC_CHARS = [c for c,s in CHAR_TO_SEPTETS.items() if len(s)==1]
EXT_CHARS = [c for c,s in CHAR_TO_SEPTETS.items() if len(s)==2]
# 0x09 is capital C-cedilla in 23.038; many tables (incl. the widely copied one) use the capital too

class SpecError(Exception):
    pass

def is_gsm7(text): return all(c in CHAR_TO_SEPTETS for c in text)

def gsm7_septets(text):
    out = []
    for c in text: out.extend(CHAR_TO_SEPTETS[c])
    return out

def septets_to_text(septets):
    out, i = [], 0
    while i < len(septets):
        s = septets[i]
        if s == 0x1B:
            if i + 1 >= len(septets): raise SpecError('escape code at end of text')
            t = (0x1B, septets[i+1])
            if t not in SEPTETS_TO_CHAR: raise SpecError('undefined extension code %r' % (t,))
            out.append(SEPTETS_TO_CHAR[t]); i += 2
        else:
            out.append(SEPTETS_TO_CHAR[(s,)]); i += 1
    return ''.join(out)

def pack(septets, lead_bits=0):
    """ Packs septets LSB first into octets, after lead_bits zero bits """
    acc, n = 0, lead_bits
    for s in septets:
        acc |= (s & 0x7F) << n
        n += 7
    return acc.to_bytes((n + 7) // 8, 'little') if n else b''

def unpack(octets, count, lead_bits=0):
    acc = int.from_bytes(bytes(octets), 'little') >> lead_bits
    if lead_bits + 7 * count > 8 * len(octets): raise SpecError('user data too short: %d octets for %d septets' % (len(octets), count))
    return [(acc >> (7 * i)) & 0x7F for i in range(count)]

def utf16(text): return text.encode('utf-16-be', 'surrogatepass')
def from_utf16(data): return bytes(data).decode('utf-16-be', 'surrogatepass')

# ---------------------------------------------------------------- semi-octets
def bcd(digits):
    d = digits + ('F' if len(digits) % 2 else '')
    return bytes(int(d[i+1] + d[i], 16) for i in range(0, len(d), 2))

def unbcd(octets, ndigits=None):
    s = ''.join('%X%X' % (o & 0xF, o >> 4) for o in octets)
    if ndigits is not None:
        rest = s[ndigits:]
        if rest not in ('', 'F'): raise SpecError('bad filler %r' % rest)
        s = s[:ndigits]
    elif s.endswith('F'): s = s[:-1]
    return s

# ---------------------------------------------------------------- addresses
class Addr(object):
    """ ton: 0 unknown, 1 international, 2 national, 5 alphanumeric """
    def __init__(self, value, ton, npi=1): self.value, self.ton, self.npi = value, ton, npi
    def toa(self): return 0x80 | self.ton << 4 | self.npi
    def tp(self):
        if self.ton == 5:
            s = gsm7_septets(self.value)
            return bytes([(len(s) * 7 + 3) // 4, self.toa()]) + pack(s)
        return bytes([len(self.value), self.toa()]) + bcd(self.value)
    def smsc(self):
        b = bcd(self.value)
        return bytes([len(b) + 1, self.toa()]) + b
    def display(self):
        if self.ton != 5 and self.value == '': return None
        return ('+' if self.ton == 1 else '') + self.value

class Reader(object):
    def __init__(self, data): self.d, self.i = bytes(data), 0
    def u8(self):
        if self.i >= len(self.d): raise SpecError('truncated at octet %d' % self.i)
        self.i += 1
        return self.d[self.i-1]
    def take(self, n):
        if self.i + n > len(self.d): raise SpecError('truncated at octet %d (need %d more)' % (self.i, n))
        self.i += n
        return self.d[self.i-n:self.i]
    def rest(self): return self.d[self.i:]

def read_tp_addr(r):
    n = r.u8(); toa = r.u8()
    if not toa & 0x80: raise SpecError('type-of-address bit 8 not set')
    ton, npi = (toa >> 4) & 7, toa & 15
    raw = r.take((n + 1) // 2)
    if ton == 5:
        return Addr(septets_to_text(unpack(raw, n * 4 // 7)), ton, npi)
    return Addr(unbcd(raw, n), ton, npi)

def read_smsc(r):
    n = r.u8()
    if n == 0: return None
    toa = r.u8()
    return Addr(unbcd(r.take(n-1)), (toa >> 4) & 7, toa & 15)

# ---------------------------------------------------------------- time
def scts(dt_naive, quarter_hours):
    """ 7 octets; dt_naive is local time, quarter_hours the signed offset """
    s = dt_naive.strftime('%y%m%d%H%M%S')
    q = abs(quarter_hours)
    tens, units = divmod(q, 10)
    o = units << 4 | tens
    if quarter_hours < 0: o |= 0x08
    return bcd(s) + bytes([o])

def read_scts(octets):
    s = unbcd(octets[:6], 12)
    if not s.isdigit(): raise SpecError('bad time stamp %r' % s)
    o = octets[6]
    q = (o & 0x07) * 10 + (o >> 4)
    if o & 0x08: q = -q
    return _dt.datetime.strptime('20' + s, '%Y%m%d%H%M%S'), q

def rel_validity(tp):
    """ TP-VP relative value -> timedelta """
    if tp <= 143: return _dt.timedelta(minutes=5 * (tp + 1))
    if tp <= 167: return _dt.timedelta(hours=12, minutes=30 * (tp - 143))
    if tp <= 196: return _dt.timedelta(days=tp - 166)
    return _dt.timedelta(weeks=tp - 192)

# ---------------------------------------------------------------- user data
def ud(alphabet, payload, udh=b''):
    """ returns (TP-UDL, octets). alphabet 0: payload is a septet list; 1/2: octets. udh excludes UDHL """
    head = (bytes([len(udh)]) + udh) if udh is not None else b''
    if alphabet == 0:
        hs = (len(head) * 8 + 6) // 7
        fill = hs * 7 - len(head) * 8
        body = pack(payload, fill) if (payload or fill) else b''
        total = hs + len(payload)
        octets = head + body
        octets = octets[:(total * 7 + 7) // 8]
        return total, octets
    return len(head) + len(payload), head + bytes(payload)

def read_ud(alphabet, udl, octets, udhi):
    """ returns (text_or_octets, udh bytes or None); octets must be exactly the user data """
    need = (udl * 7 + 7) // 8 if alphabet == 0 else udl
    if len(octets) != need: raise SpecError('TP-UDL %d needs %d octets, %d present' % (udl, need, len(octets)))
    if need > 140: raise SpecError('user data of %d octets exceeds 140' % need)
    udh = None
    hl = 0
    if udhi:
        hl = octets[0] + 1
        if hl > len(octets): raise SpecError('UDHL beyond user data')
        udh = octets[1:hl]
    if alphabet == 0:
        hs = (hl * 8 + 6) // 7
        return septets_to_text(unpack(octets, udl)[hs:]), udh
    body = octets[hl:]
    if alphabet == 2:
        if len(body) % 2: raise SpecError('odd number of UCS2 octets')
        return from_utf16(body), udh
    return body, udh

def read_ies(udh):
    out, i = [], 0
    while i < len(udh):
        if i + 2 > len(udh): raise SpecError('truncated IE')
        iei, n = udh[i], udh[i+1]
        if i + 2 + n > len(udh): raise SpecError('truncated IE data')
        out.append((iei, bytes(udh[i+2:i+2+n])))
        i += 2 + n
    return out

def parse_submit(octets):
    """ strict parse of an SMS-SUBMIT incl. SMSC field """
    r = Reader(octets)
    res = {'smsc': read_smsc(r)}
    res['tpdu_offset'] = r.i
    fo = r.u8()
    if fo & 3 != 1: raise SpecError('not an SMS-SUBMIT (first octet %02X)' % fo)
    res.update(rd=bool(fo & 4), vpf=(fo >> 3) & 3, srr=bool(fo & 0x20), udhi=bool(fo & 0x40), rp=bool(fo & 0x80))
    res['mr'] = r.u8()
    res['da'] = read_tp_addr(r)
    res['pid'] = r.u8()
    res['dcs'] = dcs = r.u8()
    if dcs & 0xC0: raise SpecError('unexpected DCS %02X' % dcs)
    res['alphabet'] = (dcs >> 2) & 3
    res['class'] = (dcs & 3) if dcs & 0x10 else None
    if dcs & 0x20: raise SpecError('compressed')
    if res['vpf'] == 2: res['vp'] = rel_validity(r.u8())
    elif res['vpf'] == 3: res['vp'] = read_scts(r.take(7))
    elif res['vpf'] == 1: raise SpecError('enhanced validity')
    else: res['vp'] = None
    udl = r.u8()
    res['udl'] = udl
    res['text'], udh = read_ud(res['alphabet'], udl, r.rest(), res['udhi'])
    res['ies'] = read_ies(udh) if udh is not None else []
    res['tpdu_len'] = len(r.d) - res['tpdu_offset']
    return res

# ---------------------------------------------------------------- encoders (network side)
def deliver(smsc, oa, time, q, alphabet, payload, udh=None, pid=0, dcs=None, mms=True, flags=0):
    fo = 0x00 | (0x04 if mms else 0) | (0x40 if udh is not None else 0) | flags
    udl, octets = ud(alphabet, payload, udh)
    if dcs is None: dcs = alphabet << 2
    out = (smsc.smsc() if smsc else b'\x00') + bytes([fo]) + oa.tp() + bytes([pid, dcs]) + scts(time, q) + bytes([udl]) + octets
    return out

def status_report(smsc, ra, mr, t1, q1, t2, q2, st, fo=0x06):
    return ((smsc.smsc() if smsc else b'\x00') + bytes([fo, mr]) + ra.tp() + scts(t1, q1) + scts(t2, q2) + bytes([st]))

def submit(smsc, mr, da, alphabet, payload, udh=None, vp=None, pid=0, dcs=None, flags=0):
    """ vp: None, int (relative octet) or (datetime, q) """
    fo = 0x01 | (0x40 if udh is not None else 0) | flags
    vpb = b''
    if isinstance(vp, int): fo |= 0x10; vpb = bytes([vp])
    elif vp is not None: fo |= 0x18; vpb = scts(*vp)
    udl, octets = ud(alphabet, payload, udh)
    if dcs is None: dcs = alphabet << 2
    return ((smsc.smsc() if smsc else b'\x00') + bytes([fo, mr]) + da.tp() + bytes([pid, dcs]) + vpb + bytes([udl]) + octets)

def deliver_text(oa, text, time=_dt.datetime(2024,1,2,3,4,5), q=0, smsc=None):
    if is_gsm7(text): return deliver(smsc, oa, time, q, 0, gsm7_septets(text))
    return deliver(smsc, oa, time, q, 2, utf16(text))
def hexs(b): return bytes(b).hex().upper()
