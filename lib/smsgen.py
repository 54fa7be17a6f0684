# -*- coding: utf-8 -*-
""" Generators and oracles for stored messages, shared by the SMS checks """
import datetime as dt
import gen, modemsim, spec_pdu as sp

WORDS = ['hello', 'OK then', 'ERROR: none', 'a@b', '> ', '+CMTI: "SM",1 x', 'x+CMGL: 1', 'RING RING', '', 'Q' * 40, '"quoted", text', 'ok', '+CMGR', 'a,b,c', '\xe9\xe0\xa3$', '0041', '1']
FORBIDDEN = ('OK', 'ERROR', 'COMMAND NOT SUPPORT')
def text_line(rng, uid):
    """ a line of text that a modem can send unambiguously in text mode """
    t = '%s %s' % (uid, rng.choice(WORDS)) if rng.random() < .8 else '%s %s' % (rng.choice(WORDS), uid)
    return t.strip() or uid
def rtext(rng, uid, textmode, multiline=True):
    if textmode:
        n = rng.choice([1, 1, 1, 2, 3]) if multiline else 1
        return '\n'.join(text_line(rng, '%s.%d' % (uid, k)) for k in range(n))
    r = rng.random()
    if r < .3: return '%s %s' % (uid, rng.choice(WORDS))
    if r < .6: return uid + gen.gsm_text(rng, rng.choice([0, 1, 5, 20, 100]))
    return uid + gen.ucs_text(rng, rng.choice([1, 5, 20, 60]))
def rtime(rng): return [rng.randint(2001, 2040), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 4, 8, -20, 22, -13, rng.randint(-48, 56)])]
def rnumber(rng, alpha=False):
    if alpha and rng.random() < .15: return rng.choice(['MTN', 'Bank 1', 'Vodacom', 'A-B', 'InfoLine 24', 'a'])
    d = gen.digits(rng, 3, 12)
    return ('+' if rng.random() < .6 else '') + d
def rmsg(rng, uid, textmode, stat=0, p_report=0):
    """ JSON-able description of a received message """
    if rng.random() < p_report:
        return {'kind': 'report', 'number': rnumber(rng), 'mr': rng.randrange(256), 'time': rtime(rng), 'time2': rtime(rng), 'st': rng.choice([0, 0, 1, 0x30, 0x46, 68, rng.randrange(128)]), 'stat': stat, 'smsc': None if textmode else rng.choice([None, '+2782'])}
    return {'kind': 'deliver', 'number': rnumber(rng, True), 'text': rtext(rng, uid, textmode), 'time': rtime(rng), 'stat': stat, 'smsc': None if textmode else rng.choice([None, '+27821', '0821'])}
def build(d):
    d = dict(d); k = d.pop('kind')
    if k == 'deliver': return modemsim.deliver(d['number'], d['text'], d['time'], d['stat'], d.get('smsc'))
    if k == 'report': return modemsim.report(d['number'], d['mr'], d['time'], d['time2'], d['st'], d['stat'], d.get('smsc'))
    if k == 'submit': return modemsim.stored(d['number'], d['text'], d['stat'])
    return modemsim.raw(d['pdu'], d['stat'], d.get('lines'))

def same_time(got, t):
    return isinstance(got, dt.datetime) and got.replace(tzinfo=None) == dt.datetime(*t[:6]) and got.utcoffset() == dt.timedelta(minutes=15 * t[6])
def diff(sms, d, modem, textmode, status=None):
    """ '' if the Sms object shows exactly the message d, else what differs """
    out = []
    if d['kind'] == 'deliver':
        if type(sms).__name__ != 'ReceivedSms': return 'is a %s' % type(sms).__name__
        if sms.number != d['number']: out.append('number %r' % sms.number)
        if sms.text != d['text']: out.append('text %r' % sms.text)
        if not same_time(sms.time, d['time']): out.append('time %r' % sms.time)
        if not textmode and sms.smsc != d['smsc']: out.append('smsc %r' % sms.smsc)
    else:
        if type(sms).__name__ != 'StatusReport': return 'is a %s' % type(sms).__name__
        if sms.number != d['number']: out.append('number %r' % sms.number)
        if sms.reference != d['mr']: out.append('reference %r' % sms.reference)
        if not same_time(sms.timeSent, d['time']): out.append('timeSent %r' % sms.timeSent)
        if not same_time(sms.timeFinalized, d['time2']): out.append('timeFinalized %r' % sms.timeFinalized)
        if sms.deliveryStatus != d['st']: out.append('deliveryStatus %r' % sms.deliveryStatus)
    if status is not None and sms.status != status: out.append('status %r' % sms.status)
    return ', '.join(out) and '%s; expected %r' % (', '.join(out), d)
