# -*- coding: utf-8 -*-
import copy, pickle
import datetime as dt
import common, gen, spec_pdu as sp
ID = 'C05'
QUICK, THOROUGH = 60000, 4000000
RULE = ('random calendar times and every quarter-hour offset in -79..79 through PDU-mode decoding (deliver, report, submit), text-mode decoding, time-zone objects and absolute-validity encoding; relative validity '
        'periods around every coding step, at random and out of range. Distinct by (kind, offset, coding range).')
ASSUMPTIONS = ['years 2000..2068 (two-digit years)', 'absolute validity: whole-second date-times with quarter-hour offsets']
FLOORS = {'pdu_times': 30, 'text_times': 15, 'abs_validity': 10, 'rel_validity': 15, 'negative': 20, 'refused': 2}

def setup():
    common.import_repo()
    global pdu, util
    from gsmmodem import pdu, util

def rtime(rng):
    y = rng.randint(2000, 2067); m = rng.randint(1, 12)
    d = rng.choice([1, 28, rng.randint(1, 28)])
    if (m, y % 4) == (2, 0) and rng.random() < .3: d = 29
    if m in (1, 12) and rng.random() < .3: d = 31
    return [y, m, d, rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)]),
            rng.choice([0, 1, -1, 56, -48, 39, -39, 40, -40, 79, -79, rng.randint(-79, 79), rng.randint(-79, 79), rng.randint(-79, 79)])]

def gen_case(rng, i, tier):
    k = rng.choice(['deliver', 'report', 'submit', 'text', 'text', 'abs', 'rel', 'rel', 'refuse'])
    c = {'kind': k, 't': rtime(rng), 't2': rtime(rng)}
    if k == 'rel':
        r = rng.random()
        base = rng.choice([300 * rng.randint(1, 144), 43200 + 1800 * rng.randint(0, 24), 86400 * rng.randint(1, 34), 604800 * rng.randint(4, 63)])
        c['s'] = base + rng.choice([0, 0, -1, 1, rng.randint(-400000, 400000)])
        c['us'] = rng.choice([0, 0, 0, 999999, 1])
        c['s'] = max(0, min(c['s'], 63 * 604800 + 86399))
    if k == 'refuse': c['what'] = rng.choice(['short', 'long', 'naive', 'zero', 'negative', 'type']); c['n'] = rng.randint(1, 1000)
    return c

def show(x): return '%r (offset %s)' % (x, x.utcoffset() if isinstance(x, dt.datetime) else None)
def same(rec, got, t, mech, ctx):
    want = dt.datetime(*t[:6])
    if t[6] < 0: rec.count('negative')
    if not rec.expect(isinstance(got, dt.datetime) and got.tzinfo is not None, mech, lambda: '%s gave %r' % (ctx, got)): return
    rec.expect(got.replace(tzinfo=None) == want, mech, lambda: '%s: local time %s, sent %s' % (ctx, show(got), want))
    rec.expect(got.utcoffset() == dt.timedelta(minutes=15 * t[6]), mech + '-offset', lambda: '%s: %s, sent offset %d quarter-hours' % (ctx, show(got), t[6]))
    ref = dt.datetime(*t[:6], tzinfo=dt.timezone(dt.timedelta(minutes=15 * t[6])))
    try: text = got.strftime('%y-%m-%d %H:%M:%S %Z').split(' ', 2), got.strftime('%z'), pickle.loads(pickle.dumps(got)), copy.deepcopy(got)
    except Exception as e: rec.violation(mech + '-unusable', '%s: %s, formatted or copied: %s: %s' % (ctx, show(got), type(e).__name__, e)); return
    rec.expect(text[0][:2] == ref.strftime('%y-%m-%d %H:%M:%S').split() and text[1] == ref.strftime('%z') and text[2] == text[3] == ref and text[2].utcoffset() == ref.utcoffset(), mech + '-formatted', lambda: '%s: %s is formatted, and copied, as %r' % (ctx, show(got), text))
    rec.expect(got == ref, mech + '-instant', lambda: '%s: %s, sent %s' % (ctx, show(got), ref))

def run(c, rec):
    k, t, t2 = c['kind'], c['t'], c['t2']
    T, T2 = dt.datetime(*t[:6]), dt.datetime(*t2[:6])
    a = sp.Addr('27820001111', 1)
    if k in ('deliver', 'report', 'submit'):
        raw = (sp.deliver(None, a, T, t[6], 0, [65]) if k == 'deliver' else sp.status_report(None, a, 1, T, t[6], T2, t2[6], 0) if k == 'report'
               else sp.submit(None, 1, a, 0, [65], vp=(T, t[6])))
        ok, d = common.guarded(rec, 'decode-raised', pdu.decodeSmsPdu, sp.hexs(raw))
        if not ok: return
        rec.count('pdu_times')
        same(rec, d.get('validity' if k == 'submit' else 'time'), t, 'pdu-time', k)
        if k == 'report': same(rec, d.get('discharge'), t2, 'pdu-discharge-time', k)
        rec.key(k, t[6])
    elif k == 'text':
        s = '%02d/%02d/%02d,%02d:%02d:%02d%+03d' % (t[0] % 100, t[1], t[2], t[3], t[4], t[5], t[6])
        ok, d = common.guarded(rec, 'text-time-raised', util.parseTextModeTimeStr, s)
        if ok: rec.count('text_times'); same(rec, d, t, 'text-time', s)
        rec.key(k, t[6])
    elif k == 'abs':
        off = dt.timedelta(minutes=15 * t[6])
        for tz in (util.SimpleOffsetTzInfo(t[6] / 4.0), dt.timezone(off)):
            ok, ps = common.guarded(rec, 'validity-raised', pdu.encodeSmsSubmitPdu, '+2782', 'x', validity=T.replace(tzinfo=tz))
            if not ok: continue
            try: d = sp.parse_submit(ps[0].data)
            except sp.SpecError as e: rec.violation('abs-validity', '%s: %s' % (e, ps[0])); continue
            rec.count('abs_validity')
            if t[6] < 0: rec.count('negative')
            rec.expect(d['vpf'] == 3 and d['vp'] == (T, t[6]), 'abs-validity', lambda: 'requested %s offset %d quarter-hours, transmitted %r' % (T, t[6], d['vp']))
            # and the library's own decoder agrees
            ok, m = common.guarded(rec, 'decode-raised', pdu.decodeSmsPdu, str(ps[0]))
            if ok: same(rec, m.get('validity'), t, 'validity-roundtrip', 'round trip')
        rec.key(k, t[6])
    elif k == 'rel':
        want = dt.timedelta(seconds=c['s'], microseconds=c['us'])
        try: ps = pdu.encodeSmsSubmitPdu('+2782', 'x', validity=want)
        except ValueError:
            rec.count('refused')
            rec.expect(want < dt.timedelta(minutes=5) or want > dt.timedelta(weeks=63), 'rel-validity-refused', lambda: '%s was refused' % want); return
        rec.count('rel_validity')
        try: d = sp.parse_submit(ps[0].data)
        except sp.SpecError as e: rec.violation('rel-validity', '%s: %s' % (e, ps[0])); return
        got = d['vp']
        if not rec.expect(isinstance(got, dt.timedelta), 'rel-validity', lambda: '%s transmitted as %r' % (want, got)): return
        step = (dt.timedelta(minutes=5) if want <= dt.timedelta(hours=12) else dt.timedelta(minutes=30) if want <= dt.timedelta(days=1) else
                dt.timedelta(days=1) if want <= dt.timedelta(days=30) else dt.timedelta(weeks=1))
        rec.expect(got <= want, 'validity-longer', lambda: '%s transmitted as %s' % (want, got))
        rec.expect(want - got < step, 'validity-too-short', lambda: '%s transmitted as %s' % (want, got))
        ok, m = common.guarded(rec, 'decode-raised', pdu.decodeSmsPdu, str(ps[0]))
        if ok: rec.eq(m.get('validity'), got, 'rel-validity-decoded', 'decoded validity of %s' % ps[0])
        rec.key(k, str(step), int(want / step))
    else:
        w = c['what']
        v = {'short': dt.timedelta(seconds=c['n'] % 300), 'long': dt.timedelta(days=448 + c['n']), 'zero': dt.timedelta(0), 'negative': -dt.timedelta(minutes=c['n']),
             'naive': T, 'type': c['n']}[w]
        try: ps = pdu.encodeSmsSubmitPdu('+2782', 'x', validity=v)
        except (ValueError, TypeError): rec.count('refused'); rec.count('oracle_evaluations')
        except Exception as e: rec.violation('refusal-exception', '%r: %s %s' % (v, type(e).__name__, e))
        else: rec.violation('not-refused', 'validity %r was accepted: %s' % (v, ps[0]))
        rec.key(k, w)
