# -*- coding: utf-8 -*-
import os.path
import common
ID = 'C25'
QUICK, THOROUGH = 20000, 1500000
RULE = ('random histories of 1..60 insertions, replacements and deletions over keys chosen from small alphabets and from AT-command-like strings so that keys are prefixes of one another (including the empty key and falsy values); after every '
        'operation the store is compared with a dictionary: lookup and membership of present and absent keys, size, listing, iteration, prefix listing and longest common prefix. Distinct by the set of keys reached.')
ASSUMPTIONS = ['with no key matching a prefix, longestCommonPrefix may return the empty string or the prefix']
FLOORS = {'ops': 900, 'deletes': 150, 'replaces': 60, 'prefix_queries': 1500, 'lcp_queries': 1500, 'prefix_pairs': 200}

def setup():
    common.import_repo()
    global Trie
    from gsmtermlib.trie import Trie

def key(rng, style, pool):
    if pool and rng.random() < .45:
        k = rng.choice(pool)
        r = rng.random()
        if r < .3: return k[:rng.randint(0, len(k))]
        if r < .6: return k + rng.choice('abAT+=?')
        return k
    if style == 0: return ''.join(rng.choice('ab') for _ in range(rng.randint(0, 5)))
    if style == 1: return ''.join(rng.choice('abc\u00e9') for _ in range(rng.randint(0, 4)))
    return 'AT' + rng.choice(['', '+', '+C', '+CM', '+CMG', '+CSQ', '+CS', 'D', 'E']) + ''.join(rng.choice('SDRFLW=?') for _ in range(rng.randint(0, 3)))

def gen_case(rng, i, tier):
    style = rng.randrange(3)
    pool, ops = [], []
    pdel = rng.choice([.15, .35, .5])
    for n in range(rng.randint(1, 60 if rng.random() < .2 else 14)):
        k = key(rng, style, pool)
        if rng.random() < pdel and pool: ops.append(['del', rng.choice(pool) if rng.random() < .8 else k])
        else:
            ops.append(['set', k, rng.choice([None, 0, '', 'v%d' % n, n, [n]])])
            pool.append(k)
    return {'ops': ops, 'q': [key(rng, style, pool) for _ in range(4)]}

MISSING = object()
def compare(rec, t, d, q, ctx):
    ok = True
    ok &= rec.eq(len(t), len(d), 'size', ctx)
    ks = list(t.keys())
    ok &= rec.eq(sorted(ks), sorted(d), 'listing', ctx)
    ok &= rec.eq(sorted(iter(t)), sorted(d), 'iteration', ctx)
    for k in list(d) + q:
        present = k in d
        ok &= rec.eq(bool(k in t), present, 'membership', '%s: %r in store' % (ctx, k))
        try: v = t[k]
        except KeyError: v = MISSING
        ok &= rec.expect((v is MISSING) == (not present) and (v is MISSING or v is d[k]), 'lookup', lambda: '%s: store[%r] = %r, dictionary has %r' % (ctx, k, v, d.get(k, MISSING)))
        ok &= rec.expect(t.get(k, MISSING) is d.get(k, MISSING), 'get', lambda: '%s: get(%r)' % (ctx, k))
        ok &= rec.expect(t.get(k) is d.get(k), 'get', lambda: '%s: get(%r)' % (ctx, k))
    pre = set(q) | {''} | {k[:n] for k in d for n in range(len(k) + 1)}
    if len(pre) > 24: pre = set(sorted(pre)[::len(pre) // 16]) | set(q) | {''}
    for p in pre:
        match = [k for k in d if k.startswith(p)]
        rec.count('prefix_queries'); rec.count('lcp_queries')
        if len(match) > 1: rec.count('prefix_pairs')
        ok &= rec.eq(sorted(t.keys(p)), sorted(match), 'prefix-listing', '%s: keys(%r)' % (ctx, p))
        l = t.longestCommonPrefix(p)
        if match: ok &= rec.eq(l, os.path.commonprefix(match), 'longest-common-prefix', '%s: longestCommonPrefix(%r) of %r' % (ctx, p, match))
        else: ok &= rec.expect(l in ('', p), 'longest-common-prefix', lambda: '%s: longestCommonPrefix(%r) = %r without match' % (ctx, p, l))
    return ok

def run(c, rec):
    t, d = Trie(), {}
    other = Trie(); other['AT'] = 'x'
    for n, op in enumerate(c['ops']):
        rec.count('ops')
        ctx = 'after %d operations %r' % (n + 1, c['ops'][max(0, n - 5):n + 1])
        if op[0] == 'set':
            if op[1] in d: rec.count('replaces')
            t[op[1]] = op[2]; d[op[1]] = op[2]
        else:
            rec.count('deletes')
            try: del t[op[1]]; got = True
            except KeyError: got = False
            want = op[1] in d
            d.pop(op[1], None)
            rec.eq(got, want, 'delete-result', ctx)
        if not compare(rec, t, d, c['q'] + [op[1]], ctx): return
    rec.eq((len(other), other['AT']), (1, 'x'), 'shared-state', 'another store')
    rec.key(tuple(sorted(d)))
