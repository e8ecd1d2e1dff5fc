"""NBest, set operations, word id coding, Rice coding."""


# ------------------------------------------------------------------ NBest

def nbest(e, n, maxcap, ops, kind='int'):
    NBest = e.mod('zope.index.nbest').NBest
    cap = e.choice('N', tuple(range(1, maxcap + 1)))
    nb = NBest(cap)
    e.check(nb.capacity() == cap, 'capacity')
    score = {}
    kept = []
    made = 0
    for i in range(n):
        op = e.choice('op%d' % i, ops)
        new = []
        if op == 'pop':
            if not kept:
                e.must_raise(IndexError, 'pop of an empty object', nb.pop_smallest)
                e.cover('pop empty')
            else:
                it, s = nb.pop_smallest()
                e.check(it in kept, 'a kept item is popped')
                e.check(s == score[it], 'with its score')
                for k in kept:
                    e.check(s <= score[k], 'the smallest is popped')
                kept = [k for k in kept if k != it]
                e.cover('pop')
        elif op == 'add':
            it = 'item%d' % made
            made += 1
            s = e.int('s%d' % i) if kind == 'int' else e.real('s%d' % i)
            nb.add(it, s)
            score[it] = s
            new = [it]
        else:
            for j in range(e.choice('many%d' % i, (0, 2))):
                it = 'item%d' % made
                made += 1
                score[it] = e.int('s%d.%d' % (i, j)) if kind == 'int' else e.real('s%d.%d' % (i, j))
                new.append(it)
            nb.addmany(iter([(it, score[it]) for it in new]))
            e.cover('many')
        # what the object says now
        best = nb.getbest()
        e.observe('best', [s for it, s in best])
        cand = kept + new
        e.check(len(best) == min(cap, len(cand)), 'number of kept items')
        e.check(len(nb) == len(best), 'len')
        e.check(nb.capacity() == cap, 'capacity')
        names = [it for it, s in best]
        e.check(len(set(names)) == len(names), 'each item once')
        for it, s in best:
            e.check(it in cand, 'only added items')
            e.check(s == score[it], 'an item keeps its score')
        for (a, s), (b, t) in zip(best, best[1:]):
            e.check(s >= t, 'best first')
        if best:
            last = best[-1][1]
            for it in cand:
                if it not in names:
                    e.cover('dropped')
                    e.check(score[it] <= last, 'nothing better is left out')
        kept = names


def nbest_long(e, caps, free, pops):
    """many items, most of them in order; then pops"""
    NBest = e.mod('zope.index.nbest').NBest
    cap = e.choice('N', caps)
    n = cap + e.choice('more', (-1, 0, 1))
    order = e.choice('order', ('up', 'down'))
    scores = [e.int('s%d' % i) for i in range(n)]
    for a, b in zip(scores, scores[1:]):
        e.assume(a <= b if order == 'up' else a >= b)
    scores += [e.int('f%d' % i) for i in range(free)]
    nb = NBest(cap)
    pairs = [('item%d' % i, s) for i, s in enumerate(scores)]
    if e.flag('many'):
        nb.addmany(pairs)
    else:
        for it, s in pairs:
            nb.add(it, s)
    score = dict(pairs)
    left = [it for it, s in pairs]
    for i in range(pops + 1):
        best = nb.getbest()
        e.check(len(best) == min(cap, len(left)), 'number of kept items')
        e.check(len(nb) == len(best), 'len')
        names = [it for it, s in best]
        e.check(len(set(names)) == len(names), 'each item once')
        for it, s in best:
            e.check(it in left, 'only added items')
            e.check(s == score[it], 'an item keeps its score')
        for (a, s), (b, t) in zip(best, best[1:]):
            e.check(s >= t, 'best first')
        for it in left:
            if it not in names:
                e.cover('dropped')
                e.check(score[it] <= best[-1][1], 'nothing better is left out')
        if i < pops and names:
            it, s = nb.pop_smallest()
            e.check(it in names, 'a kept item is popped')
            e.check(s == score[it], 'with its score')
            e.check(s == best[-1][1], 'the smallest is popped')
            left = [x for x in names if x != it]
        else:
            left = names


class Thing:
    """an item that can be neither hashed nor ordered"""
    __hash__ = None

    def __init__(self, n):
        self.n = n


def nbest_same(e, n, maxcap):
    """items may repeat"""
    NBest = e.mod('zope.index.nbest').NBest
    cap = e.choice('N', tuple(range(1, maxcap + 1)))
    things = [Thing(0), Thing(1)]
    nb = NBest(cap)
    kept = []
    for i in range(n):
        if i and e.pick('pop%d' % i, 2):
            if kept:
                it, s = nb.pop_smallest()
                for a, t in kept:
                    e.check(s <= t, 'the smallest is popped')
                rest = take(e, kept, it, s, 'a kept pair is popped')
                e.cover('pop')
            else:
                rest = []
            cand = rest
        else:
            it, s = things[e.pick('item%d' % i, 2)], e.int('s%d' % i)
            nb.add(it, s)
            cand = kept + [(it, s)]
        best = nb.getbest()
        e.observe('best', [(it.n, s) for it, s in best])
        e.check(len(best) == min(cap, len(cand)), 'number of kept items')
        e.check(len(nb) == len(best), 'len')
        left = cand
        for it, s in best:
            left = take(e, left, it, s, 'only added pairs, each as often as added')
        for (a, s), (b, t) in zip(best, best[1:]):
            e.check(s >= t, 'best first')
        for a, s in left:
            e.cover('dropped')
            e.check(s <= best[-1][1], 'nothing better is left out')
        kept = best


def take(e, pairs, it, s, msg):
    for j, (a, t) in enumerate(pairs):
        if a is it and s == t:
            return pairs[:j] + pairs[j + 1:]
    e.check(False, msg)


def nbest_bad(e):
    NBest = e.mod('zope.index.nbest').NBest
    n = e.int('n')
    if n < 1:
        e.must_raise(ValueError, 'N below 1', NBest, n)
        e.cover('bad')
    else:
        e.check(NBest(n).capacity() == n, 'capacity')
        e.check(len(NBest(n)) == 0, 'empty')
        e.cover('good')


# ----------------------------------------------------------------- setops

def mapping(e, F, i, size, typ, vlo=1, vhi=9, klo=-2 ** 31, khi=2 ** 31 - 1, real=False):
    items = []
    for j in range(size):
        k = e.int('k%d.%d' % (i, j), klo, khi)
        for k2, v in items:
            e.assume(k > k2)
        v = e.real('v%d.%d' % (i, j)) if real else e.int('v%d.%d' % (i, j), vlo, vhi)
        items.append((k, v))
    m = F.BTree() if typ == 'BTree' else F.Bucket()
    for k, v in items:
        m[k] = v
    return m, items


WEIGHTS = (1, 2, 0.5)


def setops(e, op, n, sizes, types=('Bucket',), weights=WEIGHTS, none=False, bits=32, real=False, shuffle=False):
    so = e.mod('zope.index.text.setops')
    family = e.family(bits)
    F = family.IF
    spec, L = [], []
    for i in range(n):
        if none and e.flag('none%d' % i):
            L.append((None, 1))
            continue
        t = types[i % len(types)]
        m, items = mapping(e, F, i, e.choice('size%d' % i, sizes), t, real=real,
                           klo=-2 ** (bits - 1), khi=2 ** (bits - 1) - 1)
        w = e.choice('w%d' % i, weights) if weights else e.real('w%d' % i)
        L.append((m, w))
        spec.append((m, items, w))
    fn = so.mass_weightedUnion if op == 'union' else so.mass_weightedIntersection
    if bits == 32 and e.flag('deffam'):
        r = fn(L)
    else:
        r = fn(L, family)
    # expected: sum over the mappings holding the key
    want = []
    for m, items, w in spec:
        for k, v in items:
            if any(k == q for q, x in want):
                continue
            total, count = 0, 0
            for m2, items2, w2 in spec:
                for k2, v2 in items2:
                    if k2 == k:
                        total = total + w2 * v2
                        count += 1
            if op == 'union' or count == len(spec):
                want.append((k, total))
    got = e.pairs(r)
    e.observe('result', ('sorted', got))
    e.check(len(got) == len(want), 'number of keys')
    for k, t in want:
        hit = [v for q, v in got if q == k]
        e.check(len(hit) == 1, 'key present')
        e.check(hit[0] == t, 'weighted sum')
    for m, items, w in spec:
        e.check([list(x) for x in m.items()] == [list(x) for x in items], 'input unchanged')
    if len(want) > 1:
        e.cover('several keys')
    if not want:
        e.cover('empty')


def none_eq(a, b):
    return a == b


# ---------------------------------------------------------------- widcode

MAXWID = 2 ** 28 - 1


def widcode(e, lens, hi=MAXWID):
    w = e.mod('zope.index.text.widcode')
    n = e.choice('n', lens)
    wids = [e.int('w%d' % i, 0, hi) for i in range(n)]
    code = w.encode(wids)
    e.observe('code', code)
    back = w.decode(code)
    e.observe('decoded', back)
    e.check(len(back) == n, 'number of decoded ids')
    for a, b in zip(wids, back):
        e.check(a == b, 'decode(encode(wids)) == wids')
    parts = [w.encode([x]) for x in wids]
    e.check(''.join(parts) == code, 'concatenation of the single encodings')
    for p in parts:
        e.check(len(p) >= 1, 'not empty')
        e.check(0x80 <= ord(p[0]) and ord(p[0]) <= 0xff, 'first character has the high bit')
        for c in p[1:]:
            e.check(ord(c) < 0x80, 'other characters do not')
    for i in range(n):
        for j in range(n):
            if len(parts[i]) > len(parts[j]):
                e.check(wids[i] > wids[j], 'smaller ids take no more characters')
    if n and len(parts[0]) == 4:
        e.cover('four characters')


def widcode_find(e, hi=MAXWID):
    """the code of a list occurs in another code only at an id boundary ... of its first id"""
    w = e.mod('zope.index.text.widcode')
    a, b = e.int('a', 0, hi), e.int('b', 0, hi)
    if a == b:
        e.check(w.encode([a]) == w.encode([b]), 'equal ids have equal codes')
    else:
        e.check(w.encode([a]) != w.encode([b]), 'different ids have different codes')


# ------------------------------------------------------------------- rice

def rice_value(e, name, m, maxq, window):
    q = e.choice(name + 'q', tuple(range(maxq + 1)))
    if window is None or 2 ** m <= window:
        r = e.int(name + 'r', 0, 2 ** m - 1)
    else:
        half = window // 2
        place = e.choice(name + 'p', ('low', 'mid', 'high'))
        base = {'low': 0, 'mid': 2 ** (m - 1) - half // 2, 'high': 2 ** m - half}[place]
        r = e.int(name + 'r', 0, half - 1) + base
    return q * 2 ** m + r + 1


def rice(e, ms, lens, maxq, window=None):
    rc = e.mod('zope.index.text.ricecode')
    m = e.choice('m', ms)
    n = e.choice('n', lens)
    vals = [rice_value(e, 'x%d' % i, m, maxq, window) for i in range(n)]
    c = rc.encode(m, list(vals))
    e.check(len(c) == n, 'len')
    back = c.tolist()
    e.observe('back', back)
    e.check(len(back) == n, 'number of elements')
    for a, b in zip(vals, back):
        e.check(a == b, 'round trip')
    # appending one by one gives the same code
    d = rc.RiceCode(m)
    for v in vals:
        d.append(v)
    e.check(list(d.tostring()) == list(c.tostring()), 'same bytes')


def rice_bad(e, ms):
    rc = e.mod('zope.index.text.ricecode')
    m = e.choice('m', ms)
    c = rc.RiceCode(m)
    good = e.int('good', 1, 3)
    c.append(good)
    before = list(c.tostring())
    bad = e.int('bad', None, 0)
    e.must_raise(ValueError, 'values below 1', c.append, bad)
    e.check(len(c) == 1, 'len unchanged')
    e.check(list(c.tostring()) == before, 'bytes unchanged')
    e.check(c.tolist() == [good], 'list unchanged')
    e.must_raise(ValueError, 'values below 1 (encode)', rc.encode, m, [good, bad])


def rice_badm(e):
    rc = e.mod('zope.index.text.ricecode')
    m = e.int('m')
    e.assume(e.or_(m < 0, m > 16))
    e.must_raise(ValueError, 'm outside 0..16', rc.RiceCode, m)
    e.must_raise(ValueError, 'm outside 0..16 (encode)', rc.encode, m, [1])


def bits(e, lens):
    rc = e.mod('zope.index.text.ricecode')
    n = e.choice('n', lens)
    b = rc.BitArray()
    vals = []
    for i in range(n):
        v = e.bool('b%d' % i) if i % 3 else e.int('b%d' % i, 0, 300)
        b.append(v)
        vals.append(v)
    e.check(len(b) == n, 'len')
    for i in range(n):
        e.check(b[i] == (1 if vals[i] else 0), 'bit read back')
    s = list(b.tostring())
    e.observe('bytes', s)
    e.check(len(s) == (n + 7) // 8, 'number of bytes')
    for i in range(n, 8 * len(s)):
        e.check(b[i] == 0, 'unused bits are zero')
    want = [0] * len(s)
    for i in range(n):
        if vals[i]:
            want[i // 8] += 2 ** (i % 8)
    e.check(s == want, 'bytes hold the bits')
    if n:
        k = e.pick('k', n)
        x = e.flag('x')
        b[k] = x
        for i in range(n):
            e.check(b[i] == (1 if (x if i == k else vals[i]) else 0), 'setting one bit')


def pickled(e, ms, lens, more):
    """a code stored and loaded again (the tests fix that its length is lost)"""
    rc = e.mod('zope.index.text.ricecode')
    m = e.choice('m', ms)
    vals = [rice_value(e, 'x%d' % i, m, 1, 8) for i in range(e.choice('n', lens))]
    c = rc.RiceCode(m)
    for v in vals:
        c.append(v)
    d = e.pickled(c)
    e.check(d.m == m, 'm of a pickled code')
    e.check(list(d.tostring()) == list(c.tostring()), 'bytes of a pickled code')
    b = e.pickled(c.bits)
    e.check(len(b) == len(c.bits), 'number of bits of a pickled array')
    e.check(all([b[i] == c.bits[i] for i in range(len(b))]), 'bits of a pickled array')
    e.observe('bytes', list(d.tostring()))
    for i in range(more):
        v = rice_value(e, 'y%d' % i, m, 1, 8)
        c.append(v)
        d.append(v)
        b.append(v - 1)
        e.check(b[len(b) - 1] == (1 if v > 1 else 0), 'a bit appended to a pickled array')
    e.check(list(d.tostring()) == list(c.tostring()), 'bytes of a pickled code after more values')
    e.check(len(d.bits) == len(c.bits), 'bits of a pickled code after more values')
    e.check(len(b.tostring()) == (len(b) + 7) // 8, 'bytes of a pickled array after more bits')


def bits_long(e, lens):
    """a long run of bits, two of them symbolic"""
    rc = e.mod('zope.index.text.ricecode')
    n = e.choice('n', lens)
    pat = e.choice('pattern', (0, 1, 0b0110, 0b1011))
    b = rc.BitArray()
    vals = []
    a = e.pick('place', n) if n else 0
    for i in range(n):
        v = e.bool('b%d' % i) if i == a or i == n - 1 else bool(pat >> (i % 4) & 1) if pat > 1 else bool(pat)
        b.append(v)
        vals.append(v)
    e.check(len(b) == n, 'len')
    for i in range(n):
        e.check(b[i] == (1 if vals[i] else 0), 'bit read back')
    s = list(b.tostring())
    e.check(len(s) == (n + 7) // 8, 'number of bytes')
    want = [0] * len(s)
    for i in range(n):
        if vals[i]:
            want[i // 8] += 2 ** (i % 8)
    e.check(s == want, 'bytes hold the bits, the unused ones are zero')


def rice_long(e, ms, lens):
    """many values, the last two symbolic"""
    rc = e.mod('zope.index.text.ricecode')
    m = e.choice('m', ms)
    n = e.choice('n', lens)
    vals = [1 + (i * 7) % (2 ** m + 2) for i in range(n)] + [rice_value(e, 'x%d' % i, m, 2, 8) for i in range(2)]
    c = rc.encode(m, list(vals))
    e.check(len(c) == n + 2, 'len')
    back = c.tolist()
    e.check(len(back) == n + 2, 'number of elements')
    for a, b in zip(vals, back):
        e.check(a == b, 'round trip')
    back2 = c.tolist()
    e.check(back2 == back, 'the same again')
    s = list(c.tostring())
    total = sum([(x - 1) // 2 ** m + 1 + m for x in vals])
    e.check(len(s) == (total + 7) // 8, 'number of bytes')
    if s and total % 8:
        e.check(s[-1] // 2 ** (total % 8) == 0, 'unused trailing bits are zero')


def deltas(e, lens, ranges):
    rc = e.mod('zope.index.text.ricecode')
    n = e.choice('n', lens)
    l = [e.int('x0')]
    for i in range(1, n):
        lo, hi = e.choice('range%d' % i, ranges)
        l.append(l[-1] + e.int('delta%d' % i, lo, hi))
    start, enc = rc.encode_deltas(list(l))
    back = rc.decode_deltas(start, enc)
    e.observe('back', back)
    e.check(len(back) == n, 'number of elements')
    for a, b in zip(l, back):
        e.check(a == b, 'round trip')
