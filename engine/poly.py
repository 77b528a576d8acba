"""Sparse multivariate polynomials with integer coefficients.

A polynomial is a dict {monomial: coefficient}; a monomial packs the exponents
of all variables in one python int (W bits per variable, variable 0 is the
imaginary unit).  Variables may carry a *square rule* v**2 -> polynomial (the
imaginary unit, square roots and moduli are represented that way) or a
*substitution rule* v -> polynomial (equalities assumed on the current path).
All rules live in the current VarTable.
"""
import heapq
from math import gcd

W = 16
FM = (1 << W) - 1


class Explosion(Exception):
    """an intermediate polynomial became larger than the stated bound"""


MAXTERMS = 120000


class VarTable:
    def __init__(self):
        self.vars = []            # Var
        self.sq = {}              # idx -> poly       v**2 -> poly
        self.sub = {}             # idx -> poly       v -> poly
        self.sqmask = 0
        self.submask = 0
        self.fac = []             # interned denominator factors (poly dicts)
        self.faci = {}            # frozenset(items) -> factor id
        self.facmask = []

    def mask(self, idx):
        return FM << (W * idx)


VT = VarTable()


def set_table(t):
    global VT
    VT = t


# --------------------------------------------------------------------------
def mono(idx, e=1):
    return e << (W * idx)


def pconst(c):
    return {0: c} if c else {}


def pvar(idx, e=1):
    return {mono(idx, e): 1}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for k, c in b.items():
        s = r.get(k, 0) + c
        if s:
            r[k] = s
        else:
            r.pop(k, None)
    return r


def psub(a, b):
    r = dict(a)
    for k, c in b.items():
        s = r.get(k, 0) - c
        if s:
            r[k] = s
        else:
            r.pop(k, None)
    return r


def pscale(a, c):
    if c == 1:
        return a
    if c == 0:
        return {}
    return {k: v * c for k, v in a.items()}


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def _rawmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 40 * MAXTERMS:
        raise Explosion('product %dx%d' % (len(a), len(b)))
    r = {}
    get = r.get
    for k1, c1 in a.items():
        for k2, c2 in b.items():
            k = k1 + k2
            r[k] = get(k, 0) + c1 * c2
    return r


def pmul(a, b):
    if not a or not b:
        return {}
    r = _rawmul(a, b)
    return reduce_(r)


def reduce_(r):
    """apply the rules of the current table until none applies"""
    m = VT.sqmask | VT.submask
    out = {}
    todo = r
    while True:
        nxt = {}
        for k, c in todo.items():
            if not c:
                continue
            if k & m:
                _apply(k, c, nxt)
            else:
                s = out.get(k, 0) + c
                if s:
                    out[k] = s
                else:
                    out.pop(k, None)
        if not nxt:
            break
        todo = nxt
    if len(out) > MAXTERMS:
        raise Explosion('%d terms' % len(out))
    return out


def _apply(k, c, nxt):
    # imaginary unit first (cheap)
    e = k & FM
    if e >= 2:
        q = e >> 1
        k -= q << 1
        if q & 1:
            c = -c
        if not (k & (VT.sqmask | VT.submask)):
            nxt[k] = nxt.get(k, 0) + c
            return
    for idx, p in VT.sub.items():
        sh = W * idx
        e = (k >> sh) & FM
        if e:
            k -= e << sh
            t = {k: c}
            for _ in range(e):
                t = _rawmul(t, p)
            for kk, cc in t.items():
                nxt[kk] = nxt.get(kk, 0) + cc
            return
    for idx, p in VT.sq.items():
        if idx == 0:
            continue
        sh = W * idx
        e = (k >> sh) & FM
        if e >= 2:
            q = e >> 1
            k -= (q << 1) << sh
            t = {k: c}
            for _ in range(q):
                t = _rawmul(t, p)
            for kk, cc in t.items():
                nxt[kk] = nxt.get(kk, 0) + cc
            return
    nxt[k] = nxt.get(k, 0) + c


def divides_mono(d, k):
    """monomial d divides monomial k ?"""
    while d:
        if (d & FM) > (k & FM):
            return False
        d >>= W
        k >>= W
    return True


def mono_gcd(a):
    """the largest monomial dividing every term of a"""
    it = iter(a)
    g = next(it)
    for k in it:
        if not g:
            return 0
        r = 0
        sh = 0
        x, y = g, k
        while x and y:
            ex, ey = x & FM, y & FM
            r |= (ex if ex < ey else ey) << sh
            sh += W
            x >>= W
            y >>= W
        g = r
    return g


def pmonodiv(a, m):
    return {k - m: c for k, c in a.items()}


def has_I(a):
    for k in a:
        if k & FM:
            return True
    return False


def pconjI(a):
    return {k: (-c if (k & 1) else c) for k, c in a.items()}


def pdivexact(a, d, limit=20000):
    """a / d if the division is exact, else None (rules treated as absent)."""
    if not a:
        return {}
    if len(d) == 1:
        (m, c), = d.items()
        r = {}
        for k, v in a.items():
            if v % c or not divides_mono(m, k):
                return None
            r[k - m] = v // c
        return r
    if len(a) < 2:
        return None
    if has_I(d):
        dc = pconjI(d)
        n = pmul(d, dc)
        if has_I(n):
            return None
        return pdivexact(pmul(a, dc), n, limit)
    lm = max(d)
    lc = d[lm]
    la = max(a)
    if not divides_mono(lm, la):
        return None
    ta, td = min(a), min(d)
    if not divides_mono(td, ta):
        return None
    rem = dict(a)
    heap = [-k for k in rem]
    heapq.heapify(heap)
    q = {}
    ditems = [(k, c) for k, c in d.items() if k != lm]
    steps = 0
    while heap:
        k = -heapq.heappop(heap)
        c = rem.pop(k, 0)
        if not c:
            continue
        if c % lc or not divides_mono(lm, k):
            return None
        qk = k - lm
        qc = c // lc
        q[qk] = qc
        steps += 1
        if steps * len(ditems) > 400000 or len(q) > limit:
            return None
        for dk, dc in ditems:
            kk = qk + dk
            if kk in rem:
                rem[kk] -= qc * dc
            else:
                rem[kk] = -qc * dc
                heapq.heappush(heap, -kk)
    return q


def pvars(a):
    """indices of variables occurring in a"""
    o = 0
    for k in a:
        o |= k
    s = set()
    i = 0
    while o:
        if o & FM:
            s.add(i)
        o >>= W
        i += 1
    return s


def psqrt(a):
    """polynomial square root or None (a without I)."""
    if not a:
        return {}
    lm = max(a)
    lc = a[lm]
    from math import isqrt
    if lc < 0:
        return None
    r = isqrt(lc)
    if r * r != lc:
        return None
    # halve exponents
    m, sh, x = 0, 0, lm
    while x:
        e = x & FM
        if e & 1:
            return None
        m |= (e >> 1) << sh
        sh += W
        x >>= W
    root = {m: r}
    rem = psub(a, {lm: lc})
    n = 0
    while rem:
        n += 1
        if n > 400:
            return None
        k = max(rem)
        if not divides_mono(m, k) or rem[k] % (2 * r):
            return None
        t = {k - m: rem[k] // (2 * r)}
        if k - m in root or k - m >= m:
            return None
        # (root+t)^2 = root^2 + 2 root t + t^2
        rem = psub(rem, pscale(_rawmul(root, t), 2))
        rem = psub(rem, _rawmul(t, t))
        root = padd(root, t)
    return root
