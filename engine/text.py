"""numbers inside text: formatting a symbolic number yields a token that the
symbolic float() reads back as the number rounded to the printed digits."""
import re
from fractions import Fraction
from . import sym as S
from . import funcs as F
from .sym import Sym, Unsupported

OPEN, CLOSE = '\ue000', '\ue001'
_tokens = {}
_n = [0]
# numbers printed with at least this many decimals are taken as exact (None: none)
EXACT = [None]


def reset():
    EXACT[0] = None
    _tokens.clear()
    _n[0] = 0


def token(v):
    _n[0] += 1
    k = '%d' % _n[0]
    _tokens[k] = v
    return OPEN + k + CLOSE


_SPEC = re.compile(r'^(?:(.)?([<>=^]))?([+\- ]?)(#?)(0?)(\d+)?([_,])?(?:\.(\d+))?([a-zA-Z%])?$')


def fmt(x, spec):
    if x.isconst():
        if x.k == 'c':
            return format(complex(x), spec)
        v = x.cval()
        if x.k == 'i':
            return format(int(v), spec)
        return format(float(v), spec)
    m = _SPEC.match(spec)
    if x.k == 'c':
        return token(x)
    if not m:
        raise Unsupported('format %r' % spec)
    fill, align, sign, alt, zero, width, sep, prec, typ = m.groups()
    if typ in ('f', 'F'):
        v = ('fix', x, int(prec) if prec is not None else 6)
    elif typ in ('e', 'E', 'g', 'G'):
        v = ('sig', x, int(prec) if prec is not None else 6)
    elif typ in (None, ''):
        v = ('exact', x, None)
    elif typ == 'd':
        v = ('exact', Sym.const(int(x)), None)
    else:
        raise Unsupported('format %r' % spec)
    t = token(v)
    if width:
        w = int(width)
        pad = ' ' * max(0, w - len(t))
        t = t + pad if align == '<' else pad + t
    return t


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([hlL]?)([a-zA-Z%])')


def hassym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, (tuple, list)):
        return any(hassym(x) for x in a)
    if isinstance(a, dict):
        return any(hassym(x) for x in a.values())
    import numpy as np
    return isinstance(a, np.ndarray) and a.dtype == object and a.shape == ()


def percent(s, args):
    """s % args with symbolic arguments"""
    import numpy as np

    def flat(a):
        return a.item() if isinstance(a, np.ndarray) and a.shape == () else a
    d = None
    if isinstance(args, dict):
        d = args
        seq = []
    elif isinstance(args, tuple):
        seq = [flat(a) for a in args]
    else:
        seq = [flat(args)]
    pos = [0]

    def nxt():
        if pos[0] >= len(seq):
            raise TypeError('not enough arguments for format string')
        v = seq[pos[0]]
        pos[0] += 1
        return v

    def rep(m):
        name, flags, width, prec, _, typ = m.groups()
        if typ == '%':
            return '%'
        if width == '*':
            width = str(int(nxt()))
        if prec == '*':
            prec = str(int(nxt()))
        v = d[name] if name is not None and d is not None else nxt()
        v = flat(v)
        if not isinstance(v, Sym):
            return ('%' + flags + (width or '') + ('.' + prec if prec is not None
                                                   else '') + typ) % (v,)
        if typ in 'di':
            if v.isreal_const():
                return ('%' + flags + (width or '') + typ) % (int(v),)
            return token(('exact', S.lift(int(v)), None))
        if v.k == 'c' and typ in 'eEfFgG':
            raise TypeError('must be real number, not complex')
        if typ in 'sr':
            t = fmt(v, '')
        else:
            if v.isconst():
                return ('%' + flags + (width or '') + ('.' + prec if prec is not
                                                       None else '') + typ) % (
                                                           float(v.cval()),)
            t = token(('fix' if typ in 'fF' else 'sig', v,
                       int(prec) if prec is not None else 6))
        if width:
            w = int(width)
            pad = ' ' * max(0, w - len(t))
            t = t + pad if '-' in flags else pad + t
        return t
    r = _PCT.sub(rep, s)
    if d is None and pos[0] < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    return r


def parse(s):
    """float(str)"""
    t = s.strip()
    if OPEN not in t:
        v = float(t)
        if v != v or v in (float('inf'), float('-inf')):
            return v
        return Sym.const(Fraction(_dec(t)), 'f')
    sg = 1
    while t and t[0] in '+-':
        sg = -sg if t[0] == '-' else sg
        t = t[1:]
    if not (t.startswith(OPEN) and t.endswith(CLOSE)) or t.count(OPEN) != 1:
        raise ValueError('could not convert string to float: %r' % s)
    v = _tokens[t[1:-1]]
    if isinstance(v, Sym):
        if v.k == 'c':
            raise ValueError('could not convert string to float: complex')
        r = v
    else:
        kind, x, nd = v
        if kind == 'exact' or EXACT[0] is not None and nd >= EXACT[0]:
            r = x
        elif kind == 'fix':
            r = F.rounded(x, nd)
        else:
            t_ = S.T()
            key = ('sig', frozenset(x.n.items()), x.q, x.d, nd)
            w = t_.key.get(key)
            if w is None:
                w = t_.new('rel%d' % len(t_.vars), 'real')
                h = Fraction(1, 10 ** nd)
                w.lo, w.hi = -h, h
                w.ev = lambda env: 0j
                t_.key[key] = w
            from . import poly as P
            r = x * (1 + Sym(P.pvar(w.idx), 1, (), 'f'))
    r = r.withkind('f')
    return -r if sg < 0 else r


def _dec(t):
    t = t.replace('_', '')
    return t


def valtoken(x):
    """a token standing for a numeral with exactly the value x (harness input)"""
    if isinstance(x, Sym):
        if x.isconst():
            return repr(float(x.cval()))
        return token(('exact', x, None))
    return repr(float(x))
