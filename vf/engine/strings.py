"""
Texts as ropes of literals, opaque texts and numerals.

Everything here is a model of CPython's str (and of float() and int() of
texts, and of % formatting). It is exact on literals; on opaque texts each
operation is an uninterpreted function, with the axioms given below.
"""
import re
import z3
from .core import *


def parts_of(v):
    if isinstance(v, SStr):
        return v.parts
    if isinstance(v, str):
        return (str(v),) if v != '' else ()
    raise Unsupported(f'text expected: {v!r}')


def is_str(v):
    return isinstance(v, (str, SStr))


def opaque(cx, base='s'):
    return SStr([StrAtom(cx.str(base))])


def from_term(t):
    return SStr([StrAtom(t)])


def concat(*vs):
    return mkstr([p for v in vs for p in parts_of(v)])


# functions on opaque texts. For literals they're computed.
def _host(name, args):
    if name == 'last':
        return lambda s: s[-1] if s else None
    if name == 'init':
        return lambda s: s[:-1]
    if name == 'first':
        return lambda s: s[0] if s else None
    if name == 'tail':
        return lambda s: s[1:]
    if name == 'sub':
        return lambda s: re.sub(args[0], args[1], s, flags=args[2])
    return lambda s: getattr(s, name)(*args)


_FNS = {}


def ufn(name, args=()):
    key = (name, args)
    if key not in _FNS:
        label = name if not args else f'{name}({",".join(map(repr, args))})'
        _FNS[key] = z3.Function('str.' + label, Str, Str)
    return _FNS[key]


IDEMPOTENT = ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'replace')


def literal_axioms(cx, s, t):
    if s == '':
        cx.axiom(FVALID(t) == 0, z3.Not(IVALID(t)))
    for (name, args), f in list(_FNS.items()):
        r = _host(name, args)(s)
        if r is not None and (name, args) in cx.memo.get('fns', {}):
            cx.axiom(f(t) == cx.lit(r))


def apply_fn(cx, name, v, args=()):
    """an opaque text's .strip(), .lower() and so on"""
    p = parts_of(v)
    if all(isinstance(x, str) for x in p):
        return _host(name, args)(''.join(p))
    if not (name in ('strip', 'lstrip', 'rstrip') and not args):
        not_a_numeral(v)
    t = term(cx, v)
    f = ufn(name, args)
    fns = cx.memo.setdefault('fns', {})
    if (name, args) not in fns:
        fns[(name, args)] = True
        for s in list(cx.lits):
            r = _host(name, args)(s)
            if r is not None:
                cx.axiom(f(cx.lits[s]) == cx.lit(r))
        for s in ('',):
            cx.lit(s)
    r = f(t)
    cx.keep.append(r)
    if name in IDEMPOTENT and not (name == 'replace' and (args[0] in args[1] or len(args) > 2)):
        cx.axiom(f(r) == r)
    if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace') and not args:
        # nothing comes from nothing
        if name in ('lower', 'upper'):
            cx.axiom((r == cx.lit('')) == (t == cx.lit('')))
        else:
            cx.axiom(z3.Implies(t == cx.lit(''), r == cx.lit('')))
    if name in ('strip', 'lstrip', 'rstrip') and not args:
        # float() and int() don't mind spaces around
        cx.axiom(FVALID(r) == FVALID(t), FNUM(r) == FNUM(t), IVALID(r) == IVALID(t), INUM(r) == INUM(t))
    return from_term(r)


def term(cx, v):
    """a z3 term (sort Str) for a text"""
    p = parts_of(v)
    if not p:
        return cx.lit('')
    if len(p) == 1 and isinstance(p[0], str):
        return cx.lit(p[0])
    if len(p) == 1 and isinstance(p[0], StrAtom):
        return p[0].z
    # a rope: a function of its atoms
    shape = []
    args = []
    for x in p:
        if isinstance(x, str):
            shape.append(repr(x))
        elif isinstance(x, StrAtom):
            shape.append('%s')
            args.append(x.z)
        else:
            shape.append('%' + x.kind)
            args.append(x.val)
    f = z3.Function('rope:' + '+'.join(shape), *[a.sort() for a in args], Str)
    t = f(*args)
    cx.keep.append(t)
    # a rope isn't any shorter than its literals and numerals
    m = min_len(v)
    if m > 0:
        cx.axiom(t != cx.lit(''))
    return t


# two hex digits: in lower case, in upper case, in any case
HEX = ('hex2', 'HEX2', 'hex2m')


def min_len(v):
    n = 0
    for p in parts_of(v):
        if isinstance(p, str):
            n += len(p)
        elif isinstance(p, NumAtom):
            n += 2 if p.kind in HEX else 1
        elif p.char:
            n += 1
    return n


def cancel(pa, pb):
    """two ropes without what both begin and end with; None if they can't be equal"""
    pa, pb = list(pa), list(pb)
    for end in (0, -1):
        while pa and pb:
            x, y = pa[end], pb[end]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if (x[:n] != y[:n]) if end == 0 else (x[len(x)-n:] != y[len(y)-n:]):
                    return None
                for p, z in ((pa, x), (pb, y)):
                    rest = z[n:] if end == 0 else z[:len(z)-n]
                    if rest:
                        p[end] = rest
                    else:
                        del p[end]
            elif not isinstance(x, str) and not isinstance(y, str) and SStr([x]).key() == SStr([y]).key():
                del pa[end]
                del pb[end]
            else:
                break
    return pa, pb


def eq(cx, a, b):
    """equality of two texts: bool or z3"""
    pa, pb = parts_of(a), parts_of(b)
    if not (len(pa) == 1 and len(pb) == 1):
        r = cancel(pa, pb)
        if r is None:
            return False
        pa, pb = map(tuple, r)
        a, b = mkstr(pa), mkstr(pb)
        pa, pb = parts_of(a), parts_of(b)
    la = all(isinstance(x, str) for x in pa)
    lb = all(isinstance(x, str) for x in pb)
    if la and lb:
        return ''.join(pa) == ''.join(pb)
    if SStr(pa).key() == SStr(pb).key():
        return True
    if len(pa) == len(pb) and all(
            isinstance(x, str) and x == y or isinstance(x, NumAtom) and isinstance(y, NumAtom) and x.kind == y.kind and x.kind in ('hex2', 'HEX2', 'int')
            for x, y in zip(pa, pb)):
        # numerals of the same kind, one at a known place or all two digits long
        nums = [(x, y) for x, y in zip(pa, pb) if isinstance(x, NumAtom)]
        if len(nums) == 1 or all(x.kind != 'int' for x, y in nums):
            return z3.And(*[x.val == y.val for x, y in nums])
    for (p, l, o) in ((pa, la, pb), (pb, lb, pa)):
        if l:
            s = ''.join(p)
            if min_len(mkstr(o)) > len(s):
                return False
            if not any(isinstance(x, StrAtom) for x in o):
                # a rope of literals and numerals against a literal
                return match_literal(cx, o, s)
            # first and last literal characters
            if isinstance(o[0], str) and not s.startswith(o[0]):
                return False
            if isinstance(o[-1], str) and not s.endswith(o[-1]):
                return False
    return term(cx, a) == term(cx, b)


def match_literal(cx, parts, s):
    """could a rope of literals and numerals be exactly s?"""
    pat = ''
    nums = []
    for p in parts:
        if isinstance(p, str):
            pat += re.escape(p)
        else:
            nums.append(p)
            pat += {'hex2': '([0-9a-f]{2})', 'HEX2': '([0-9A-F]{2})', 'hex2m': '([0-9A-Fa-f]{2})', 'int': '([0-9]+)'}.get(p.kind, r'([0-9.e+\-]+)')
    m = re.fullmatch(pat, s)
    if not m:
        return False
    if len(nums) == 1 and nums[0].kind in ('int',) and str(int(m.group(1))) == m.group(1):
        return nums[0].val == rv(int(m.group(1)))
    return term(cx, mkstr(parts)) == cx.lit(s)


def truth(cx, v):
    p = parts_of(v)
    if not p:
        return False
    if min_len(v) > 0:
        return True
    return term(cx, v) != cx.lit('')


def known_char(cx, v):
    p = parts_of(v)
    return len(p) == 1 and isinstance(p[0], StrAtom) and p[0].char


def index(cx, v, i):
    p = parts_of(v)
    if isinstance(v, str):
        try:
            return v[i]
        except IndexError:
            raise PyRaise(IndexError, ('string index out of range',))
    if i == -1:
        if isinstance(p[-1], str):
            return p[-1][-1]
        if len(p) == 1 and isinstance(p[0], StrAtom):
            if cx.branch(p[0].z == cx.lit('')):
                raise PyRaise(IndexError, ('string index out of range',))
            r = apply_fn(cx, 'last', v)
            return SStr([StrAtom(term(cx, r), char=True)])
    if i >= 0:
        n = 0
        for x in p:
            if isinstance(x, str):
                if i < n+len(x):
                    return x[i-n]
                n += len(x)
            elif isinstance(x, StrAtom) and x.char:
                if i == n:
                    return mkstr([x])
                n += 1
            else:
                break
        if i == 0 and len(p) == 1 and isinstance(p[0], StrAtom):
            if cx.branch(p[0].z == cx.lit('')):
                raise PyRaise(IndexError, ('string index out of range',))
            r = apply_fn(cx, 'first', v)
            return SStr([StrAtom(term(cx, r), char=True)])
    raise Unsupported(f'index {i} of {v!r}')


def slice_(cx, v, lo, hi, step):
    if isinstance(v, str) and not isinstance(lo, Sym) and not isinstance(hi, Sym):
        return v[lo:hi:step]
    if step not in (None, 1):
        raise Unsupported('slice with a step')
    if isinstance(lo, Sym) or isinstance(hi, Sym):
        return slice_at(cx, v, lo, hi)
    p = list(parts_of(v))
    if lo in (None, 0) and hi is None:
        return v
    # all positions known?
    chars = []
    known = True
    for x in p:
        if isinstance(x, str):
            chars.extend(x)
        elif isinstance(x, StrAtom) and x.char:
            chars.append(x)
        elif isinstance(x, NumAtom) and x.kind in HEX:
            chars.append((x, 0))
            chars.append((x, 1))
        else:
            known = False
            break
    if known:
        out = chars[lo:hi]
        parts = []
        i = 0
        while i < len(out):
            c = out[i]
            if isinstance(c, tuple):
                if c[1] == 0 and i+1 < len(out) and isinstance(out[i+1], tuple) and out[i+1][0] is c[0]:
                    parts.append(c[0])
                    i += 2
                    continue
                raise Unsupported('half a hex byte')
            parts.append(c)
            i += 1
        return mkstr(parts)
    if lo in (None, 0) and hi is not None and hi < 0:
        n = -hi
        while n and p and isinstance(p[-1], str):
            k = min(n, len(p[-1]))
            p[-1] = p[-1][:-k]
            n -= k
            if p[-1] == '':
                p.pop()
        if n == 0:
            return mkstr(p)
        if n == 1 and len(p) == 1 and isinstance(p[0], StrAtom):
            return apply_fn(cx, 'init', mkstr(p))
        if n == 1 and p and isinstance(p[-1], NumAtom) and p[-1].kind == 'dot' and cx.entails(z3.IsInt(p[-1].val)):
            p[-1] = NumAtom('strip', p[-1].val, p[-1].integral)
            return mkstr(p)
    if hi is None and lo is not None and lo > 0:
        n = lo
        while n and p and isinstance(p[0], str):
            k = min(n, len(p[0]))
            p[0] = p[0][k:]
            n -= k
            if p[0] == '':
                p.pop(0)
        if n == 0:
            return mkstr(p)
        if n == 1 and len(p) == 1 and isinstance(p[0], StrAtom):
            return apply_fn(cx, 'tail', mkstr(p))
    raise Unsupported(f'slice of {v!r}')


FROM = z3.Function('str.from', Str, z3.IntSort(), Str)
UPTO = z3.Function('str.upto', Str, z3.IntSort(), Str)


def slice_at(cx, v, lo, hi):
    """cut at a place which isn't a known number: between the parts, if that's certain"""
    if not all(x is None or isinstance(x, (int, SInt)) for x in (lo, hi)) or lo not in (None, 0) and hi is not None:
        raise Unsupported('slice')
    at = zint(hi if hi is not None else lo)
    p = parts_of(v)
    n = z3.IntVal(0)
    for k in range(len(p)+1):
        if cx.entails(at == n):
            return mkstr(p[:k] if hi is not None else p[k:])
        if k < len(p):
            n = n + zint(zlength(cx, mkstr(p[k:k+1])))
    return from_term((UPTO if hi is not None else FROM)(term(cx, v), at))


def length(cx, v):
    """the length, or None if it isn't known"""
    n = 0
    for x in parts_of(v):
        if isinstance(x, str):
            n += len(x)
        elif isinstance(x, StrAtom) and x.char:
            n += 1
        elif isinstance(x, NumAtom) and x.kind in HEX:
            n += 2
        else:
            return None
    return n


LEN = z3.Function('str.len', Str, z3.IntSort())


def zlength(cx, v):
    n = length(cx, v)
    if n is not None:
        return n
    p = parts_of(v)
    t = term(cx, v)
    r = LEN(t)
    if len(p) > 1 and not any(isinstance(x, NumAtom) and x.kind not in HEX for x in p):
        n = z3.IntVal(0)
        for x in p:
            n = n + zint(zlength(cx, mkstr([x])))
        cx.axiom(r == n)
        return SInt(z3.simplify(n))
    cx.axiom(r >= min_len(v), (r == 0) == (t == cx.lit('')))
    for s in list(cx.lits):
        cx.axiom(LEN(cx.lits[s]) == len(s))
    return SInt(r)


def lacking(cx, t, chars):
    """a goal says of this text (a term) that it isn't empty and has none of those characters in it"""
    cx.memo.setdefault('lacks', {})[t.get_id()] = (t, frozenset(chars))


def lacks(cx, x, chars):
    """is it known that this atom isn't empty and has none of those characters?"""
    t = x.z
    known = cx.memo.get('lacks', {})
    while True:
        if t.get_id() in known:
            return set(chars) <= known[t.get_id()][1]
        if t.num_args() == 1 and t.decl().name() in ('str.lower', 'str.upper') and not any(c.isalpha() for c in chars):
            t = t.arg(0)
            continue
        return False


def strip(cx, v, chars=None, left=True, right=True):
    if isinstance(v, str):
        if left and right:
            return v.strip(chars)
        return v.lstrip(chars) if left else v.rstrip(chars)
    p = list(parts_of(v))
    cs = chars if chars is not None else ' \t\n\r\f\v'
    if left:
        while p and isinstance(p[0], str):
            t = p[0].lstrip(chars)
            if t == '':
                p.pop(0)
                continue
            p[0] = t
            break
    if right:
        while p and isinstance(p[-1], str):
            t = p[-1].rstrip(chars)
            if t == '':
                p.pop()
                continue
            p[-1] = t
            break
    if not p:
        return ''

    def touches(x, at_left):
        if isinstance(x, str):
            return False
        if isinstance(x, NumAtom):
            return any(c in cs for c in '0123456789.-+e') or x.kind in HEX and any(c in cs for c in 'abcdefABCDEF')
        return not lacks(cx, x, cs)
    if right and isinstance(p[-1], NumAtom) and chars is not None:
        x = p[-1]
        if chars == '0' and re.fullmatch(r'fix[1-9]\d*', x.kind):
            p[-1] = NumAtom('dot', x.val, x.integral)
            return mkstr(p)
        if chars == '0' and x.kind in ('dot',):
            return mkstr(p)
        if chars == '.' and x.kind in ('dot', 'strip'):
            p[-1] = NumAtom('strip', x.val, x.integral)
            return mkstr(p)
        if chars == '.' and (x.kind == 'int' or re.fullmatch(r'fix\d+', x.kind)):
            return mkstr(p)
        if set(chars) == {'0', '.'} and x.kind == 'strip':
            raise Unsupported('stripping zeroes of whole numbers')
    if len(p) > 1:
        # up to something which certainly stops it
        if left and isinstance(p[0], StrAtom) and touches(p[0], True) and isinstance(p[1], str) and p[1][0] not in cs:
            p[0:1] = list(parts_of(apply_fn(cx, 'lstrip', mkstr(p[:1]), () if chars is None else (chars,))))
            left = False
        if right and isinstance(p[-1], StrAtom) and touches(p[-1], False) and isinstance(p[-2], str) and p[-2][-1] not in cs:
            p[-1:] = list(parts_of(apply_fn(cx, 'rstrip', mkstr(p[-1:]), () if chars is None else (chars,))))
            right = False
    if (left and touches(p[0], True)) or (right and touches(p[-1], False)):
        if len(p) == 1 and isinstance(p[0], StrAtom):
            name = 'strip' if left and right else ('lstrip' if left else 'rstrip')
            return apply_fn(cx, name, mkstr(p), () if chars is None else (chars,))
        raise Unsupported(f'strip of {v!r}')
    return mkstr(p)


def case(cx, v, name):
    if isinstance(v, str):
        return getattr(v, name)()
    if name == 'casefold':
        name = 'lower'
        cx.run.assumptions.add('str.casefold() of an unknown text is its lower()')
    p = parts_of(v)
    if len(p) == 1 and isinstance(p[0], StrAtom):
        r = apply_fn(cx, name, v)
        return SStr([StrAtom(term(cx, r), char=p[0].char)])
    out = []
    for x in p:
        if isinstance(x, str):
            out.append(getattr(x, name)())
        elif isinstance(x, NumAtom):
            if x.kind in HEX:
                if name not in ('lower', 'upper', 'casefold'):
                    raise Unsupported('the case of hex')
                out.append(NumAtom('HEX2' if name == 'upper' else 'hex2', x.val, x.integral))
                continue
            out.append(x)
        else:
            out.extend(parts_of(case(cx, mkstr([x]), name)))
    return mkstr(out)


def startswith(cx, v, prefix):
    if isinstance(v, str) and isinstance(prefix, str):
        return v.startswith(prefix)
    if isinstance(prefix, tuple):
        for q in prefix:
            r = startswith(cx, v, q)
            if isinstance(r, bool):
                if r:
                    return True
                continue
            if cx.branch(r):
                return True
        return False
    if not isinstance(prefix, str):
        raise Unsupported('symbolic prefix')
    if prefix == '':
        return True
    p = parts_of(v)
    rest = prefix
    for x in p:
        if isinstance(x, str):
            if len(rest) <= len(x):
                return x.startswith(rest)
            if not rest.startswith(x):
                return False
            rest = rest[len(x):]
        elif isinstance(x, NumAtom):
            ok = '0123456789abcdefABCDEF' if x.kind in HEX else '0123456789.'
            if rest[0] not in ok:
                return False
            raise Unsupported('the first digit of a number')
        else:
            if x.char:
                if len(rest) == 1:
                    return x.z == cx.lit(rest)
                raise Unsupported('two first characters')
            return predicate(cx, 'startswith', x, rest)
    return False


def endswith(cx, v, suffix):
    if isinstance(v, str) and isinstance(suffix, str):
        return v.endswith(suffix)
    if isinstance(suffix, tuple):
        for q in suffix:
            if cx.branch(endswith(cx, v, q)):
                return True
        return False
    if not isinstance(suffix, str):
        raise Unsupported('symbolic suffix')
    if suffix == '':
        return True
    p = parts_of(v)
    rest = suffix
    for x in reversed(p):
        if isinstance(x, str):
            if len(rest) <= len(x):
                return x.endswith(rest)
            if not rest.endswith(x):
                return False
            rest = rest[:-len(x)]
        elif isinstance(x, NumAtom) and x.kind == 'hex2':
            if len(rest) == 2:
                if not re.fullmatch('[0-9a-f]{2}', rest):
                    return False
                return x.val == rv(int(rest, 16))
            if len(rest) > 2:
                if not re.fullmatch('[0-9a-f]{2}', rest[-2:]):
                    return False
                if not cx.branch(x.val == rv(int(rest[-2:], 16))):
                    return False
                rest = rest[:-2]
                continue
            if rest not in '0123456789abcdef':
                return False
            return z3.ToInt(x.val) % 16 == int(rest, 16)
        elif isinstance(x, NumAtom):
            if rest[-1] not in ('0123456789abcdefABCDEF' if x.kind in HEX else '0123456789.'):
                return False
            if rest[-1] == '.' and (x.kind in ('strip', 'int') or re.fullmatch(r'fix\d+', x.kind)):
                return False
            if rest == '.' and x.kind == 'dot':
                return z3.IsInt(x.val)
            raise Unsupported('the last digit of a number')
        else:
            i = max([i for i, c in enumerate(rest) if lacks(cx, x, c)], default=None)
            if i is not None:
                # all of it, and something before it
                if not cx.branch(x.z == cx.lit(rest[i+1:])):
                    return False
                rest = rest[:i+1]
                continue
            return predicate(cx, 'endswith', x, rest)
    return False


def PRED(cx, name, t, arg):
    return predicate(cx, name, StrAtom(t), arg)


def predicate(cx, name, atom, arg):
    not_a_numeral(atom)
    f = z3.Function(f'str.{name}({arg!r})', Str, z3.BoolSort())
    for s, t in list(cx.lits.items()):
        cx.axiom(f(t) == getattr(s, name)(arg))
    r = f(atom.z)
    cx.keep.append(r)
    return r


def contains(cx, needle, hay):
    """needle in hay, for texts"""
    if isinstance(needle, str) and isinstance(hay, str):
        return needle in hay
    if isinstance(hay, str):
        # one known character, or an opaque text: enumerate the substrings
        subs = sorted({hay[i:j] for i in range(len(hay)+1) for j in range(i, len(hay)+1)})
        if length(cx, needle) is not None:
            subs = [s for s in subs if len(s) == length(cx, needle)]
        if len(subs) > 40:
            raise Unsupported('too many substrings')
        cases = []
        for s in subs:
            e = eq(cx, needle, s)
            if e is True:
                return True
            if e is not False:
                cases.append(e)
        return z3.Or(*cases) if cases else False
    if isinstance(needle, str):
        p = parts_of(hay)
        if any(isinstance(x, str) and needle in x for x in p):
            return True
        if needle == '':
            return True
        if all(isinstance(x, (str, NumAtom)) for x in p):
            if not any(c in '0123456789.' for c in needle) and not any(
                    isinstance(x, NumAtom) and x.kind in ('repr', *HEX) for x in p):
                if len(needle) == 1:
                    return False
        if len(p) == 1 and isinstance(p[0], StrAtom):
            return predicate(cx, '__contains__', p[0], needle)
    raise Unsupported(f'{needle!r} in {hay!r}')


def replace(cx, v, old, new, count=-1):
    if count != -1:
        if not all(isinstance(x, (str, int)) for x in (old, new, count)):
            raise Unsupported('replace with symbolic texts')
        if isinstance(v, str):
            return v.replace(old, new, count)
        return apply_fn(cx, 'replace', v, (old, new, count))
    if isinstance(v, str) and is_str(new) and isinstance(new, str):
        return v.replace(old, new)
    if not (isinstance(old, str) and isinstance(new, str)):
        raise Unsupported('replace with symbolic texts')
    p = parts_of(v)
    if len(p) == 1 and isinstance(p[0], StrAtom):
        return apply_fn(cx, 'replace', v, (old, new))
    if len(old) == 1:
        out = []
        for x in p:
            if isinstance(x, str):
                out.append(x.replace(old, new))
            elif isinstance(x, NumAtom):
                if old in '0123456789.-+eabcdf':
                    raise Unsupported('replace within numerals')
                out.append(x)
            else:
                out.extend(parts_of(replace(cx, mkstr([x]), old, new)))
        return mkstr(out)
    raise Unsupported(f'replace in {v!r}')


def join(cx, sep, items):
    out = []
    for i, x in enumerate(items):
        if i:
            out.extend(parts_of(sep))
        if not is_str(x):
            raise PyRaise(TypeError, ('sequence item: expected str instance',))
        out.extend(parts_of(x))
    return mkstr(out)


def token(cx, t, alnum=False):
    """a goal says of this text (a term) that it isn't empty and has no spaces in it (and, maybe, a letter of a-z in either case or a digit)"""
    cx.memo.setdefault('tokens', {})[t.get_id()] = t
    lacking(cx, t, ' \t\n\r\f\v')
    cx.axiom(LEN(t) >= 1, t != cx.lit(''))
    if alnum:
        cx.memo.setdefault('alnum', {})[t.get_id()] = t


def one_char(pat):
    """does this pattern always match exactly one character, whatever is around it?"""
    import re._parser as P
    import re._constants as C
    try:
        tree = list(P.parse(pat.pattern, pat.flags))
    except Exception:
        return False
    return len(tree) == 1 and tree[0][0] in (C.IN, C.LITERAL, C.NOT_LITERAL)


def sub(cx, pat, repl, v):
    """re.sub on a rope"""
    if not (isinstance(repl, str) and '\\' not in repl and one_char(pat)):
        raise Unsupported('re.sub of an unknown text')
    out = []
    for x in parts_of(v):
        if isinstance(x, str):
            out.append(pat.sub(repl, x))
        elif isinstance(x, NumAtom):
            raise Unsupported('re.sub of a numeral')
        else:
            r = apply_fn(cx, 'sub', mkstr([x]), (pat.pattern, repl, pat.flags))
            t = x.z
            while t.num_args() == 1 and t.decl().name() == 'str.lower':
                t = t.arg(0)
            if t.get_id() in cx.memo.get('alnum', ()) and lacks(cx, x, ' \t\n\r\f\v') and not repl and \
                    not any(pat.match(c) for c in 'abcdefghijklmnopqrstuvwxyz0123456789'):
                z = term(cx, r)
                lacking(cx, z, ' \t\n\r\f\v')
                cx.axiom(LEN(z) >= 1, z != cx.lit(''))
                if x.char:
                    r = SStr([StrAtom(z, char=True)])
            out.extend(parts_of(r))
    return mkstr(out)


def split(cx, v, sep=None, maxsplit=-1):
    if isinstance(v, str):
        return v.split(sep, maxsplit)
    p = parts_of(v)
    tokens = cx.memo.get('tokens', ())
    for x in p:
        if isinstance(x, StrAtom):
            if x.z.get_id() in tokens and (sep is None or sep.isspace()):
                continue
            raise Unsupported(f'split of {v!r}')
        if isinstance(x, NumAtom) and sep is not None and (len(sep) != 1 or sep in '0123456789.-+e'):
            raise Unsupported('split within numerals')
    if maxsplit != -1:
        raise Unsupported('maxsplit')
    # numerals stand for themselves: a private character each
    enc = ''
    table = {}
    for x in p:
        if isinstance(x, str):
            enc += x
        else:
            c = chr(0xE000+len(table))
            table[c] = x
            enc += c
    return [mkstr([table.get(c, c) for c in piece]) for piece in enc.split(sep)]


SAMPLES = {
    'word': ['a', 'Hello', "don't", 'caf\u00e9', 'x1', 'well-known', '42', 'Oh,', 'Z', '\u00e9', '\u65e5\u672c', '?!', '__'],
    'char': ['a', 'H', "'", '\u00e9', '1', '-', 'z', ',', 'Z', '0', '\u65e5', '?', '_'],
    'num': ['0', '1', '7', '10', '23', '456', '0.5', '12.25', '1000000', '.5', '5.', '99999999999999999999', '00012'],
    'int': ['0', '1', '7', '10', '23', '456', '1000000', '99999999999999999999'],
    'dot': ['0.', '1.', '10.', '0.5', '12.25', '1000000.000001', '0.000001', '123456789012345678.'],
    'strip': ['0', '1', '10', '0.5', '12.25', '1000000.000001', '0.000001', '123456789012345678'],
}


def _spans(cx, v, spans_of):
    """
    Runs spans_of(text) -> list of spans, on samples of a rope; every sample
    must give spans which begin and end between the parts of the rope, and the
    same ones. Returns the spans as texts (None stays None).
    """
    p = parts_of(v)
    kinds = []
    for x in p:
        if isinstance(x, str):
            kinds.append(None)
        elif isinstance(x, StrAtom):
            if not lacks(cx, x, ' \t\n\r\f\v'):
                raise Unsupported(f'regular expression on {v!r}')
            kinds.append('char' if x.char else 'word')
        else:
            if x.kind not in SAMPLES:
                raise Unsupported(f'regular expression on {v!r}')
            kinds.append(x.kind)
    if any(isinstance(x, NumAtom) for x in p):
        cx.run.assumptions.add('regular expressions treat all decimal numerals alike (their spans are computed on samples of numerals)')
    if any(isinstance(x, StrAtom) for x in p):
        cx.run.assumptions.add('regular expressions treat all words alike (their spans are computed on samples of words without spaces)')
    shape = None
    import random
    rng = random.Random(1)
    for trial in range(40):
        texts = []
        for x, kind in zip(p, kinds):
            if isinstance(x, str):
                texts.append(x)
            else:
                ss = SAMPLES[kind]
                texts.append(ss[trial % len(ss)] if trial < 13 else rng.choice(ss))
        whole = ''.join(texts)
        starts = []
        pos = 0
        for t in texts:
            starts.append(pos)
            pos += len(t)
        starts.append(pos)

        def where(at):
            for i, t in enumerate(texts):
                if isinstance(p[i], str) and starts[i] <= at <= starts[i+1]:
                    return (i, at-starts[i]) if at < starts[i+1] else (i+1, 0)
                if not isinstance(p[i], str) and at == starts[i]:
                    return (i, 0)
            if at == pos:
                return (len(p), 0)
            return None

        def walk(q):
            if q is None or isinstance(q, str):
                return q
            if isinstance(q, list):
                return [walk(x) for x in q]
            b = (where(q[0]), where(q[1]))
            if None in b:
                raise Unsupported('a regular expression which splits a numeral')
            return b
        bounds = walk(spans_of(whole))
        if shape is None:
            shape = bounds
        elif shape != bounds:
            raise Unsupported('a regular expression whose result depends on the digits')

    def text(q):
        if q is None:
            return None
        if isinstance(q, list):
            return [text(x) for x in q]
        (i, a), (j, b) = q
        parts = []
        for k in range(i, min(j+1, len(p))):
            if isinstance(p[k], str):
                lo = a if k == i else 0
                hi = b if k == j else len(p[k])
                parts.append(p[k][lo:hi])
            elif k < j:
                parts.append(p[k])
        return mkstr(parts)
    return text(shape)


def regex_split(cx, pattern, v):
    """re.split on a rope"""
    if isinstance(v, str):
        return pattern.split(v)

    def spans(whole):
        out = []
        at = 0
        for m in pattern.finditer(whole):
            out.append((at, m.start()))
            out.extend(m.span(i) if m.group(i) is not None else None for i in range(1, pattern.groups+1))
            at = m.end()
        out.append((at, len(whole)))
        # the real function must agree
        if [whole[a:b] for a, b in out if True] != pattern.split(whole):
            raise Unsupported('re.split')
        return out
    return _spans(cx, v, spans)


def regex_find(cx, pattern, v, how):
    """a list of matches, each a list of groups (the first is the whole)"""
    def spans(whole):
        if how in ('findall', 'finditer'):
            ms = list(pattern.finditer(whole))
        else:
            m = getattr(pattern, how)(whole)
            ms = [m] if m else []
        return [[m.span(i) if m.group(i) is not None else None for i in range(pattern.groups+1)] for m in ms]
    return _spans(cx, v, spans)


########################################################################
# numbers

FNUM = z3.Function('str.float', Str, z3.RealSort())
FVALID = z3.Function('str.isfloat', Str, z3.IntSort())   # 0 no, 1 finite, 2 inf, 3 nan
INUM = z3.Function('str.int', Str, z3.IntSort())
IVALID = z3.Function('str.isint', Str, z3.BoolSort())


def to_float(cx, v):
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise PyRaise(ValueError, ('could not convert string to float',))
    p = list(parts_of(strip(cx, v))) if any(isinstance(x, str) for x in parts_of(v)) else list(parts_of(v))
    sign = 1
    if p and isinstance(p[0], str) and p[0] in ('-', '+'):
        sign = -1 if p[0] == '-' else 1
        p = p[1:]
    if len(p) == 1 and isinstance(p[0], NumAtom):
        if p[0].kind in HEX:
            raise Unsupported('float of hex')
        z = p[0].val if sign == 1 else -p[0].val
        return SReal(z)
    if len(p) == 1 and isinstance(p[0], StrAtom):
        if sign != 1:
            raise Unsupported('float of a signed opaque text')
        t = p[0].z
        if z3.is_app(t) and (t.decl().name().startswith('fmt%') or t.decl().get_id() in cx.memo.get('finite', {})):
            cx.axiom(FVALID(t) == 1)
            return SReal(FNUM(t))
        _numeric_literals(cx)
        k = FVALID(t)
        cx.axiom(k >= 0, k <= 3)
        if cx.branch(k == 0):
            raise PyRaise(ValueError, ('could not convert string to float',))
        if cx.branch(k == 1):
            return SReal(FNUM(t))
        if cx.branch(k == 2):
            return float('inf') if cx.branch(cx.bool('positive')) else float('-inf')
        return float('nan')
    # something with two numerals, or with other text
    if all(isinstance(x, (str, NumAtom)) for x in p):
        text = ''.join(x if isinstance(x, str) else '1' for x in p)
        alnum = re.sub('[0-9.+eE_-]', '', text)
        if alnum and alnum.lower() not in ('inf', 'infinity', 'nan'):
            raise PyRaise(ValueError, ('could not convert string to float',))
    raise Unsupported(f'float({v!r})')


def _numeric_literals(cx):
    done = cx.memo.setdefault('numlits', set())
    for s, t in list(cx.lits.items()):
        if s in done:
            continue
        done.add(s)
        try:
            f = float(s)
        except ValueError:
            cx.axiom(FVALID(t) == 0)
            continue
        import math
        if math.isinf(f):
            cx.axiom(FVALID(t) == 2)
        elif math.isnan(f):
            cx.axiom(FVALID(t) == 3)
        else:
            cx.axiom(FVALID(t) == 1, FNUM(t) == rv(f))


def to_int(cx, v, base=10):
    if isinstance(v, str):
        try:
            return int(v, base)
        except ValueError:
            raise PyRaise(ValueError, ('invalid literal for int()',))
    p = list(parts_of(v))
    sign = 1
    if p and isinstance(p[0], str) and p[0] == '-':
        sign = -1
        p = p[1:]
    if len(p) == 1 and isinstance(p[0], NumAtom):
        k = p[0].kind
        if k in HEX and base == 16 or k == 'int' and base == 10:
            z = z3.ToInt(p[0].val) if not z3.is_to_real(p[0].val) else p[0].val.arg(0)
            return SInt(z if sign == 1 else -z)
        if k in ('fix1', 'fix2', 'fix6', 'fix10') and base == 10:
            raise PyRaise(ValueError, ('invalid literal for int()',))
    if len(p) == 1 and isinstance(p[0], StrAtom) and base == 10 and sign == 1:
        t = p[0].z
        done = cx.memo.setdefault('intlits', set())
        for s, lt in list(cx.lits.items()):
            if s not in done:
                done.add(s)
                try:
                    cx.axiom(IVALID(lt), INUM(lt) == int(s))
                except ValueError:
                    cx.axiom(z3.Not(IVALID(lt)))
        if not cx.branch(IVALID(t)):
            raise PyRaise(ValueError, ('invalid literal for int()',))
        return SInt(INUM(t))
    raise Unsupported(f'int({v!r}, {base})')


def num_to_str(cx, v):
    """str() of a number"""
    if isinstance(v, (bool, int, float)):
        return str(v)
    if isinstance(v, SBool):
        return 'True' if cx.branch(v) else 'False'
    if isinstance(v, SInt):
        if cx.branch(v.z < 0):
            return SStr(['-', NumAtom('int', z3.ToReal(-v.z), True)])
        return SStr([NumAtom('int', z3.ToReal(v.z), True)])
    if isinstance(v, SReal):
        # repr round-trips exactly; it may use an exponent
        if cx.branch(v.z < 0):
            return SStr(['-', NumAtom('repr', -v.z)])
        return SStr([NumAtom('repr', v.z)])
    raise Unsupported(f'str({v!r})')


def fixed(cx, z, n):
    """the value of '%.<n>f' % z, for z>=0"""
    if integral(z):
        return z
    memo = cx.memo.setdefault('fixed', {})
    k = (z.get_id(), n, cx.nesting)
    if k not in memo:
        eps = z3.RealVal(f'1/{2*10**n}')
        r, iz = cx.real(f'fix{n}'), cx.int('fixi')
        memo[k] = (r, z, z3.And(r - z <= eps, z - r <= eps, r >= 0, r == z3.ToReal(iz) / z3.RealVal(10**n)))
    cx.fact(memo[k][2])
    return memo[k][0]


def finite(cx, t):
    """a new text which is always the text of a finite number"""
    cx.memo.setdefault('finite', {})[t.decl().get_id()] = t


_GENERAL = {}


def GENERAL(n):
    """'%.<n>g', as a function of the number"""
    if n not in _GENERAL:
        _GENERAL[n] = z3.Function(f'fmt%.{n}g', z3.RealSort(), Str)
    return _GENERAL[n]


def FIXED(n):
    """'%.<n>f', the same"""
    if ('f', n) not in _GENERAL:
        _GENERAL['f', n] = z3.Function(f'fmt%.{n}f', z3.RealSort(), Str)
    return _GENERAL['f', n]


def FIXED_INT(n):
    if ('i', n) not in _GENERAL:
        _GENERAL['i', n] = z3.Function(f'fmt%.{n}f*10^{n}', z3.RealSort(), z3.IntSort())
    return _GENERAL['i', n]


def not_a_numeral(*vs):
    """of the text of a number, we know no more than the number"""
    for v in vs:
        for p in (v.parts if isinstance(v, SStr) else [v]):
            if isinstance(p, StrAtom) and z3.is_app(p.z) and p.z.decl().name().startswith('fmt%'):
                raise (NeedSigns if p.z.decl().name().endswith('f') else Unsupported)('the characters of a number')


def format_spec(cx, flags, width, prec, conv, v):
    if conv == 's' and not flags and width is None and prec is None:
        return to_str(cx, v)
    if conv == 's':
        s = to_str(cx, v)
        if isinstance(s, str):
            return ('%' + flags + (str(width) if width is not None else '') + 's') % s
        raise Unsupported('padded symbolic text')
    if conv == 'r':
        raise Unsupported('%r')
    if conv == 'c':
        if isinstance(v, str) and len(v) == 1:
            return v
        raise Unsupported('%c')
    if isinstance(v, (int, float)) and not isinstance(v, Sym):
        spec = '%' + flags + (str(width) if width is not None else '') + ('.' + str(prec) if prec is not None else '') + conv
        try:
            return spec % v
        except TypeError:
            raise PyRaise(TypeError, ('not a number',))
        except (ValueError, OverflowError) as e:
            raise PyRaise(type(e), ())
    if is_str(v) or v is None or isinstance(v, (tuple,)):
        raise PyRaise(TypeError, ('a number is required',))
    if isinstance(v, Ref):
        v = cx.interp.to_float(v) if conv in 'fge' else cx.interp.to_int(v)
        return format_spec(cx, flags, width, prec, conv, v)
    if conv == 'd' and not flags and width is None:
        if isinstance(v, SReal):
            v = cx.interp.trunc(v)
        return num_to_str(cx, v)
    if conv == 'f' and flags in ('', '0') and width in (None, 0):
        n = 6 if prec is None else prec
        z = zreal(v)
        if cx.run.signs:
            positive = not cx.branch(z < 0)
        else:
            positive = True if cx.entails(z >= 0) else False if cx.entails(z < 0) else None
        if positive:
            return SStr([NumAtom(f'fix{n}', fixed(cx, z, n))])
        if positive is not None:
            return SStr(['-', NumAtom(f'fix{n}', fixed(cx, -z, n))])
        # of either sign
        t = FIXED(n)(z)
        r = FNUM(t)
        iz = FIXED_INT(n)(z)
        eps = z3.RealVal(f'1/{2*10**n}')
        cx.fact(z3.And(FVALID(t) == 1, LEN(t) >= 1, t != cx.lit(''), r - z <= eps, z - r <= eps, r == z3.ToReal(iz)/z3.RealVal(10**n)))
        return from_term(t)
    if conv == 'g' and not flags and width is None:
        n = 6 if prec is None else prec
        z = zreal(v)
        t = GENERAL(n)(z)
        r = FNUM(t)
        m = 10**(n-1)*2
        # n significant digits
        cx.fact(z3.And(FVALID(t) == 1, LEN(t) >= 1, t != cx.lit(''),
                       z3.If(z >= 0, z3.And(r >= 0, r - z <= z/m, z - r <= z/m), z3.And(r <= 0, r - z <= -z/m, z - r <= -z/m))))
        return from_term(t)
    if conv == 'x' and flags == '0' and width == 2:
        z = zint(v)
        if cx.branch(z3.And(z >= 0, z <= 255)):
            return SStr([NumAtom('hex2', z3.ToReal(z), True)])
        raise Unsupported('hex of a number which is not a byte')
    raise Unsupported(f'%{flags}{width}.{prec}{conv}')


def to_str(cx, v):
    return cx.interp.to_str(v)


FMT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])')


def percent(cx, fmt, arg):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format')
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out = []
    pos = 0
    for m in FMT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if name or width == '*' or prec == '*':
            raise Unsupported('format')
        if not args:
            raise PyRaise(TypeError, ('not enough arguments for format string',))
        v = args.pop(0)
        w = None
        if width:
            w = int(width)
        s = format_spec(cx, flags, w, int(prec) if prec else None, conv, v)
        out.extend(parts_of(s))
    out.append(fmt[pos:])
    if args:
        raise PyRaise(TypeError, ('not all arguments converted during string formatting',))
    return mkstr(out)


def format_mini(cx, v, spec):
    """f'{v:spec}'"""
    if spec == '':
        return to_str(cx, v)
    m = re.fullmatch(r'(0?)(\d*)(?:\.(\d+))?([dfgxs]?)', spec)
    if not m:
        raise Unsupported(f'format {spec}')
    zero, width, prec, conv = m.groups()
    conv = conv or ('s' if is_str(v) else 'd')
    return format_spec(cx, zero, int(width) if width else None, int(prec) if prec else None, conv, v)
