import re

from .tl import *

GOALS, goal = goals()
V = 'sangfroid.value.'
UNDER_CONTRACT = [V+x for x in ('color.Color.value', 'color.Color.as_tuple', 'gradient.Gradient.value', 'gradient.Gradient.__getitem__',
                                'gradient.Gradient.__setitem__', 'gradient.Gradient.__len__', 'gradient.Gradient.keys',
                                'value.Value.__init__', 'value.Value._get_empty_tag')]
MILLIONTH = z3.RealVal('1/2000000')    # half of one: six decimal places
RGBA = 'rgba'
WHERE = ('in_document', 'in_a_tag', 'alone')


def close(a, b, eps=MILLIONTH):
    return z3.And(a - b <= eps, b - a <= eps)


def byte(cx, name):
    n = cx.int(name)
    cx.assume(z3.And(n >= 0, n <= 255))
    return n


def components(cx, tag, what):
    """the numbers in the XML, or None"""
    kids = Q.norm(cx, B.children(cx, tag))
    found = {}
    for c in kids:
        if not isinstance(c, Elem):
            cx.prove(False, f'{what}: four components')
            return None
        if cx.rec(c.v).kind == 'text':
            cx.prove(False, f'{what}: four components')
            return None
        n = B.name_of(cx, c.v)
        cx.prove(isinstance(n, str) and n in RGBA and n not in found, f'{what}: four components')
        inner = Q.norm(cx, B.children(cx, c.v))
        if not (len(inner) == 1 and isinstance(inner[0], Elem) and cx.rec(inner[0].v).kind == 'text'):
            cx.prove(False, f'{what}: each component is a number')
            return None
        how, f = attempt(cx, float, B.text_of(cx, inner[0].v))
        cx.prove(how == 'ok', f'{what}: each component is a number')
        if how != 'ok':
            return None
        found[n] = zreal(f)
    cx.prove(set(found) == set(RGBA), f'{what}: four components')
    return found if set(found) == set(RGBA) else None


def hex_pairs(s):
    """The values of the pairs of lower-case hex digits after the #, or None if it is not of that form."""
    ps = list(S.parts_of(s))
    if not ps or not isinstance(ps[0], str) or not ps[0].startswith('#'):
        return None
    ps[0] = ps[0][1:]
    result = []
    for x in ps:
        if isinstance(x, str):
            if not re.fullmatch('([0-9a-f]{2})*', x):
                return None
            result += [rv(int(x[i:i+2], 16)) for i in range(0, len(x), 2)]
        elif isinstance(x, NumAtom) and x.kind == 'hex2':
            result.append(x.val)
        else:
            return None
    return result


def check_colour(cx, colour, want, what, hex_bytes=None, tag_attrs=None):
    """want: four terms; hex_bytes: the bytes, if it was made from hex digits"""
    tag = attr(cx, colour, 'tag')
    cx.prove(eqv(cx, B.name_of(cx, tag), 'color'), f'{what}: under the tag of its type')
    cx.prove(truth(cx, attr(cx, colour, 'is_animated')) is False, f'{what}: not animated')
    rec = cx.rec(tag)
    have = {k for k, v in rec.attrs.items() if v is not B.ABSENT}
    cx.prove(rec.known and have == (tag_attrs or set()), f'{what}: its attributes')
    got = components(cx, tag, what)
    if got is not None:
        for d, w in zip(RGBA, want):
            cx.prove(close(got[d], w), f'{what}: keeps each component to six places')
    fresh = call(cx, cx.rec(colour).cls, tag)
    how, t = run(cx, lambda: call(cx, attr(cx, fresh, 'as_tuple')))
    cx.prove(how == 'ok' and isinstance(t, tuple) and len(t) == 4, f'{what}: as a tuple')
    if how == 'ok' and isinstance(t, tuple) and len(t) == 4:
        for x, w in zip(t, want):
            cx.prove(close(zreal(x), w), f'{what}: reads back each component to six places')
    if hex_bytes is not None:
        how, s = run(cx, lambda: attr(cx, fresh, 'value'))
        cx.prove(how == 'ok' and S.is_str(s), f'{what}: reads back as a text')
        if how == 'ok' and S.is_str(s):
            opaque = cx.branch(hex_bytes[3] == 255)
            digits = hex_pairs(s)
            cx.prove(digits is not None, f'{what}: reads back as # and lower-case hex digits', repr(s))
            if digits is not None:
                cx.prove(len(digits) == (3 if opaque else 4), f'{what}: alpha of ff is omitted, and no other')
                for x, b in zip(digits, hex_bytes):
                    cx.prove(x == z3.ToReal(b), f'{what}: reads back as the hex digits it was set to')
            cx.cover('opaque' if opaque else 'translucent')


def set_value(cx, line, v):
    return run(cx, lambda: cx.interp.setattr(line.value, 'value', v))


def a_number(cx, name, how):
    if how == 'whole':
        n = cx.int(name)
        return SInt(n), z3.ToReal(n)
    x = cx.real(name)
    return SReal(x), x


def numbers(cx, count, doc, attached):
    line = Line(cx, 'color', doc, attached, animated=bool(cx.choose(2, 'animated?')))
    pairs = [a_number(cx, d, ('real', 'whole')[cx.choose(2, 'whole?')] if d == 'r' else 'real') for d in RGBA[:count]]
    v = tuple(p[0] for p in pairs)
    want = [p[1] for p in pairs] + [z3.RealVal(1)]*(4-count)
    what = f'a colour of {count} numbers'
    how, r = set_value(cx, line, v)
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    check_colour(cx, line.value, want, what)
    surroundings(line, what)
    # and the constructor, either way
    if cx.choose(2, 'how'):
        how, r = attempt(cx, kinds()['color'], *v)
    else:
        how, r = attempt(cx, kinds()['color'], v)
    cx.prove(how == 'ok', f'making {what}: accepted', r)
    if how == 'ok':
        check_colour(cx, r, want, f'making {what}')
    cx.cover('set')


def hex_text(cx, count, kinds=('hex2m', 'hex2', 'HEX2')):
    bs = [byte(cx, f'byte{i}') for i in range(count)]
    k = kinds[cx.choose(len(kinds), 'case')]
    sharp = ['#'] if cx.choose(2, '#?') else []
    v = SStr(sharp + [NumAtom(k, z3.ToReal(b), True) for b in bs])
    return v, bs + [z3.IntVal(255)]*(4-count)


def from_hex(cx, count, doc, attached):
    line = Line(cx, 'color', doc, attached, animated=bool(cx.choose(2, 'animated?')))
    v, bs = hex_text(cx, count)
    want = [z3.ToReal(b)/255 for b in bs]
    what = f'a colour of {count*2} hex digits'
    how, r = set_value(cx, line, v)
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    check_colour(cx, line.value, want, what, bs)
    surroundings(line, what)
    cx.cover('set')


@goal('a colour made of hex digits is that colour')
def made_from_hex(cx):
    count = 3 + cx.choose(2, 'alpha?')
    v, bs = hex_text(cx, count)
    what = 'making a colour of hex digits'
    how, r = attempt(cx, kinds()['color'], v)
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how == 'ok':
        check_colour(cx, r, [z3.ToReal(b)/255 for b in bs], what, bs)


@goal('a colour set to another colour is the same colour, and the other is left alone')
def from_colour(cx):
    line = Line(cx, 'color', True, animated=bool(cx.choose(2, 'animated?')))
    c, terms = colour_value(cx, 'other')
    tag = attr(cx, c, 'tag')
    before = cx.rec(tag).chunks()
    how, r = set_value(cx, line, c)
    what = 'a colour of another colour'
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    check_colour(cx, line.value, terms, what)
    cx.prove(same_seq(cx, cx.rec(tag).chunks(), before) and cx.rec(tag).parent is None, f'{what}: which stays as it was')
    surroundings(line, what)
    cx.cover('set')


def colour_tag(cx, base, attrs=None, sh=None):
    """any well-formed colour tag: (tag, the four numbers)"""
    kids, terms = [texts(cx)], []
    for d in RGBA:
        t = cx.str(f'{base}_{d}')
        cx.assume(S.FVALID(t) == 1)
        terms.append(S.FNUM(t))
        kids += [Elem(B.node(cx, 'tag', d, base=f'{base}_{d}', chunks=(Elem(B.new_text(cx, S.from_term(t))),))), texts(cx)]
    return B.node(cx, 'tag', 'color', attrs or {}, base=base, chunks=tuple(kids), sh=sh), terms


def colour_value(cx, base):
    tag, terms = colour_tag(cx, base)
    return call(cx, kinds()['color'], tag), terms


@goal('any colour reads as the XML says')
def reading(cx):
    c, terms = colour_value(cx, 'c')
    what = 'reading a colour'
    how, t = run(cx, lambda: call(cx, attr(cx, c, 'as_tuple')))
    cx.prove(how == 'ok' and isinstance(t, tuple) and len(t) == 4, f'{what}: four numbers')
    for x, w in zip(t, terms):
        cx.prove(zreal(x) == w, f'{what}: as written')
    cx.cover('read')


BAD = ['', '#', '#fff', 'ff', '#fffff', '#fffffff', '#fffffffff', 'red', '#1234567', 'gggggg', '#12345g', '#ff00zz00']


def refuse(cx, which, doc, attached):
    line = Line(cx, 'color', doc, attached, animated=bool(cx.choose(2, 'animated?')))
    if which == 'text':
        # any length at all, except six and eight
        t = cx.str('text')
        v = S.from_term(t)
        n = S.zlength(cx, v)
        cx.assume(z3.Not(S.PRED(cx, 'startswith', t, '#')))
        cx.assume(z3.And(n.z != 6, n.z != 8))
        if cx.choose(2, '#?'):
            v = SStr(['#', StrAtom(t)])
    elif which == 'literal':
        v = BAD[cx.choose(len(BAD), 'text')]
    elif which == 'digits':
        n = (1, 2, 5, 6)[cx.choose(4, 'how many')]
        v = SStr((['#'] if cx.choose(2, '#?') else []) + [NumAtom('hex2m', z3.ToReal(byte(cx, f'b{i}')), True) for i in range(n)])
    elif which == 'numbers':
        n = (1, 2, 5, 6)[cx.choose(4, 'how many')]
        v = tuple(SReal(cx.real(f'n{i}')) for i in range(n))
    else:
        v = None if cx.choose(2, 'what') else SInt(cx.int('n'))
    what = 'a colour of the wrong length'
    how, r = set_value(cx, line, v)
    cx.prove(how == 'raise', f'{what}: refused', repr(v))
    if how == 'raise':
        cx.prove(issubclass(r, ValueError), f'{what}: with ValueError', r.__name__)
    unchanged(line, what)
    cx.cover('refused')


for where in WHERE:
    doc, att = where == 'in_document', where != 'alone'
    for count in (3, 4):
        def g(cx, doc=doc, att=att, count=count):
            numbers(cx, count, doc, att)
        g.__name__ = f'numbers_{count}_{where}'
        goal(f'a colour ({where.replace("_", " ")}) set to any {count} numbers keeps them')(g)

        def g(cx, doc=doc, att=att, count=count):
            from_hex(cx, count, doc, att)
        g.__name__ = f'hex_{count}_{where}'
        goal(f'a colour ({where.replace("_", " ")}) set to any {count*2} hex digits reads back as those')(g)
    for which in ('text', 'literal', 'digits', 'numbers', 'other'):
        def g(cx, doc=doc, att=att, which=which):
            refuse(cx, which, doc, att)
        g.__name__ = f'refuse_{which}_{where}'
        goal(f'a colour ({where.replace("_", " ")}) set to something else is refused and stays as it was: {which}')(g)


########################################################################
# gradients, of any number of colours

def colour_contract(cx, args, kw):
    """
    Color.value, set to three or four numbers, hex digits or another colour:
    by the goals above, the tag becomes a <color> of four components, each
    within half a millionth of what was given.
    """
    if len(args) != 2 or kw:
        return NotImplemented
    colour, v = args
    tag = fields(cx, colour).get('_tag')
    if not isinstance(tag, Ref) or not isinstance(cx.rec(tag), B.NodeRec) or cx.rec(tag).parent is not None:
        return NotImplemented
    if isinstance(v, Ref) and isinstance(cx.rec(v), InstRec) and cx.rec(v).cls is kinds()['color']:
        v = call(cx, attr(cx, v, 'as_tuple'))
    if isinstance(v, tuple) and len(v) in (3, 4) and all(is_num(x) for x in v):
        want = [zreal(x) for x in v]
    elif isinstance(v, SStr):
        ps = S.parts_of(v)
        if ps[0] == '#':
            ps = ps[1:]
        if len(ps) not in (3, 4) or not all(isinstance(x, NumAtom) and x.kind in S.HEX for x in ps):
            return NotImplemented
        want = [x.val/255 for x in ps]
    else:
        return NotImplemented
    want += [z3.RealVal(1)]*(4-len(want))
    B.setattr_(cx, tag, 'name', 'color')
    B.setattr_(cx, tag, 'attrs', cx.new(DictRec(())))
    B.clear(cx, tag)
    for d, w in zip(RGBA, want):
        t = cx.str(f'written_{d}')
        S.finite(cx, t)
        cx.fact(z3.And(S.FVALID(t) == 1, close(S.FNUM(t), w)))
        inner = B.new_tag(cx, d)
        B.append(cx, inner, B.new_text(cx, S.from_term(t)))
        B.append(cx, tag, inner)
    return None


def modular(cx):
    cx.interp.contracts['sangfroid.value.color.Color.value'] = colour_contract


# a millionth part: six significant digits
def near_pos(a, b):
    d = z3.If(b >= 0, b, -b)/100000
    return z3.And(a - b <= d, b - a <= d)


def apart(p, q):
    """two positions which are different in six digits"""
    m = (z3.If(p >= 0, p, -p) + z3.If(q >= 0, q, -q))/50000
    return z3.Or(p - q > m, q - p > m)


class Entries:
    """some positions and their colours: what a group of elements should be"""
    def __init__(self, src, pos, colour, exists=lambda e: z3.BoolVal(True), kept=lambda e: z3.BoolVal(True)):
        self.src = src
        self.pos = pos              # element -> term
        self.colour = colour        # element -> four terms
        self.exists = exists
        self.kept = kept


def a_map(cx, form, name='given'):
    """a dict of at least two positions and colours: (the dict, Entries)"""
    src = Q.Src(cx, name)
    e = src.e0
    cx.memo.setdefault('generics', {})[e.get_id()] = e
    cx.generic = [e]
    p = cx.real('pos')
    if form == 'numbers':
        comps = [cx.real(f'g_{d}') for d in RGBA]
        v = tuple(SReal(c) for c in comps)
        want = comps
    elif form == 'hex':
        bs = [cx.int(f'g_{d}') for d in RGBA]
        v = SStr(['#'] + [NumAtom('hex2m', z3.ToReal(b), True) for b in bs])
        want = [z3.ToReal(b)/255 for b in bs]
    else:
        ts = [cx.str(f'g_{d}') for d in RGBA]
        kids = [texts(cx)]
        for d, t in zip(RGBA, ts):
            kids += [Elem(B.node(cx, 'tag', d, base=f'gtag_{d}', chunks=(Elem(B.new_text(cx, S.from_term(t))),))), texts(cx)]
        tag = B.node(cx, 'tag', 'color', {}, base='gtag', chunks=tuple(kids))
        v = cx.new(InstRec(kinds()['color'], {'_tag': tag}))
        want = [S.FNUM(t) for t in ts]
    cx.generic = []
    if form == 'hex':
        Q.forall(cx, src, e, z3.And(*[z3.And(b >= 0, b <= 255) for b in bs]))
    elif form == 'colour':
        Q.forall(cx, src, e, z3.And(*[S.FVALID(t) == 1 for t in ts]))
    P = p.decl()
    v1, v2 = z3.Const(name + '1', Node), z3.Const(name + '2', Node)
    Q.forall_pairs(cx, src, v1, v2, apart(P(v1), P(v2)))
    seg = Q.full_seg(cx, src, (SReal(p), v))
    A, x, rest = Q.split(cx, src)
    Q.split(cx, rest)
    ent = Entries(src, lambda g: P(g), lambda g: [z3.substitute(w, (e, g)) for w in want])
    return cx.new(DictRec((seg,))), ent


def describe_tag(cx, w, what):
    """(position, four components) of a colour tag in a gradient"""
    if not eqv(cx, B.name_of(cx, w), 'color'):
        return None
    rec = cx.rec(w)
    if rec.known and rec.attrs.get('pos') is None:
        return None
    t = B.attr_value(cx, w, 'pos')
    cx.prove(S.is_str(t), f'{what}: the position is written as a text', repr(t))
    how, p = attempt(cx, float, t)
    if how != 'ok':
        return None
    comps = {}
    for c in Q.norm(cx, B.children(cx, w)):
        if isinstance(c, Seg):
            continue
        if not isinstance(c, Elem):
            return None
        if cx.rec(c.v).kind == 'text':
            continue
        n = B.name_of(cx, c.v)
        how, f = attempt(cx, float, B.string_of(cx, c.v))
        if how != 'ok' or not isinstance(n, str) or n in comps:
            return None
        comps[n] = zreal(f)
    if set(comps) != set(RGBA):
        return None
    return zreal(p), [comps[d] for d in RGBA]


def describe_pair(cx, kv, what):
    """the same, of what was read: a position and a colour"""
    if not isinstance(kv, tuple) or not is_num(kv[0]):
        return None
    how, t = run(cx, lambda: call(cx, attr(cx, kv[1], 'as_tuple')))
    if how != 'ok' or not isinstance(t, tuple) or len(t) != 4:
        return None
    return zreal(kv[0]), [zreal(x) for x in t]


def check_entries(cx, chunks, describe, groups, new, what, is_one=lambda v: True):
    """
    Obligations: what's in the chunks (as far as is_one says so) is one for
    each element of the groups, where it should be kept, and for each of new.
    """
    flat = []
    for c in Q.norm(cx, chunks):
        flat.extend(c.flat() if isinstance(c, Bag) else [c])
    segs = [c for c in flat if isinstance(c, Seg) and any(p.values for p in c.paths)]
    claimed = []

    def matches(d, pos, colour):
        cx.prove(near_pos(d[0], pos), f'{what}: at the position it should be')
        cx.prove(z3.And(*[close(a, b, MILLIONTH*2) for a, b in zip(d[1], colour)]), f'{what}: the colour it should be')

    for g in groups:
        for leaf in Q.pieces_of(cx, g.src):
            if not isinstance(leaf, Q.Src):
                continue
            mine = [c for c in segs if c.src is leaf]
            claimed.extend(mine)

            def on(e):
                vs = []
                for c in mine:
                    for y in Q.seg_elem(cx, c, e):
                        if not isinstance(y, Elem):
                            raise Unsupported('what is in the gradient')
                        if is_one(y.v):
                            vs.append(y.v)
                want = cx.branch(g.exists(e)) and cx.branch(g.kept(e))
                cx.prove(len(vs) == (1 if want else 0), f'{what}: exactly one for each position')
                for v in vs:
                    d = describe(cx, v, what)
                    cx.prove(d is not None, f'{what}: a colour at a position')
                    if d is not None and want:
                        matches(d, g.pos(e), g.colour(e))
            Q.open_elem(cx, leaf, on)
    for c in segs:
        if not any(c is m for m in claimed):
            Q.each(cx, [c], lambda v: cx.prove(not is_one(v), f'{what}: nothing else is there'))
    found = []
    for c in flat:
        if isinstance(c, Elem) and is_one(c.v):
            d = describe(cx, c.v, what)
            cx.prove(d is not None, f'{what}: a colour at a position')
            if d is None:
                return
            found.append(d)
    wanted = list(new)
    for g in groups:
        for e in Q.pieces_of(cx, g.src):
            if not isinstance(e, Q.Src) and cx.branch(g.exists(e)) and cx.branch(g.kept(e)):
                wanted.append((g.pos(e), g.colour(e)))
    cx.prove(len(found) == len(wanted), f'{what}: exactly one for each position', f'{len(found)} {len(wanted)}')
    if len(found) != len(wanted):
        return
    for pos, colour in wanted:
        k = [d for d in found if cx.entails(near_pos(d[0], pos))]
        cx.prove(len(k) == 1, f'{what}: exactly one for each position')
        if len(k) == 1:
            matches(k[0], pos, colour)


class Order:
    """for in_order: the positions as times"""
    def __init__(self, cx, what):
        self.cx = cx
        self.what = what

    def describe(self, w):
        return describe_tag(self.cx, w, self.what)


def check_gradient(cx, value, groups, new, what, reading=True):
    tag = attr(cx, value, 'tag')
    cx.prove(eqv(cx, B.name_of(cx, tag), 'gradient'), f'{what}: under the tag of its type')
    cx.prove(truth(cx, attr(cx, value, 'is_animated')) is False, f'{what}: not animated')
    rec = cx.rec(tag)
    cx.prove(rec.known and not [k for k, v in rec.attrs.items() if v is not B.ABSENT], f'{what}: no attributes')
    chunks = B.children(cx, tag)
    check_entries(cx, chunks, describe_tag, groups, new, what, lambda v: B.tag_p(cx, v))
    in_order(Order(cx, what), Q.norm(cx, chunks), what)
    if not reading:
        return
    fresh = call(cx, cx.rec(value).cls, tag)
    how, d = run(cx, lambda: attr(cx, fresh, 'value'))
    cx.prove(how == 'ok' and isinstance(d, Ref) and isinstance(cx.rec(d), DictRec), f'{what}: reads back as a map', d if how != 'ok' else None)
    if how == 'ok' and isinstance(d, Ref) and isinstance(cx.rec(d), DictRec):
        check_entries(cx, cx.rec(d).chunks(), describe_pair, groups, new, what + ', read back')


def set_gradient(cx, form, doc, attached):
    modular(cx)
    line = Line(cx, 'gradient', doc, attached, animated=bool(cx.choose(2, 'animated?')))
    d, ent = a_map(cx, form)
    what = 'a gradient of a map'
    how, r = set_value(cx, line, d)
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    check_gradient(cx, line.value, [ent], [], what)
    surroundings(line, what)
    cx.cover('set')


def make_gradient(cx, form):
    modular(cx)
    d, ent = a_map(cx, form)
    what = 'making a gradient of a map'
    how, r = attempt(cx, kinds()['gradient'], d)
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    check_gradient(cx, r, [ent], [], what)
    cx.cover('made')


for form in ('numbers', 'hex', 'colour'):
    for where in WHERE:
        if where != 'in_document' and form != 'numbers':
            continue

        def g(cx, form=form, where=where):
            set_gradient(cx, form, where == 'in_document', where != 'alone')
        g.__name__ = f'gradient_{form}_{where}'
        goal(f'a gradient ({where.replace("_", " ")}) set to any number of positions and colours ({form}) reads back as those')(g)

    def g(cx, form=form):
        make_gradient(cx, form)
    g.__name__ = f'make_gradient_{form}'
    goal(f'a gradient made of any number of positions and colours ({form}) reads back as those')(g)


class Gradient:
    """
    A gradient in a document, or not: any number of colours at different
    positions, in order, with any texts between them.
    """
    def __init__(self, cx, where, least=2):
        self.cx = cx
        check_shapes()
        src = Q.Src(cx, 'stops')
        self.src = src
        e = src.e0
        cx.memo.setdefault('generics', {})[e.get_id()] = e
        cx.generic = [e]
        ts = [cx.str(f's_{d}') for d in RGBA]
        p = cx.str('s_pos')
        for t in ts + [p]:
            S.finite(cx, t)
        kids = [texts(cx)]
        for d, t in zip(RGBA, ts):
            kids += [Elem(B.node(cx, 'tag', d, base=f'stag_{d}', chunks=(Elem(B.new_text(cx, S.from_term(t))),))), texts(cx)]
        w = cx.new(B.NodeRec(None, e, e, name='color', attrs={'pos': S.from_term(p)}, known=True, chunks=tuple(kids)))
        cx.rec(w).register(cx, w)
        for c in kids:
            B.adopt(cx, w, c)
        cx.generic = []
        P = p.decl()
        self.pos = lambda g: S.FNUM(P(g))
        v1, v2 = z3.Const('st1', Node), z3.Const('st2', Node)
        Q.forall_pairs(cx, src, v1, v2, z3.Implies(z3.And(B.ISTAG(v1), B.ISTAG(v2)),
                                                   z3.And(apart(self.pos(v1), self.pos(v2)), self.pos(v1) < self.pos(v2))))
        self.colour = lambda g: [S.FNUM(z3.substitute(t, (e, g))) for t in ts]
        seg = Q.full_seg(cx, src, w)
        if least == 2:
            A, x, rest = Q.split(cx, src)
            A, y, rest = Q.split(cx, rest)
            cx.assume(z3.And(B.ISTAG(x), B.ISTAG(y)))
        self.tag = B.node(cx, 'tag', 'gradient', {}, True, base='gradient', chunks=(seg,))
        self.before = self.after = self.param = None
        if where != 'alone':
            self.before, self.after = B.some_nodes(cx, 'before'), B.some_nodes(cx, 'after')
            above = None
            if where == 'in_document':
                root, doc, fps = fps_ref(cx)
                above = B.Above('above', (root, doc))
            self.param = B.node(cx, 'tag', base='param', chunks=(self.before, Elem(self.tag), self.after), parent=above)
        self.value = call(cx, kinds()['gradient'], self.tag)
        self.fields0 = cx.rec(self.tag).fields()

    def entries(self, kept=lambda e: z3.BoolVal(True)):
        return Entries(self.src, self.pos, self.colour, lambda e: B.ISTAG(e), kept)


def set_item(cx, form, where, there):
    modular(cx)
    line = Gradient(cx, where)
    p = cx.real('newpos')
    if there == 'new':
        Q.forall(cx, line.src, line.src.e0, z3.Implies(B.ISTAG(line.src.e0), apart(p, line.pos(line.src.e0))))
    else:
        # at one which is there
        x = [x for x in Q.pieces_of(cx, line.src) if not isinstance(x, Q.Src)][cx.choose(2, 'which?')]
        cx.assume(p == line.pos(x))
    if form == 'numbers':
        comps = [cx.real(f'n_{d}') for d in RGBA]
        v = tuple(SReal(c) for c in comps)
    else:
        v, comps = colour_value(cx, 'new')
    what = 'setting one position of a gradient'
    how, r = run(cx, lambda: cx.interp.setitem(line.value, SReal(p), v))
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    check_gradient(cx, line.value, [line.entries(lambda e: line.pos(e) != p)], [(p, comps)], what, reading=False)
    surroundings(line, what)
    cx.cover('set')


def reading_gradient(cx):
    line = Gradient(cx, 'in_a_tag')
    what = 'reading a gradient'
    how, d = run(cx, lambda: attr(cx, line.value, 'value'))
    cx.prove(how == 'ok', f'{what}: can be read', d)
    if how == 'ok':
        check_entries(cx, cx.rec(d).chunks(), describe_pair, [line.entries()], [], what)
    unchanged(line, what)
    cx.cover('read')


goal('any gradient of at least two colours reads as the XML says, which stays as it was')(reading_gradient)


def from_gradient(cx, where):
    modular(cx)
    line = Line(cx, 'gradient', where == 'in_document', where != 'alone', animated=bool(cx.choose(2, 'animated?')))
    other = Gradient(cx, 'alone')
    what = 'a gradient of another gradient'
    how, r = set_value(cx, line, other.value)
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    check_gradient(cx, line.value, [other.entries()], [], what, reading=False)
    surroundings(line, what)
    unchanged(other, what + ', which stays as it was')
    cx.cover('set')


def too_few(cx, where):
    line = Line(cx, 'gradient', where == 'in_document', where != 'alone', animated=bool(cx.choose(2, 'animated?')))
    what = 'a gradient of fewer than two positions'
    items = []
    if cx.choose(2, 'one?'):
        p = SReal(cx.real('p'))
        v = (tuple(SReal(cx.real(f'n{i}')) for i in range(3)) if cx.choose(2, 'numbers?') else 'ff0000')
        items = [Elem((p, v))]
    how, r = set_value(cx, line, cx.new(DictRec(tuple(items))))
    cx.prove(how == 'raise', f'{what}: refused')
    if how == 'raise':
        cx.prove(issubclass(r, ValueError), f'{what}: with ValueError', r.__name__)
    unchanged(line, what)
    cx.cover('refused')


def not_a_map(cx, where):
    line = Line(cx, 'gradient', where == 'in_document', where != 'alone', animated=bool(cx.choose(2, 'animated?')))
    v = [lambda: cx.new(ListRec(())), lambda: None, lambda: SInt(cx.int('n')), lambda: S.opaque(cx)][cx.choose(4, 'what')]()
    what = 'a gradient of something other than a map'
    how, r = set_value(cx, line, v)
    cx.prove(how == 'raise', f'{what}: refused')
    unchanged(line, what)
    cx.cover('refused')


for where in WHERE:
    for form in ('numbers', 'colour'):
        for there in ('new', 'existing'):
            if where != 'in_document' and (form, there) != ('numbers', 'existing'):
                continue

            def g(cx, form=form, where=where, there=there):
                set_item(cx, form, where, there)
            g.__name__ = f'item_{form}_{there}_{where}'
            goal(f'setting one {there} position of a gradient ({where.replace("_", " ")}, {form}) changes that one only', cost=5)(g)
    for fn, name, statement in ((from_gradient, 'from_gradient', 'set to another gradient is the same gradient'),
                                (too_few, 'too_few', 'of fewer than two positions is refused and stays as it was'),
                                (not_a_map, 'not_a_map', 'of something else is refused and stays as it was')):
        def g(cx, fn=fn, where=where):
            fn(cx, where)
        g.__name__ = f'{name}_{where}'
        goal(f'a gradient ({where.replace("_", " ")}) {statement}')(g)
