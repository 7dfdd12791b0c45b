from .tl import *
from .c02 import MILLIONTH

GOALS, goal = goals()
V = 'sangfroid.value.'
UNDER_CONTRACT = [V+x for x in ('simple.Simple.value', 'simple.Simple._coerce', 'simple.Simple._value_to_str', 'simple.Simple._construct_value',
                                'simple.Real._value_to_str', 'simple.Bool._value_to_str', 'simple.Bool._construct_value', 'simple.Time._coerce',
                                'simple.Time._construct_value', 'string.String.value', 'value.Value.__init__', 'value.Value._get_empty_tag')]
SCALARS = ('real', 'integer', 'bool', 'angle', 'time', 'string')
TENTH = z3.RealVal('1/20000000000')


TIMETEXT = z3.Function('timetext', z3.RealSort(), z3.RealSort(), Str)


def str_contract(cx, args, kw):
    """T.__str__: by C02, some text which reads back at the same frame rate as within a millionth of a frame of it"""
    t, = args
    f = fields(cx, t)
    fps = z3.RealVal(-1) if f['_fps'] is None else zreal(f['_fps'])
    F = zreal(f['_frames'])
    s = TIMETEXT(F, fps)
    # a text without a frame rate is in frames, and means the same at any
    for p in [fps] + (cx.memo.get('fps_terms', []) if f['_fps'] is None else []):
        cx.fact(z3.And(PARSES(s, p), PARSE(s, p) - F <= MILLIONTH, F - PARSE(s, p) <= MILLIONTH))
    return S.from_term(s)


def number(cx, how):
    if how == 'whole':
        n = cx.int('n')
        return SInt(n), z3.ToReal(n)
    x = cx.real('x')
    return SReal(x), x


WAYS = {
    'real': ('whole', 'real', 'text', 'bool'),
    'angle': ('whole', 'real', 'text', 'bool'),
    'integer': ('whole', 'real', 'text', 'bool'),
    'bool': ('bool', 'whole', 'real', 'text', 'none', 'list'),
    'string': ('text', 'whole', 'bool'),
    'time': ('whole', 'real', 'text', 'T'),
}


def given(cx, kind, way, line):
    """(the argument, a function which makes the obligations about what's read)"""
    if kind == 'time':
        v, z = line.a_key(way)

        def check(got, what):
            ok = isinstance(got, Ref) and isinstance(cx.rec(got), InstRec) and cx.rec(got).cls is T
            cx.prove(ok, f'{what}: reads back as a time')
            if ok:
                F = zreal(attr(cx, got, 'frames'))
                cx.prove(z3.And(F - z <= MILLIONTH, z - F <= MILLIONTH), f'{what}: reads back as it was set')
        return v, check
    if way == 'list':
        return cx.new(ListRec(())), lambda got, what: cx.prove(got is False, f'{what}: reads back as it was set', repr(got))
    if way == 'none':
        return None, lambda got, what: cx.prove(got is False, f'{what}: reads back as it was set', repr(got))
    if way == 'text':
        t = cx.str('text')
        v = S.from_term(t)
    elif way == 'bool':
        v = SBool(cx.bool('b'))
        z = z3.If(v.z, z3.RealVal(1), z3.RealVal(0))
    else:
        v, z = number(cx, way)
    if kind in ('real', 'angle'):
        if way == 'text':
            cx.assume(S.FVALID(t) == 1)
            z = S.FNUM(t)

        def check(got, what):
            cx.prove(isinstance(got, (float, SReal)), f'{what}: reads back as a number')
            if not is_num(got):
                return
            g = zreal(got)
            if kind == 'angle':
                cx.prove(g == z, f'{what}: reads back as it was set')
            else:
                cx.prove(z3.And(g - z <= TENTH, z - g <= TENTH), f'{what}: reads back as it was set, to ten places')
    elif kind == 'integer':
        if way == 'text':
            cx.assume(S.IVALID(t))
            z = z3.ToReal(S.INUM(t))
        elif way == 'real':
            # towards zero
            n = cx.int('towards')
            cx.assume(z3.If(z >= 0, z3.And(n <= z, z < n+1), z3.And(n >= z, z > n-1)))
            z = z3.ToReal(n)

        def check(got, what):
            cx.prove(isinstance(got, (int, SInt)), f'{what}: reads back as a whole number', repr(got))
            if is_num(got):
                cx.prove(zreal(got) == z, f'{what}: reads back as it was set')
    elif kind == 'bool':
        truth_of = {'bool': lambda: v.z, 'whole': lambda: z != 0, 'real': lambda: z != 0, 'text': lambda: t != cx.lit('')}[way]()

        def check(got, what):
            prove_bool(cx, got, truth_of, f'{what}: reads back as it was set')
    else:
        want = v if way == 'text' else call(cx, str, v)

        def check(got, what):
            ok = S.is_str(got)
            cx.prove(ok, f'{what}: reads back as a text')
            if ok:
                r = cx.interp.eq(got, want)
                cx.prove(r.z if isinstance(r, SBool) else r, f'{what}: reads back as it was set', f'{got!r} {want!r}')
    return v, check


def well_kept(cx, value, kind, what):
    """the XML for it"""
    tag = attr(cx, value, 'tag')
    rec = cx.rec(tag)
    name = B.name_of(cx, tag)
    cx.prove(eqv(cx, name, kind), f'{what}: under the tag of its type', repr(name))
    cx.prove(truth(cx, attr(cx, value, 'is_animated')) is False, f'{what}: not animated')
    cx.prove(rec.known, f'{what}: only the attribute of its value')
    have = {k: v for k, v in rec.attrs.items() if v is not B.ABSENT}
    kids = Q.norm(cx, B.children(cx, tag))
    if kind == 'string':
        cx.prove(not have, f'{what}: no attributes')
        cx.prove(all(isinstance(c, Elem) and cx.rec(c.v).kind == 'text' for c in kids), f'{what}: holds only text')
    else:
        cx.prove(set(have) == {'value'}, f'{what}: only the attribute of its value', repr(sorted(have)))
        cx.prove(not kids, f'{what}: nothing inside')
        if 'value' in have:
            cx.prove(S.is_str(have['value']), f'{what}: is written as a text', repr(have['value']))


def reading(cx, value, check, what):
    how, got = run(cx, lambda: attr(cx, value, 'value'))
    cx.prove(how == 'ok', f'{what}: can be read', got)
    if how == 'ok':
        check(got, what)


def again(cx, value, check, what):
    """the document read again: as far as we're concerned, another library value for the same tag"""
    fresh = call(cx, cx.rec(value).cls, attr(cx, value, 'tag'))
    reading(cx, fresh, check, what + ', and through the document')


def setting(cx, kind, way, animated, doc, attached):
    cx.interp.contracts['sangfroid.t.T.__str__'] = str_contract
    line = Line(cx, kind, doc, attached, animated=animated)
    v, check = given(cx, kind, way, line)
    what = f'setting a {kind} to a {way}'
    how, r = run(cx, lambda: cx.interp.setattr(line.value, 'value', v))
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    well_kept(cx, line.value, kind, what)
    reading(cx, line.value, check, what)
    again(cx, line.value, check, what)
    surroundings(line, what)
    cx.cover('set')


def constructing(cx, kind, way):
    cx.interp.contracts['sangfroid.t.T.__str__'] = str_contract
    line = Line(cx, kind, False, False)
    v, check = given(cx, kind, way, line)
    what = f'making a {kind} of a {way}'
    how, r = attempt(cx, kinds()[kind], v)
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    well_kept(cx, r, kind, what)
    reading(cx, r, check, what)
    again(cx, r, check, what)
    cx.cover('made')


BAD = {
    'real': ('text', 'list', 'tuple', 'dict'),
    'angle': ('text', 'list', 'tuple', 'dict'),
    'integer': ('text', 'list', 'tuple', 'dict', 'inf', 'nan'),
    'time': ('text', 'list'),
}


def refusing(cx, kind, way, doc, attached):
    cx.interp.contracts['sangfroid.t.T.__str__'] = str_contract
    line = Line(cx, kind, doc, attached, animated=bool(cx.choose(2, 'animated?')))
    if way == 'text':
        t = cx.str('text')
        v = S.from_term(t)
        if kind == 'integer':
            cx.assume(z3.Not(S.IVALID(t)))
        elif kind == 'time':
            cx.assume(z3.Not(PARSES(t, line.z)))
        else:
            cx.assume(S.FVALID(t) == 0)
    elif way == 'list':
        v = cx.new(ListRec(()))
    elif way == 'tuple':
        v = (SInt(cx.int('a')), SInt(cx.int('b')))
    elif way == 'dict':
        v = call(cx, dict)
    else:
        v = float(way)
    what = f'a {kind} cannot be a {way}'
    how, r = run(cx, lambda: cx.interp.setattr(line.value, 'value', v))
    cx.prove(how == 'raise', f'{what}: refused')
    if how == 'raise':
        cx.prove(issubclass(r, (TypeError, ValueError, OverflowError)), f'{what}: with a TypeError or ValueError', r.__name__)
    unchanged(line, what)
    if kind == 'time' and way == 'text':
        cx.assume(z3.Not(PARSES(t, z3.RealVal(-1))))
    how, r = attempt(cx, kinds()[kind], v)
    cx.prove(how == 'raise', f'{what}: refused when making one')
    cx.cover('refused')


def reading_xml(cx, kind):
    """what the XML says, whoever wrote it"""
    tag = B.node(cx, 'tag', kind, base='v')
    text = cx.str('text')
    what = f'reading a {kind} from XML'
    if kind == 'string':
        empty = bool(cx.choose(2, 'empty?'))
        cx.rec(tag).set_chunks(() if empty else (Elem(B.new_text(cx, S.from_term(text))),))
        v = call(cx, kinds()[kind], tag)
        how, got = run(cx, lambda: attr(cx, v, 'value'))
        cx.prove(how == 'ok', f'{what}: can be read')
        r = cx.interp.eq(got, '' if empty else S.from_term(text))
        cx.prove(r.z if isinstance(r, SBool) else r, f'{what}: as written')
        cx.cover('read')
        return
    cx.rec(tag).attrs['value'] = S.from_term(text)
    v = call(cx, kinds()[kind], tag)
    if kind in ('real', 'angle'):
        cx.assume(S.FVALID(text) == 1)
        how, got = run(cx, lambda: attr(cx, v, 'value'))
        cx.prove(how == 'ok' and is_num(got), f'{what}: can be read')
        if how == 'ok':
            cx.prove(zreal(got) == S.FNUM(text), f'{what}: as written')
    elif kind == 'integer':
        cx.assume(S.IVALID(text))
        how, got = run(cx, lambda: attr(cx, v, 'value'))
        cx.prove(how == 'ok' and is_num(got), f'{what}: can be read')
        if how == 'ok':
            cx.prove(zreal(got) == z3.ToReal(S.INUM(text)), f'{what}: as written')
    elif kind == 'bool':
        words = ['true', 'false', 'True', 'False', 'TRUE', 'FALSE']
        w = words[cx.choose(6, 'word')]
        cx.rec(tag).attrs['value'] = w
        how, got = run(cx, lambda: attr(cx, v, 'value'))
        cx.prove(how == 'ok' and got is (w.lower() == 'true'), f'{what}: as written')
    cx.cover('read')


for kind in SCALARS:
    for way in WAYS[kind]:
        for animated in (False, True):
            for where in ('in_document', 'in_a_tag', 'alone'):
                def g(cx, kind=kind, way=way, animated=animated, where=where):
                    setting(cx, kind, way, animated, where == 'in_document', where != 'alone')
                g.__name__ = f'set_{kind}_{way}_{"animated" if animated else "static"}_{where}'
                goal(f'a {kind} ({"animated" if animated else "not animated"}, {where.replace("_", " ")}) set to any {way} reads back as that')(g)
        if kind == 'bool' and way in ('none', 'list'):
            continue

        def g(cx, kind=kind, way=way):
            constructing(cx, kind, way)
        g.__name__ = f'make_{kind}_{way}'
        goal(f'a {kind} made of any {way} reads back as that')(g)
    for way in BAD.get(kind, ()):
        for where in ('in_document', 'in_a_tag', 'alone'):
            def g(cx, kind=kind, way=way, where=where):
                refusing(cx, kind, way, where == 'in_document', where != 'alone')
            g.__name__ = f'refuse_{kind}_{way}_{where}'
            goal(f'a {kind} ({where.replace("_", " ")}) set to an unsuitable {way} is refused and stays as it was')(g)
    if kind != 'time':
        def g(cx, kind=kind):
            reading_xml(cx, kind)
        g.__name__ = f'read_{kind}'
        goal(f'a {kind} reads as the XML says')(g)
