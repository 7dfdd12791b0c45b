from .ly import *
import json, os
import sangfroid.value as v
from sangfroid.value.value import Value
from sangfroid.registry import Registry
from sangfroid.field import Field

GOALS, goal = goals()
UNDER_CONTRACT = ['sangfroid.registry.Registry.__init__', 'sangfroid.registry.Registry.__call__', 'sangfroid.registry.Registry.from_name',
                  'sangfroid.util.normalise_synfig_layer_type_name',
                  'sangfroid.layer.layer.Layer.from_tag', 'sangfroid.layer.layer.Layer.__init__',
                  'sangfroid.layer.layer.Layer._construct_empty_tag', 'sangfroid.layer.text.Text.__init__',
                  'sangfroid.value.value.Value.from_tag', 'sangfroid.value.value.Value._construct_from']
ASSUMPTIONS = ['str.lower() and removing underscores can be done in either order (which is so but for the letter sigma before an underscore)']
HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = json.load(open(os.path.join(HERE, '..', '..', 'harness', 'layers.json'), encoding='utf8'))
LAYERS = {n: e['class'] for n, e in TABLE['layers'].items()}
VALUES = TABLE['values']


def plain(s):
    return s.lower().replace('_', '')


def norm(cx, s):
    """what the text is without regard to case and underscores"""
    a = S.replace(cx, S.case(cx, s, 'lower'), '_', '')
    b = S.case(cx, S.replace(cx, s, '_', ''), 'lower')
    if not isinstance(a, str):
        cx.axiom(S.term(cx, a) == S.term(cx, b))
    return a


def known(reg, table):
    """normal form -> name of class: the documented ones, and any others there are in this tree"""
    out = {}
    for n, c in reg.handlers.items():
        out[plain(n)] = c.__name__
    out.update(table)
    return out


def expect(cx, s, names):
    """the name of the class which the text s means, or None. Branches."""
    n = norm(cx, s)
    for k, c in names.items():
        if truth(cx, cx.interp.eq(n, k)):
            return c
    return None


REGS = [('layer', Layer.handles_type, LAYERS, Layer), ('value', Value.handles_type, VALUES, Value)]


@goal('looking up any name gives the class documented for it, whatever the case and underscores, and otherwise KeyError', budget=200)
def lookups(cx):
    what, reg, table, base = REGS[cx.choose(2, 'of layers or values?')]
    s = S.opaque(cx, 'name')
    names = known(reg, table)
    want = expect(cx, s, names)
    how, r = attempt(cx, reg.from_name, s)
    if want is None:
        cx.prove(how == 'raise' and r is KeyError, f'looking up an unknown {what} raises KeyError', r)
        cx.cover('unknown')
    else:
        cx.prove(how == 'ok' and isinstance(r, type) and r.__name__ == want and issubclass(r, base), f'looking up a {what}: its class', (want, r))
        cx.cover('known')


@goal('whatever is registered under a name is found by that name however it is spelled, and nothing else is')
def registering(cx):
    reg = call(cx, Registry)
    classes = [sl.Circle, v.Angle, sl.Text]
    spelled = []
    for c in classes[:2]:
        k = cx.choose(3, 'how is it registered?')
        if k == 0:
            how, dec = attempt(cx, reg)
            n = c.__name__
        else:
            n = S.opaque(cx, 'given')
            cx.assume(S.term(cx, n) != cx.lit(''))
            how, dec = attempt(cx, reg, n) if k == 1 else attempt(cx, reg, name=n)
        cx.prove(how == 'ok', 'a class can be registered', dec)
        if how != 'ok':
            return
        how, r = attempt(cx, dec, c)
        cx.prove(how == 'ok' and r is c, 'registering a class: it stays itself', r)
        spelled.append((n, c))
    s = S.opaque(cx, 'name')
    want = None
    for n, c in reversed(spelled):
        if truth(cx, cx.interp.eq(norm(cx, s), norm(cx, n))):
            want = c
            break
    how, r = attempt(cx, attr(cx, reg, 'from_name'), s)
    if want is None:
        cx.prove(how == 'raise' and r is KeyError, 'what is not registered raises KeyError', r)
        cx.cover('unknown')
    else:
        cx.prove(how == 'ok' and r is want, 'what is registered is found', r)
        cx.cover('known')
    fresh = call(cx, Registry)
    how, r = attempt(cx, attr(cx, fresh, 'from_name'), s)
    cx.prove(how == 'raise' and r is KeyError, 'registries are independent', r)


@goal('any <layer> tag is read as a layer of the class its type means, made of that very tag', budget=200)
def layer_from_tag(cx):
    starts = [Layer, sl.Group, sl.Circle, sangfroid.animation.Animation]
    start = starts[cx.choose(len(starts), 'asked of which class?')]
    tag = B.node(cx, 'tag', 'layer', base='layer', parent=B.Above('above'))
    p = Picture(cx, [tag])
    has = cx.branch(B.attr_has(cx, tag, 'type'))
    want = expect(cx, B.attr_value(cx, tag, 'type'), known(Layer.handles_type, LAYERS)) if has else None
    how, r = attempt(cx, attr(cx, start, 'from_tag'), tag)
    if not has:
        cx.prove(how == 'raise' and r is ValueError, 'reading a <layer> with no type raises ValueError', r)
        cx.cover('no type')
    elif want is None:
        cx.prove(how == 'raise' and r is KeyError, 'reading a <layer> of unknown type raises KeyError', r)
        cx.cover('unknown')
    else:
        ok = how == 'ok' and isinstance(r, Ref) and isinstance(cx.rec(r), InstRec)
        cx.prove(ok and cx.rec(r).cls.__name__ == want and issubclass(cx.rec(r).cls, Layer), 'reading a <layer>: the class for its type', (want, r))
        if ok:
            cx.prove(B.same_ref(cx, attr(cx, r, 'tag'), tag), 'reading a <layer>: made of that very tag')
        cx.cover('known')
    p.all_same('reading a <layer>')


@goal('any tag of a value, animated or not, is read as a value of the class its type means, made of that very tag', budget=200)
def value_from_tag(cx):
    starts = [Value, v.Real, v.Vector]
    start = starts[cx.choose(len(starts), 'asked of which class?')]
    k = cx.choose(2, 'animated?')
    if k:
        tag = B.node(cx, 'tag', 'animated', base='value', parent=B.Above('above'))
        cx.assume(B.attr_has(cx, tag, 'type'))
        s = B.attr_value(cx, tag, 'type')
    else:
        s = S.opaque(cx, 'tagname')
        cx.assume(S.term(cx, s) != cx.lit('animated'))
        tag = B.node(cx, 'tag', s, base='value', parent=B.Above('above'))
    want = expect(cx, s, known(Value.handles_type, VALUES))
    if want == 'Vector':
        # which has to have its members
        if k:
            tag = Line(cx, 'vector', False, False).tag
            cx.rec(tag).attrs['type'] = s
        else:
            kids = Q.norm(cx, B.children(cx, value_tag(cx, 'vector', 'members')))
            cx.rec(tag).set_chunks(kids)
            for c in kids:
                B.adopt(cx, tag, c)
    if want == 'Composite':
        # of which there is one kind, and that isn't animated
        if k:
            cx.assume(False)
        cx.rec(tag).attrs['type'] = 'transformation'
        want = 'Transformation'
    p = Picture(cx, [tag])
    how, r = attempt(cx, attr(cx, start, 'from_tag'), tag)
    if want is None:
        cx.prove(how == 'raise' and r is KeyError, 'reading a value of unknown type raises KeyError', r)
        cx.cover('unknown')
    else:
        ok = how == 'ok' and isinstance(r, Ref) and isinstance(cx.rec(r), InstRec)
        cx.prove(ok and (want == 'Vector' or cx.rec(r).cls.__name__ == want) and issubclass(cx.rec(r).cls, Value), 'reading a value: the class for its type', (want, r))
        if ok:
            cx.prove(B.same_ref(cx, attr(cx, r, 'tag'), tag), 'reading a value: made of that very tag')
        cx.cover('known')
    p.all_same('reading a value')


########################################################################
# new layers

def any_history(cx):
    """
    The fields belong to classes, and remember things when layers are made.
    Whatever has been made before, they hold any texts or numbers at all.
    """
    seen = set()
    for c in all_classes(animation=True):
        for f in c.__dict__.values():
            if isinstance(f, Field) and id(f) not in seen and c is Layer:
                seen.add(id(f))
                others = [k for k in all_classes(animation=True) if k is not Layer and '__set_name__' in dir(type(f))]
                fixed = type(f).__set_name__
                if fixed is not Field.__set_name__:
                    # whatever another class made it
                    if cx.choose(2, 'has anything been made before?'):
                        cx.overlay[(id(f), 'default')] = S.opaque(cx, 'default')
                        cx.overlay[(id(f), 'owner')] = others[0]
                        cx.keep.append(f)


def plain_node(cx, ref):
    """(name, attributes, contents) of a new tag as the table has it, or Unsupported"""
    rec = cx.rec(ref)
    if rec.kind == 'text':
        return host_text(B.text_of(cx, ref))
    kids = []
    for c in Q.norm(cx, B.children(cx, ref)):
        if not isinstance(c, Elem):
            raise Unsupported('what a new layer holds')
        k = plain_node(cx, c.v)
        if isinstance(k, str) and not k.strip() and rec.name != 'string':
            continue
        kids.append(k)
    if not rec.known:
        raise Unsupported('attributes of a new tag')
    attrs = sorted((k, host_text(a)) for k, a in rec.attrs.items() if a is not B.ABSENT)
    return (rec.name, tuple(attrs), tuple(kids))


def host_text(t):
    if isinstance(t, str):
        return t
    if isinstance(t, bool) or t is None:
        raise Unsupported(f'{t!r} as a text')
    if isinstance(t, (int, float)):
        return str(t)
    if isinstance(t, SStr) and all(isinstance(p, str) for p in t.parts):
        return ''.join(t.parts)
    if isinstance(t, SStr) and any(isinstance(p, StrAtom) for p in t.parts):
        # not any text in particular
        return f'unknown text: {t!r}'
    raise Unsupported(f'{t!r} as a text')


def num_canon(c):
    if isinstance(c, str):
        try:
            return float(c)
        except ValueError:
            return c
    if isinstance(c, (tuple, list)):
        if len(c) == 3 and isinstance(c[0], str) and isinstance(c[1], (tuple, list)) and isinstance(c[2], (tuple, list)):
            return (c[0], tuple((k, num_canon(x) if c[0] != 'string' else x) for k, x in c[1]),
                    tuple(num_canon(x) if c[0] != 'string' else x for x in c[2]))
        return tuple(num_canon(x) for x in c)
    return c


def params_of(cx, tag):
    """the <param>s directly in it: (name, tag of the value or None)"""
    out = []
    for c in Q.norm(cx, B.children(cx, tag)):
        if cx.rec(c.v).kind == 'text':
            continue
        tags = [d.v for d in Q.norm(cx, B.children(cx, c.v)) if cx.rec(d.v).kind != 'text']
        out.append((cx.rec(c.v).name, host_text(B.attr_get(cx, c.v, 'name')), tags[0] if len(tags) == 1 else None))
    return out


def all_below(cx, ref):
    out = [ref.id]
    for c in Q.norm(cx, B.children(cx, ref)):
        out += [c.v.id] if cx.rec(c.v).kind == 'text' else all_below(cx, c.v)
    return out


def check_new(cx, r, cls, e, what, but=()):
    ok = isinstance(r, Ref) and isinstance(cx.rec(r), InstRec) and cx.rec(r).cls is cls
    cx.prove(ok, f'{what}: can be made')
    tag = attr(cx, r, 'tag')
    rec = cx.rec(tag)
    cx.prove(rec.kind == 'tag' and rec.name == 'layer' and rec.parent is None, f'{what}: a <layer>')
    attrs = {k: host_text(a) for k, a in rec.attrs.items() if a is not B.ABSENT}
    cx.prove(rec.known and num_canon(attrs.pop('version', '?')) == num_canon(e['attrs']['version']), f'{what}: its version')
    cx.prove(attrs == {k: a for k, a in e['attrs'].items() if k != 'version'}, f'{what}: its type, and the rest of its attributes', attrs)
    ps = params_of(cx, tag)
    cx.prove(all(n == 'param' for n, k, t in ps) and sorted(k for n, k, t in ps) == sorted(k for k, x in e['params']),
             f'{what}: each parameter once', [k for n, k, t in ps])
    want = dict(e['params'])
    for n, k, t in ps:
        if k in but:
            continue
        got = plain_node(cx, t) if t is not None else None
        cx.prove(num_canon(got) == num_canon(want.get(k)), f'{what}: {k} has its default', got)
    for field, value in (('active', True), ('exclude_from_rendering', False), ('desc', None)):
        how, x = run(cx, lambda: attr(cx, r, field))
        cx.prove(how == 'ok' and x is value, f'{what}: {field} is {value}', x)
    return tag, ps


def new(name, e):
    def g(cx):
        cls = Layer.handles_type.from_name(name)
        what = f'a new {e["class"]}'
        any_history(cx)
        how, r = attempt(cx, cls)
        cx.prove(how == 'ok', f'{what}: can be made', r)
        if how != 'ok':
            return
        tag, ps = check_new(cx, r, cls, e, what)
        # read back
        how, l = attempt(cx, Layer.from_tag, tag)
        cx.prove(how == 'ok' and cx.rec(l).cls is cls, f'{what}: read as a layer of the same class', l)
        if how != 'ok':
            return
        how, keys = run(cx, lambda: cx.rec(call(cx, list, call(cx, attr(cx, l, 'keys')))).chunks())
        cx.prove(how == 'ok' and sorted(c.v for c in keys) == sorted(k for k, x in e['params']), f'{what}: read with the same parameters', keys)
        for n, k, t in ps:
            how, x = run(cx, lambda: cx.interp.getitem(l, k))
            cx.prove(how == 'ok' and B.same_ref(cx, attr(cx, x, 'tag'), t), f'{what}: read with the same values', (k, x))
        # another one has nothing in common with it
        how, other = attempt(cx, cls)
        cx.prove(how == 'ok', f'{what}: another one', other)
        if how == 'ok':
            a, b = all_below(cx, tag), all_below(cx, attr(cx, other, 'tag'))
            cx.prove(not set(a) & set(b) and len(set(a)) == len(a), f'{what}: independent of another one')
        cx.cover('made')
    g.__name__ = 'new_' + name
    return g


for n, e in TABLE['layers'].items():
    if e['constructible']:
        goal(f'a new {e["class"]} has its type, version and parameters with their defaults, and can be read back')(new(n, e))


@goal('a new Text with any text')
def text_layer(cx):
    s = S.opaque(cx, 'text')
    any_history(cx)
    k = cx.choose(2, 'how is it given?')
    how, r = attempt(cx, sl.Text, s) if k else attempt(cx, sl.Text, tag=s)
    what = 'a new Text with a text'
    cx.prove(how == 'ok', f'{what}: can be made', r)
    if how != 'ok':
        return
    tag, ps = check_new(cx, r, sl.Text, TABLE['layers']['text'], what, but=('text',))
    how, x = run(cx, lambda: attr(cx, attr(cx, r, 'text'), 'value'))
    cx.prove(how == 'ok' and S.is_str(x), f'{what}: its text', x)
    if how == 'ok' and S.is_str(x):
        cx.prove(cx.interp.eq(x, s), f'{what}: its text', x)
    cx.cover('made')


@goal('a layer cannot be made of anything but a tag')
def bad_layers(cx):
    classes = [c for c in alike(('__init__', '__new__'))]
    cls = classes[cx.choose(len(classes), 'class')]
    things = [SInt(cx.int('n')), SReal(cx.real('x')), (), True]
    if not issubclass(cls, sl.Text):
        things.append(S.opaque(cx, 's'))
    how, r = attempt(cx, cls, things[cx.choose(len(things), 'what it is made of')])
    cx.prove(how == 'raise' and r is TypeError, 'making a layer of something other than a tag raises TypeError', r)
    cx.cover('refused')
