from .hlib import *
from .c_timeline import Fixture, PARAM_FOR

SCALARS = ['real', 'integer', 'bool', 'angle', 'string', 'time']
TYPE_OF = {'real': float, 'integer': int, 'bool': bool, 'angle': float, 'string': str}


def reload(h, anim, ext=None):
    name = h.tmp(ext or h.rng.choice(['.sif', '.sifz']))
    h.ok(lambda: anim.save(name), f'saving as {name[-6:]}')
    return h.ok(lambda: sangfroid.Animation(name), 'reloading')


def scalar_raw(kind, rng):
    if kind == 'time':
        k = rng.randrange(5)
        if k == 0:
            return rng.randint(0, 10**6)
        if k == 1:
            return rng.uniform(0, 10000)
        if k == 2:
            return f'{plain(round(rng.uniform(0, 500), rng.randint(0, 6)))}f'
        if k == 3:
            return T(f'{rng.randint(-300, 900)}f')
        return 0
    if kind == 'integer' and rng.random() < .15:
        return rng.randint(-10**30, 10**30)
    if kind in ('real', 'angle') and rng.random() < .2:
        return rnd_int(rng)
    if kind == 'bool' and rng.random() < .3:
        return rng.choice([0, 1, 2, 0.0, 'x', ''])
    return gen_raw(kind, rng)


def text_safe(s):
    """whether XML can represent this text at all (a carriage return becomes a newline)"""
    return '\r' not in s


def expect_scalar(h, kind, found, raw, fps, what):
    """found: what .value gave"""
    if kind == 'real':
        h.eq(type(found), float, what + ': type')
        h.near(found, float(raw), 5.1e-11 + 2e-16*abs(float(raw)), what)
    elif kind == 'angle':
        h.eq(type(found), float, what + ': type')
        h.eq(found, float(raw), what)
    elif kind == 'integer':
        h.eq((type(found), found), (int, int(raw)), what)
    elif kind == 'bool':
        h.true(found is bool(raw), f'{what}: expected {bool(raw)}, found {found!r}')
    elif kind == 'string':
        h.eq((type(found), found), (str, str(raw)), what)
    elif kind == 'time':
        h.eq(type(found), T, what + ': type')
        if isinstance(raw, str):
            want = parse_simple(raw, fps)
        elif isinstance(raw, T):
            want = raw.frames
        else:
            want = float(raw)
        h.near(found.frames, want, 1e-6, what)
    else:
        raise KeyError(kind)


def raw_scalar(kind, tag):
    """independent reading of the XML"""
    if kind == 'string':
        return ''.join(str(c) for c in tag.contents)
    return tag.attrs['value']


@case('C08', 6)
def set_and_read(h):
    rng = h.rng
    kind = rng.choice(SCALARS)
    fx = Fixture(h, kind=kind)
    v = fx.value
    rest = fx.rest()
    raw = None
    for step in range(rng.randint(1, 4)):
        raw = scalar_raw(kind, rng)
        if fx.attached and kind == 'time' and rng.random() < .4:
            raw = rng.choice(['1s', '2s 3f', '0s', '-1s', '1m 2s', '1h', '0.5s', '-2s 3f', '1.5s 1f'])
        h.log('set', kind, repr(raw))
        what = f'{kind}.value = {raw!r} ({"animated" if v.is_animated else "not animated"}, {"attached" if fx.attached else "detached"})'
        how = rng.choice(['attr', 'attr', 'field'] if fx.attached else ['attr'])
        if how == 'attr':
            h.ok(lambda: setattr(v, 'value', raw), what)
        else:
            h.ok(lambda: setattr(fx.layer, PARAM_FOR[kind][1], raw), what)
        expect_scalar(h, kind, h.ok(lambda: v.value, what), raw, fx.fps, what)
        h.true(not v.is_animated, what + ': still animated')
        t = fx.vtag()
        h.true(t is v.tag, what + ': the value is the one in the document')
        h.eq(t.name, kind, what + ': tag name')
        h.eq(set(t.attrs), set() if kind == 'string' else {'value'}, what + ': attributes')
        h.eq(kids(t), [], what + ': child tags')
        if fx.attached:
            expect_scalar(h, kind, fx.layer[PARAM_FOR[kind][1]].value, raw, fx.fps, what + ', read through the layer')
        h.eq(fx.rest(), rest, what + ': rest of the document')
        if rng.random() < .25:
            v.is_animated = True
            v.timeline[rng.randint(1, 50)] = gen_raw(kind, rng)
    if fx.attached and raw is not None and not v.is_animated and not (kind == 'string' and not text_safe(raw)):
        b = reload(h, fx.anim)
        ty, pname = PARAM_FOR[kind]
        lt = [l for l in kids(b._tag, 'layer')][-1]
        l2 = Layer.from_tag(lt)
        expect_scalar(h, kind, l2[pname].value, raw, fx.fps, f'{kind} {raw!r}, after saving and reloading')


@case('C08', 4)
def construct(h):
    rng = h.rng
    for kind in SCALARS:
        raw = scalar_raw(kind, rng)
        v = h.ok(lambda: CLS[kind](raw), f'{kind}({raw!r})')
        expect_scalar(h, kind, v.value, raw, None, f'{kind}({raw!r})')
        h.eq(v.tag.name, kind, f'{kind}({raw!r}): tag name')
        h.true(not v.is_animated, f'{kind}({raw!r}): animated')
    for kind, want in [('real', 0.0), ('integer', 0), ('bool', False), ('angle', 0.0)]:
        h.eq(CLS[kind]().value, want, f'{kind}()')
    # reading text written by something else
    f = rnd_float(rng)
    for text, kind in [('%.10f' % f, 'real'), (repr(f), 'real'), (str(rng.randint(-9, 9)), 'integer'), ('%.6f' % f, 'angle')]:
        tag = bs4.Tag(name=kind)
        tag['value'] = text
        h.eq(CLS[kind](tag).value, TYPE_OF[kind](text), f'reading <{kind} value="{text}"/>')
    for text, want in [('true', True), ('false', False), ('True', True), ('FALSE', False), ('TRUE', True)]:
        tag = bs4.Tag(name='bool')
        tag['value'] = text
        h.true(CLS['bool'](tag).value is want, f'reading <bool value="{text}"/>')
    for s in ['x', '', ' a ', 'é☃']:
        tag = bs4.BeautifulSoup(f'<string>{s}</string>', features='xml').contents[0].extract()
        h.eq(sv.String(tag).value, s, f'reading <string>{s}</string>')
    # reading changes nothing
    k = rng.choice(SCALARS)
    fx = Fixture(h, kind=k, animated=False, attached=True if k == 'time' else None)
    before = exact(root_of(fx.vtag()))
    fx.value.value
    h.eq(exact(root_of(fx.vtag())), before, f'document after reading a {k}')


BAD = {'real': ['wombat', '', [], {}, '1,5', (1, 2), '0x10'], 'integer': ['wombat', '', '1.5', [], (1, 2), float('nan'), float('inf')],
       'angle': ['wombat', [], {}, '90°'], 'time': ['wombat', '3x', [], '', '1s1s', float('nan'), float('inf')]}


@case('C08', 2)
def refused(h):
    rng = h.rng
    kind = rng.choice(list(BAD))
    fx = Fixture(h, kind=kind)
    before = exact(root_of(fx.vtag()))
    for bad in BAD[kind]:
        if kind == 'time' and isinstance(bad, float):
            continue
        what = f'{kind}.value = {bad!r}'
        h.raises((TypeError, ValueError, OverflowError), lambda: setattr(fx.value, 'value', bad), what)
        h.eq(exact(root_of(fx.vtag())), before, what + ': document afterwards')
        if fx.attached:
            h.raises((TypeError, ValueError, OverflowError), lambda: setattr(fx.layer, PARAM_FOR[kind][1], bad), what)
            h.eq(exact(root_of(fx.vtag())), before, what + ': document afterwards')
        h.raises((TypeError, ValueError, OverflowError), lambda: CLS[kind](bad), f'{kind}({bad!r})')


########################################################################
# C09

def colour_components(tag):
    out = {}
    for c in kids(tag):
        out.setdefault(c.name, []).append(float(c.string))
    return out


def check_colour_tag(h, tag, want, what, tol=5.1e-7):
    got = colour_components(tag)
    h.eq(set(got), set('rgba'), what + ': components')
    for d, w in zip('rgba', want):
        h.eq(len(got[d]), 1, what + f': number of {d} components')
        h.near(got[d][0], w, tol, what + f': component {d}')


def hex_of(rng):
    n = rng.choice([6, 8, 8])
    digits = ''.join(rng.choice('0123456789abcdef') for _ in range(n))
    if rng.random() < .2:
        digits = digits[:6] + ('ff' if n == 8 else '')
    if rng.random() < .2:
        digits = ''.join(rng.choice(['00', 'ff', '7f', '80', '01', 'fe']) for _ in range(n//2))
    spelled = rng.choice([digits, digits.upper(), ''.join(rng.choice([c, c.upper()]) for c in digits)])
    want = '#' + (digits[:6] if len(digits) == 8 and digits.endswith('ff') else digits)
    if len(digits) == 6:
        want = '#' + digits
        if want.endswith('ff') and False:
            pass
    return rng.choice(['#', '']) + spelled, want, [int((digits+'ff')[i*2:i*2+2], 16) for i in range(4)]


def hexcol_value(digits8):
    return digits8


@case('C09', 5)
def colours(h):
    rng = h.rng
    fx = Fixture(h, kind='color')
    v = fx.value
    rest = fx.rest()
    for step in range(rng.randint(1, 5)):
        k = rng.choice(['hex', 'hex', 'tuple3', 'tuple4', 'color', 'bad'])
        if k == 'bad':
            before = exact(root_of(fx.vtag()))
            bad = rng.choice(['', '#', '#fff', 'ff', '#fffff', '#fffffff', '#fffffffff', 'ffffffffff', (1.0,), (1.0, 2.0),
                              (0.1,)*5, 'red', '#1234567', 5, None])
            h.raises(ValueError, lambda: setattr(v, 'value', bad), f'Color.value = {bad!r}')
            h.eq(exact(root_of(fx.vtag())), before, f'document after Color.value = {bad!r} was refused')
            continue
        if k == 'hex':
            raw, want, comps = hex_of(rng)
            h.log('hex', raw)
            h.ok(lambda: setattr(v, 'value', raw), f'Color.value = {raw!r}')
            h.eq(v.value, want, f'Color.value after setting it to {raw!r}')
            check_colour_tag(h, fx.vtag(), [c/255 for c in comps], f'Color.value = {raw!r}')
        else:
            if k == 'color':
                t = tuple(round(rng.random(), 6) for _ in range(4))
                raw = sv.Color(t)
            else:
                n = 3 if k == 'tuple3' else 4
                t = tuple(rng.choice([0.0, 1.0, 0, 1, rng.random(), round(rng.random(), 3), rng.uniform(-.5, 3)]) for _ in range(n))
                raw = t
                t = tuple(float(x) for x in t) + ((1.0,) if n == 3 else ())
            h.log('tuple', raw if isinstance(raw, tuple) else t)
            h.ok(lambda: setattr(v, 'value', raw), f'Color.value = {raw!r}')
            got = v.as_tuple()
            h.eq(len(got), 4, 'as_tuple()')
            for g, w in zip(got, t):
                h.near(g, w, 5.1e-7, f'as_tuple() after setting to {t!r}')
            check_colour_tag(h, fx.vtag(), t, f'Color.value = {t!r}')
        h.true(not v.is_animated, 'a colour which has been set is not animated')
        h.eq((fx.vtag().name, set(fx.vtag().attrs)), ('color', set()), 'tag of a colour which has been set')
        h.eq(fx.rest(), rest, 'rest of the document')
    # constructors
    raw, want, comps = hex_of(rng)
    h.eq(sv.Color(raw).value, want, f'Color({raw!r}).value')
    t3 = tuple(rng.random() for _ in range(3))
    for g, w in zip(sv.Color(*t3).as_tuple(), t3 + (1.0,)):
        h.near(g, w, 5.1e-7, f'Color(*{t3!r}).as_tuple()')


@case('C09', 1)
def every_byte(h):
    """every two-digit component, in every position"""
    rng = h.rng
    i = rng.randrange(4)
    for b in range(256):
        comps = ['%02x' % rng.randrange(256) for _ in range(4)]
        comps[i] = '%02x' % b
        s = ''.join(comps)
        want = '#' + (s[:6] if s.endswith('ff') else s)
        h.eq(sv.Color('#'+s).value, want, f'Color({"#"+s!r}).value')


def g6(x):
    return float('%.6g' % x)


def grad_picture(tag):
    """[(pos, components)] in document order"""
    out = []
    for c in kids(tag):
        assert c.name == 'color', c
        comp = colour_components(c)
        out.append((float(c['pos']), tuple(comp[d][0] for d in 'rgba')))
    return out


def colour_tuple(raw):
    if isinstance(raw, str):
        s = raw.lstrip('#')
        s += 'ff' if len(s) == 6 else ''
        return tuple(int(s[i*2:i*2+2], 16)/255 for i in range(4))
    t = tuple(float(x) for x in raw)
    return t + (1.0,) if len(t) == 3 else t


def check_gradient(h, fx, model, what):
    pic = grad_picture(fx.vtag())
    exp = sorted(model.items())
    h.eq(len(pic), len(exp), what + ': number of colours')
    for (p, c), (ep, ec) in zip(pic, exp):
        h.near(p, ep, 1e-6*abs(ep) + 1e-15, what + ': position')
        for a, b in zip(c, ec):
            h.near(a, b, 1.1e-6, what + f': colour at {ep}')
    got = h.ok(lambda: fx.value.value, what)
    h.eq(list(got.keys()), [p for p, _ in pic], what + ': positions')
    for (p, col), (_, c) in zip(got.items(), pic):
        h.eq(col.as_tuple(), c, what + f': colour read at {p}')
    h.eq(len(fx.value), len(exp), what + ': len()')
    h.eq(list(fx.value.keys()), [p for p, _ in pic], what + ': keys()')
    h.eq(list(iter(fx.value)), [p for p, _ in pic], what + ': iteration')
    h.eq(fx.vtag().name, 'gradient', what + ': tag')
    h.eq(set(fx.vtag().attrs), set(), what + ': attributes')
    h.true(not fx.value.is_animated, what + ': animated')


@case('C09', 5)
def gradients(h):
    rng = h.rng
    fx = Fixture(h, kind='gradient')
    rest = fx.rest()
    model = None
    if fx.vtag().name == 'gradient':
        model = dict(grad_picture(fx.vtag()))
    for step in range(rng.randint(1, 5)):
        k = rng.choice(['set', 'setgrad', 'item', 'item', 'bad'])
        if k == 'bad':
            before = exact(root_of(fx.vtag()))
            bad = rng.choice([{}, {0.5: '#ff0000'}])
            h.raises(ValueError, lambda: setattr(fx.value, 'value', bad), f'Gradient.value = {bad!r}')
            h.eq(exact(root_of(fx.vtag())), before, f'document after Gradient.value = {bad!r} was refused')
            continue
        if k in ('set', 'setgrad'):
            n = rng.randint(2, 6)
            pos = [round(x, rng.randint(1, 5)) for x in rng.sample([i/50 for i in range(-50, 101)], n)]
            if rng.random() < .15:
                pos = [p*1000 for p in pos]
            if rng.random() < .3:
                # close to another
                pos.append(pos[0] + rng.choice([1e-5, -1e-4, 0.00003]))
            pos = list(dict.fromkeys(g6(p) for p in pos))
            if len(pos) < 2:
                continue
            d = {p: gen_raw('color', rng) for p in pos}
            h.log('set', d)
            model = {p: colour_tuple(c) for p, c in d.items()}
            arg = {p: (sv.Color(c) if rng.random() < .3 else c) for p, c in d.items()}
            if k == 'setgrad':
                arg = sv.Gradient(arg)
            h.ok(lambda: setattr(fx.value, 'value', arg), f'Gradient.value = {d!r}')
        else:
            if model is None:
                continue
            p = rng.choice([*model, g6(round(rng.uniform(0, 1), 3)), g6(rng.choice([*model]) + rng.choice([1e-5, -2e-5, 1e-4]))])
            raw = gen_raw('color', rng)
            h.log('item', p, raw)
            h.ok(lambda: fx.value.__setitem__(p, raw), f'gradient[{p}] = {raw!r}')
            model[p] = colour_tuple(raw)
            h.eq(fx.value[p].as_tuple(), sv.Color(raw).as_tuple(), f'gradient[{p}]')
        check_gradient(h, fx, model, f'gradient after {k}')
        h.eq(fx.rest(), rest, 'rest of the document')


########################################################################
# C10

def vec_picture(tag):
    h = [(c.name, str(c.string)) for c in kids(tag)]
    return h


@case('C10', 4)
def vectors(h):
    rng = h.rng
    fx = Fixture(h, kind='vector')
    v = fx.value
    rest = fx.rest()
    a, b = 1.0, 2.0
    for step in range(rng.randint(1, 5)):
        k = rng.choice(['tuple', 'tuple', 'dict', 'xedni', 'vec', 'bad', 'field', 'odd'])
        if k == 'odd':
            # other components, or none
            names = rng.choice([[], ['x'], ['y'], ['x', 'y', 'z'], ['wombat']])
            arg = {n: float(rng.randint(-1000, 1000)) for n in names}
            what = f'X_Y.value = {arg}'
            h.log(what)
            h.ok(lambda: setattr(v, 'value', arg), what)
            h.eq({n: float(s) for n, s in vec_picture(fx.vtag())}, arg, what + ': components in the XML')
            h.eq(sorted(v.keys()), sorted(arg), what + ': keys()')
            h.eq({n: v[n] for n in arg}, arg, what + ': by subscript')
            h.eq(fx.rest(), rest, what + ': the rest of the document')
            k = 'tuple'     # what's no X_Y can't be read back as one
        a, b = [rng.choice([rnd_float(rng), rng.randint(-10**6, 10**6)]) for _ in 'ab']
        before = exact(root_of(fx.vtag()))
        if k == 'bad':
            bad = rng.choice([(1.0,), (1.0, 2.0, 3.0), 5, 'x', ('a', 'b'), (1.0, None)])
            h.raises(TypeError, lambda: setattr(v, 'value', bad), f'X_Y.value = {bad!r}')
            h.eq(exact(root_of(fx.vtag())), before, f'document after X_Y.value = {bad!r} was refused')
            continue
        if k == 'tuple':
            arg = (a, b)
        elif k == 'dict':
            arg = {'x': a, 'y': b}
        elif k == 'xedni':
            arg = {'y': b, 'x': a}
        elif k == 'vec':
            arg = sv.X_Y(float(a), float(b))
        else:
            arg = (a, b)
        what = f'X_Y.value = {short(arg)}'
        h.log(what)
        if k == 'field' and fx.attached:
            h.ok(lambda: setattr(fx.layer, PARAM_FOR['vector'][1], arg), what)
        else:
            h.ok(lambda: setattr(v, 'value', arg), what)
        pic = vec_picture(fx.vtag())
        if k == 'xedni':
            pic = sorted(pic)
        h.eq([n for n, _ in pic], ['x', 'y'], what + ': components in the XML')
        for (n, s), w in zip(pic, (a, b)):
            if isinstance(w, float) or k == 'vec':
                h.near(float(s), w, 5.1e-11+2e-16*abs(w), what + f': {n} in the XML')
            else:
                h.eq(float(s), w, what + f': {n} in the XML')
        h.eq((v.x, v.y), tuple(float(s) for _, s in pic), what + ': x and y')
        h.eq(v.as_tuple(), (v.x, v.y), what + ': as_tuple()')
        h.eq((v['x'], v['y']), (v.x, v.y), what + ': by subscript')
        h.eq((v[0], v[1]), (v.x, v.y), what + ': by index')
        if k != 'xedni':
            h.eq(list(v), [v.x, v.y], what + ': by iteration')
        h.eq(len(v), 2, what + ': len()')
        h.eq(list(v.keys()), ['x', 'y'], what + ': keys()')
        h.eq(sorted(v.items()), [('x', v.x), ('y', v.y)], what + ': items()')
        h.raises(KeyError, lambda: v['z'], what + ': an absent component')
        h.raises(AttributeError, lambda: v.z, what + ': an absent component')
        h.true(not v.is_animated, what + ': animated')
        h.eq((fx.vtag().name, set(fx.vtag().attrs)), ('vector', set()), what + ': tag')
        h.eq(fx.rest(), rest, what + ': rest of the document')
    w = sv.X_Y(a, b)
    for g, e in zip((w.x, w.y), (a, b)):
        h.near(g, e, 5.1e-11+2e-16*abs(e), f'X_Y({a}, {b})')
    h.true(sv.Vector.from_tag(w.tag).as_tuple() == w.as_tuple(), 'a vector read from its tag')


PARTS = {'offset': 'vector', 'angle': 'angle', 'skew_angle': 'angle', 'scale': 'vector'}


def part_pic(tag):
    out = {}
    for c in kids(tag):
        assert c.name not in out, c
        k = kids(c)
        assert len(k) == 1, c
        out[c.name] = canon(k[0])
    return out


@case('C10', 5)
def transformations(h):
    rng = h.rng
    xml = ('<layer type="group" desc="g">' + xml_param('z_depth', 'real', rng, 24.0) +
           '<param name="transformation">' + xml_transformation(rng, 24.0, panim=rng.choice([0, .3, .6]), shuffle=rng.random() < .5) + '</param>'
           '<param name="canvas"><canvas>' + xml_layer(rng, 1, 24.0) + '</canvas></param></layer>')
    a = load(h, xml_doc(rng, fps='24', nlayers=1).replace('</canvas>\n', xml + '</canvas>\n'))
    gt = [t for t in all_layer_tags(a._tag) if t.parent is a._tag and t.get('desc') == 'g' and t['type'] == 'group'][-1]
    g = Layer.from_tag(gt)
    p = own_param(gt, 'transformation')
    comp = kids(p)[0]
    rest = mask(a._soup, comp)
    for step in range(rng.randint(1, 5)):
        pic = part_pic(comp)
        h.eq(set(pic), set(PARTS), 'parts')
        k = rng.choice(['dict', 'dict', 'short', 'short', 'viaval', 'bad', 'getitem', 'whole'])
        before = exact(a._soup)

        def raw_for(n):
            return gen_raw(PARTS[n], rng)
        if k == 'bad':
            d = {rng.choice(list(PARTS)): raw_for('angle')} if rng.random() < .5 else {}
            d = {n: raw_for(n) for n in rng.sample(list(PARTS), rng.randint(0, 3))}
            items = list(d.items())
            items.insert(rng.randint(0, len(items)), (rng.choice(['wombat', 'Offset', 'x', 'skew', 'skewangle']), 1.0))
            d = dict(items)
            h.raises(KeyError, lambda: setattr(g, 'transformation', d), f'transformation = {d!r}')
            h.eq(exact(a._soup), before, f'document after transformation = {d!r} was refused')
            continue
        if k == 'getitem':
            for n in PARTS:
                h.eq(canon(g.transformation[n].tag), pic[n], f'transformation[{n!r}]')
                h.eq(canon(getattr(g.transformation, n).tag), pic[n], f'transformation.{n}')
                h.eq(canon(getattr(g, n).tag), pic[n], f'group.{n}')
            h.eq(set(g.transformation.keys()), set(PARTS), 'transformation.keys()')
            h.raises(KeyError, lambda: g.transformation['wombat'], 'an unknown part')
            h.eq(exact(a._soup), before, 'document after reading')
            continue
        names_ = list(PARTS) if k == 'whole' else rng.sample(list(PARTS), rng.randint(0, 4))
        if k == 'short':
            n = rng.choice(list(PARTS))
            names_ = [n]
        d = {n: raw_for(n) for n in names_}
        h.log(k, d)
        what = f'{k} {d!r}'
        # the same, given as library values
        given = {}
        for m, r in d.items():
            c = rng.random()
            if c < .6:
                given[m] = r
            elif PARTS[m] == 'vector':
                given[m] = sv.X_Y(*r)
            else:
                given[m] = sv.Angle(r)
            if c > .8:
                # which belongs somewhere else
                bs4.Tag(name='elsewhere').append(given[m].tag)
        kept = {m: (exact(x.tag), x.tag.parent) for m, x in given.items() if isinstance(x, sv.Value)}
        if k == 'short':
            h.ok(lambda: setattr(g, n, given[n]), what)
        elif k == 'viaval':
            tv = g.transformation
            h.ok(lambda: setattr(tv, 'value', given), what)
        else:
            h.ok(lambda: setattr(g, 'transformation', given), what)
        for m, (x, parent) in kept.items():
            h.eq(exact(given[m].tag), x, what + f': the value given for {m}')
            h.true(given[m].tag.parent is parent, what + f': the value given for {m} is still where it was')
        h.true(kids(p) and len(kids(p)) == 1, what + ': one value')
        comp2 = kids(p)[0]
        now = part_pic(comp2)
        h.eq(set(now), set(PARTS), what + ': parts')
        for n in PARTS:
            if n in d:
                h.eq(now[n], canon(CLS[PARTS[n]](d[n]).tag), what + f': part {n}')
                got = getattr(g, n)
                if PARTS[n] == 'angle':
                    h.eq(got.value, float(d[n]), what + f': {n}')
                else:
                    for x, y in zip(got.as_tuple(), d[n]):
                        h.near(x, y, 5.1e-11+2e-16*abs(y), what + f': {n}')
            else:
                h.eq(now[n], pic[n], what + f': untouched part {n}')
        h.true(comp2 is comp, what + ': the transformation is still the one in the document')
        h.eq(mask(a._soup, comp), rest, what + ': rest of the document')
