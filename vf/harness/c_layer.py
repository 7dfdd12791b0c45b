from .hlib import *
import json

TABLE = json.load(open(os.path.join(os.path.dirname(__file__), 'layers.json'), encoding='utf8'))


def norm(s):
    return s.lower().replace('_', '')


def pick_layer(h, a, want=lambda t: True):
    ts = [t for t in all_layer_tags(a._tag) if want(t)]
    return h.rng.choice(ts) if ts else None


def param_kind(tag):
    v = kids(tag)[0]
    n = v['type'] if v.name in ('animated', 'composite') else v.name
    return n


def is_group(t):
    return norm(t['type']) == 'group'


########################################################################
# C11

def wrong_kind(rng, kind):
    return rng.choice([k for k in KINDS if k != kind])


def nested_doc(h):
    """a document where groups contain layers with parameters of the same names"""
    rng = h.rng
    a = doc(h, nlayers=rng.choice([1, 2, 3]), depth=3, drop=rng.choice([0, .1, .4]))
    for t in all_layer_tags(a._tag):
        if is_group(t):
            if rng.random() < .2:
                # not everything with layers inside it is a group
                t['type'] = 'filter_group'
            if rng.random() < .25:
                # the inner layers' parameters come before its own
                t.insert(0, own_param(t, 'canvas').extract())
    return a


@case('C11', 6)
def params(h):
    rng = h.rng
    a = nested_doc(h)
    for step in range(6):
        t = pick_layer(h, a, is_group if rng.random() < .6 else (lambda t: True))
        if t is None:
            continue
        l = Layer.from_tag(t)
        own = {p['name']: p for p in own_params(t)}
        whole = exact(a._soup)
        what0 = f'{t["type"]} {t.get("desc")!r}'
        # listing
        h.eq(sorted(l.keys()), sorted(own), f'{what0}: keys()')
        h.eq(sorted((k, canon(v.tag)) for k, v in l.items()), sorted((k, canon(kids(p)[0])) for k, p in own.items()), f'{what0}: items()')
        h.eq(sorted(canon(v.tag) for v in l.values()), sorted(canon(kids(p)[0]) for p in own.values()), f'{what0}: values()')
        h.eq(exact(a._soup), whole, f'{what0}: document after listing')
        nested = {p['name'] for lt in all_layer_tags(t) for p in own_params(lt)}
        if own:
            n = rng.choice(list(own))
            if rng.random() < .5 and set(own) & nested:
                n = rng.choice(sorted(set(own) & nested))
            p = own[n]
            kind = param_kind(p)
            got = h.ok(lambda: l[n], f'{what0}[{n!r}]')
            h.true(got.tag is kids(p)[0], f'{what0}[{n!r}]: not its own parameter')
            h.true(n in l, f'{n!r} in {what0}')
            attr = 'type_' if n == 'type' else n
            if any(attr in vars(c) for c in type(l).mro()) and hasattr(type(l), '__mro__'):
                if not (kind == 'time' and False):
                    g2 = h.ok(lambda: getattr(l, attr), f'{what0}.{attr}')
                    h.true(g2.tag is kids(p)[0], f'{what0}.{attr}: not its own parameter')
            h.eq(exact(a._soup), whole, f'{what0}: document after reading {n!r}')
            rest = mask(a._soup, p)
            op = rng.choice(['item', 'itemval', 'attr', 'foreign', 'badtype'])
            if kind in CLS:
                raw = gen_raw(kind, rng)
                snap = canon(CLS[kind](raw).tag)
                what = f'{what0}[{n!r}] = {raw!r} ({op})'
                h.log(what)
                if op == 'item':
                    h.ok(lambda: l.__setitem__(n, raw), what)
                elif op == 'itemval':
                    val = CLS[kind](raw)
                    h.ok(lambda: l.__setitem__(n, val), what)
                elif op == 'attr':
                    if not any(attr in vars(c) for c in type(l).mro()):
                        continue
                    h.ok(lambda: setattr(l, attr, raw), what)
                elif op == 'foreign':
                    others = [kids(q)[0] for lt in all_layer_tags(a._tag) for q in own_params(lt) if q is not p and param_kind(q) == kind]
                    # or part of one: of a transformation, or a waypoint
                    parts = [t for lt in all_layer_tags(a._tag) for q in own_params(lt) if q is not p
                             for t in kids(q)[0].find_all(kind)
                             if t.parent.name in ('waypoint', 'offset', 'scale', 'angle', 'skew_angle') and t.find_parent('layer') is lt]
                    if parts and kind != 'transformation' and rng.random() < .5:
                        others = parts
                    if not others:
                        continue
                    q = rng.choice(others)
                    val = Value.from_tag(q)
                    snap = canon(q)
                    h.ok(lambda: l.__setitem__(n, val), what0 + f'[{n!r}] = a value from elsewhere')
                else:
                    k2 = wrong_kind(rng, kind)
                    val = CLS[k2](gen_raw(k2, rng))
                    h.raises(TypeError, lambda: l.__setitem__(n, val), f'{what0}[{n!r}] = {short(val)}')
                    h.eq(exact(a._soup), whole, f'{what0}[{n!r}]: document after being refused')
                    continue
                h.eq(len(kids(p)), 1, what + ': number of values')
                found = canon(kids(p)[0])
                if kind == 'integer' and op == 'attr':
                    found = (found[0], tuple(x for x in found[1] if x[0] == 'value'), found[2])
                if kind == 'time' and op in ('item', 'attr', 'itemval'):
                    fps = float(a._tag['fps'])
                    frames = parse_simple(raw, fps) if isinstance(raw, str) else raw
                    h.eq(found[0], 'time', what)
                    h.near(parse_simple(dict(found[1])['value'], fps), frames, 1e-6, what)
                else:
                    h.eq(found, snap, what)
                h.eq(canon(l[n].tag)[0], canon(kids(p)[0])[0], what + ': read back')
                h.true(l[n].tag is kids(p)[0], what + ': read back')
                h.eq(mask(a._soup, p), rest, what + ': rest of the document')
        absent = rng.choice(['wombat', '', 'Origin', 'param', 'canvas2', 'x'])
        if absent not in own and absent not in nested:
            whole = exact(a._soup)
            h.raises(KeyError, lambda: l[absent], f'{what0}[{absent!r}]')
            h.raises(KeyError, lambda: l.__setitem__(absent, 1), f'{what0}[{absent!r}] = 1')
            h.true(absent not in l, f'{absent!r} in {what0}')
            if absent:
                h.raises(AttributeError, lambda: getattr(l, absent), f'{what0}.{absent}')
            h.eq(exact(a._soup), whole, 'document after looking for an absent parameter')
        missing = [n for n, k in (LAYERS.get(norm(t['type'])) or LAYERS.get(t['type'].lower()) or [])
                   if n not in own and n not in nested and n != 'type']
        if missing and any(missing[0] in vars(c) for c in type(l).mro()):
            h.raises(AttributeError, lambda: getattr(l, missing[0]), f'{what0}.{missing[0]}, which is absent')
            h.raises(AttributeError, lambda: setattr(l, missing[0], 1), f'{what0}.{missing[0]} = 1, which is absent')
            h.raises(KeyError, lambda: l[missing[0]], f'{what0}[{missing[0]!r}], which is absent')


########################################################################
# C12

def some_group(h, a):
    """(group object, its tag)"""
    t = pick_layer(h, a, is_group)
    if t is None or h.rng.random() < .4:
        return a, a._tag
    return Layer.from_tag(t), t


def new_layer(h, a):
    rng = h.rng
    k = rng.randrange(3)
    if k == 0:
        return rng.choice([sl.Circle, sl.Text, sl.Group, sl.Rotate, sl.Rectangle])(), None
    return None, None


def listing(tag):
    return list(reversed(direct_layer_tags(tag)))


def canvas_of(tag):
    return kids(own_param(tag, 'canvas'), 'canvas')[0] if tag.name == 'layer' else tag


def nonlayers(canvas):
    return [canon(c) for c in canvas.contents if not (isinstance(c, bs4.Tag) and c.name == 'layer')
            and (isinstance(c, bs4.Tag) or str(c).strip())]


def check_group(h, g, gt, what):
    exp = listing(gt)
    got = h.ok(lambda: list(g.children), what)
    h.true(len(got) == len(exp) and all(x.tag is y for x, y in zip(got, exp)),
           f'{what}: children: expected {[(t["type"], t.get("desc")) for t in exp]}, found {short(got)}')
    h.eq(len(g), len(exp), f'{what}: len()')
    h.true([x.tag for x in g] == [x.tag for x in got], f'{what}: iteration')
    for i in range(-len(exp), len(exp)):
        h.true(g[i].tag is exp[i], f'{what}: [{i}]')
        h.eq(norm(g[i].tag['type']), norm(type(g[i]).__name__), f'{what}: class of [{i}]')
    for i in (len(exp), -len(exp)-1):
        h.raises(IndexError, lambda: g[i], f'{what}: [{i}]')
    for x in got:
        if gt.name == 'layer':
            h.true(x.parent is not None and x.parent.tag is gt, f'{what}: parent of {short(x)}')
        else:
            h.true(x.parent is None, f'{what}: parent of {short(x)}')


@case('C12', 6)
def stacking(h):
    rng = h.rng
    a = doc(h, depth=3, nlayers=rng.choice([0, 1, 2, 3, 4]))
    for step in range(rng.randint(1, 6)):
        g, gt = some_group(h, a)
        check_group(h, g, gt, 'group')
        exp = listing(gt)
        canvas = canvas_of(gt)
        extra = nonlayers(canvas)
        op = rng.choice(['append', 'append', 'insert', 'insert', 'bad'])
        if op == 'bad':
            before = exact(a._soup)
            bad = rng.choice([None, 5, 'x', bs4.Tag(name='layer'), sv.Real(1.0)])
            h.raises(TypeError, lambda: g.append(bad), f'append({bad!r})')
            h.raises(TypeError, lambda: g.insert(0, bad), f'insert(0, {bad!r})')
            h.eq(exact(a._soup), before, 'document after being refused')
            continue
        inside = {id(x) for x in all_layer_tags(gt)}
        movable = [t for t in all_layer_tags(a._tag) if id(t) not in inside and t is not gt
                   and not any(x is gt for x in all_layer_tags(t))]
        src = rng.choice(['new', 'new', 'elsewhere', 'same'])
        if src == 'same' and exp:
            t = rng.choice(exp)
            l = Layer.from_tag(t)
        elif src == 'elsewhere' and movable:
            t = rng.choice(movable)
            l = Layer.from_tag(t)
        else:
            l = rng.choice([sl.Circle, sl.Text, sl.Group, sl.Rotate, sl.Rectangle, sl.Timeloop])()
            t = l.tag
        snap = exact(t)
        others = [x for x in all_layer_tags(a._tag) if x is not t]
        other_docs = [(x, exact(x)) for x in others if x is not gt and not any(y is gt or y is t for y in all_layer_tags(x))]
        if op == 'append':
            h.log('append', src)
            h.ok(lambda: g.append(l), f'append({short(l)})')
            want = [x for x in exp if x is not t] + [t]
            what = 'after append'
        else:
            if not exp:
                continue
            i = rng.randrange(-len(exp), len(exp))
            h.log('insert', i, 'of', len(exp), src)
            h.ok(lambda: g.insert(i, l), f'insert({i}, {short(l)})')
            j = i if i >= 0 else i+len(exp)
            rest = [x for x in exp if x is not t]
            want = rest[:j] + [t] + rest[j:]
            what = f'after insert({i}) into {len(exp)}'
        now = listing(gt)
        h.true(len(now) == len(want) and all(x is y for x, y in zip(now, want)),
               f'{what}: expected {[(x["type"], x.get("desc")) for x in want]}, found {[(x["type"], x.get("desc")) for x in now]}')
        h.eq(exact(t), snap, f'{what}: the layer itself')
        h.eq(nonlayers(canvas), extra, f'{what}: metadata and other contents')
        check_group(h, g, gt, what)
        for x, e in other_docs:
            h.eq(exact(x), e, f'{what}: another layer')


@case('C12', 1)
def leaf_layers(h):
    a = doc(h, depth=1, nlayers=3)
    t = pick_layer(h, a, lambda t: not is_group(t))
    if t is None:
        return
    l = Layer.from_tag(t)
    h.eq(list(l.children), [], 'children of a layer which is not a group')
    h.raises(NotImplementedError, lambda: l.append(sl.Circle()), 'append() to a layer which is not a group')


########################################################################
# C13

BASES = {n: v.get('bases', [v['class'], 'Layer']) for n, v in TABLE['layers'].items()}


def attr_value(t, k):
    """independent reading of a tag attribute field"""
    if k == 'desc':
        return t.attrs.get('desc')
    if k == 'active':
        return t.attrs.get('active', 'true').lower() == 'true'
    if k == 'exclude_from_rendering':
        return t.attrs.get(k, 'false').lower() == 'true'
    if k == 'version':
        if 'version' not in t.attrs:
            return float(TABLE['layers'][norm(t['type'])]['attrs']['version'])
        return float(t.attrs['version'])
    raise KeyError(k)


SEARCH_CLASSES = ['Layer', 'Group', 'Circle', 'Text', 'Rotate', 'Zoom', 'Scale', 'Timeloop', 'Blur', 'Rectangle', 'Linear_Gradient']


def respell(rng, n):
    return rng.choice([n, n.upper(), n.title(), n.replace('_', ''), n[0] + '_' + n[1:], n.capitalize() + '_'])


@case('C13', 8)
def searches(h):
    rng = h.rng
    a = doc(h, depth=3, nlayers=rng.choice([1, 2, 3, 4]))
    whole = exact(a._soup)
    types = list(LAYERS) + ['group']
    for step in range(10):
        g, gt = some_group(h, a)
        recursive = rng.random() < .65
        pool = all_layer_tags(gt) if recursive else direct_layer_tags(gt)
        preds = []
        args = []
        kw = {}
        mode = rng.choice(['none', 'str', 'class', 'bool', 'pred', 'kw', 'strkw', 'kwkw', 'attrs', 'classkw'])

        def field_crit():
            k = rng.choice(['desc', 'desc', 'active', 'exclude_from_rendering', 'version'])
            if k == 'desc':
                v = rng.choice(DESCS + [None])
            elif k == 'version':
                v = rng.choice([0.1, 0.2, 0.3, 1.0])
            else:
                v = rng.random() < .5
            return k, v

        def type_crit(asclass):
            if asclass:
                c = rng.choice(SEARCH_CLASSES)
                return getattr(sl, c) if c != 'Layer' else Layer, (lambda t: c in BASES[norm(t['type'])])
            n = rng.choice(types + ['wombat'])
            sp = respell(rng, n)
            return sp, (lambda t: norm(t['type']) == norm(n))

        if mode in ('str', 'strkw'):
            x, p = type_crit(False)
            preds.append(p)
            if rng.random() < .7:
                args.append(x)
            else:
                kw['type'] = x
        if mode in ('class', 'classkw'):
            x, p = type_crit(True)
            preds.append(p)
            if rng.random() < .7:
                args.append(x)
            else:
                kw['type'] = x
        if mode == 'bool':
            b = rng.random() < .5
            args.append(b)
            preds.append(lambda t: b)
        if mode == 'pred':
            m = rng.randrange(3)
            fn = [lambda t: t.get('desc') == 'Ball', lambda t: t.get('active') == 'true', lambda t: len(own_params(t)) > 3][m]
            yes, no = rng.choice([(True, False), (True, False), (1, 0), ('yes', ''), (2, None), ([0], [])])
            args.append(lambda x: yes if fn(x if isinstance(x, bs4.Tag) else x.tag) else no)
            preds.append(fn)
        if mode in ('kw', 'strkw', 'classkw', 'kwkw') or mode in ('bool', 'pred') and rng.random() < .4:
            for _ in range(2 if mode == 'kwkw' else 1):
                k, v = field_crit()
                if k in kw:
                    continue
                kw[k] = v
                preds.append(lambda t, k=k, v=v: attr_value(t, k) == v)
        if mode == 'attrs':
            k, v = field_crit()
            kw['attrs'] = {k: v}
            preds.append(lambda t, k=k, v=v: attr_value(t, k) == v)
            if rng.random() < .4:
                x, p = type_crit(rng.random() < .5)
                kw['attrs']['type'] = x
                preds.append(p)
        want = [t for t in pool if all(p(t) for p in preds)]
        how = {'recursive': recursive} if not recursive or rng.random() < .5 else {}
        what = f'find_all({args}, {kw}, {how}) in {"the animation" if gt.name != "layer" else gt.get("desc")!r}'
        h.log(what)
        got = h.ok(lambda: g.find_all(*args, **how, **{k: (dict(v) if k == 'attrs' else v) for k, v in kw.items()}), what)
        h.true(len(got) == len(want) and all(x.tag is y for x, y in zip(got, want)),
               f'{what}: expected {[(t["type"], t.get("desc")) for t in want]}, found {short(got)}')
        for x in got:
            h.eq(norm(type(x).__name__), norm(x.tag['type']), f'{what}: class')
        one = h.ok(lambda: g.find(*args, **how, **{k: (dict(v) if k == 'attrs' else v) for k, v in kw.items()}), what)
        if want:
            h.true(one is not None and one.tag is want[0], f'{what}: find()')
        else:
            h.true(one is None, f'{what}: find() when there is nothing')
        h.eq(exact(a._soup), whole, f'{what}: document afterwards')
        if 'attrs' in kw:
            d = dict(kw['attrs'])
            h.ok(lambda: g.find_all(*args, **how, **kw), what)
            h.eq(kw['attrs'], d, f'{what}: the criteria afterwards')


@case('C13', 2)
def field_searches(h):
    """search by the value of a parameter"""
    rng = h.rng
    a = doc(h, depth=3, nlayers=3)
    pool = all_layer_tags(a._tag)
    cand = []
    for t in pool:
        for p in own_params(t):
            v = kids(p)[0]
            if v.name in ('integer', 'bool', 'string') and p['name'] not in ('type', 'blend_method'):
                cand.append((p['name'], v.name))
    if not cand:
        return
    n, k = rng.choice(cand)

    def read(t):
        p = own_param(t, n)
        if p is None or kids(p)[0].name != k:
            return KeyError
        v = kids(p)[0]
        if k == 'string':
            return ''.join(str(c) for c in v.contents)
        return int(v['value']) if k == 'integer' else v['value'] == 'true'
    vals = [read(t) for t in pool if read(t) is not KeyError]
    want_v = rng.choice(vals)
    groups = {id(t) for t in pool if is_group(t)}
    # groups which lack a parameter but contain a layer that has it are left out of this check
    ok = True
    for t in pool:
        if own_param(t, n) is None and any(own_param(x, n) is not None for x in all_layer_tags(t)):
            ok = False
        p = own_param(t, n)
        if p is not None and kids(p)[0].name not in (k,):
            ok = False
    if not ok or not all(any(n in vars(c) for c in type(Layer.from_tag(t)).mro()) or own_param(t, n) is None for t in pool):
        return
    want = [t for t in pool if read(t) is not KeyError and read(t) == want_v]
    if k == 'integer' or k == 'bool':
        pass
    got = h.ok(lambda: a.find_all(**{n: want_v}), f'find_all({n}={want_v!r})')
    h.true([x.tag for x in got] == want, f'find_all({n}={want_v!r}): expected {[(t["type"], t.get("desc")) for t in want]}, found {short(got)}')


@case('C13', 1)
def bad_searches(h):
    rng = h.rng
    a = doc(h, depth=2, nlayers=2)
    g, gt = some_group(h, a)
    before = exact(a._soup)
    for args, kw in [((True, True), {}), (('text', 'circle'), {}), (('text', sl.Group), {}), (('text',), {'type': 'circle'}), (('text',), {'type': ''}), ((sl.Text,), {'type': None}),
                     ((sl.Text,), {'type': 'circle'}), ((), {'desc': 'x', 'attrs': {'desc': 'y'}}), (('text',), {'attrs': {'type': 'text'}}),
                     ((), {'type': 'text', 'attrs': {'type': 'circle'}}), ((), {'active': True, 'attrs': {'desc': 'x', 'active': True}})]:
        h.raises(ValueError, lambda: g.find_all(*args, **kw), f'find_all({args}, {kw})')
        h.raises(ValueError, lambda: g.find(*args, **kw), f'find({args}, {kw})')
    h.eq(exact(a._soup), before, 'document after refused searches')


########################################################################
# C14

@case('C14', 3)
def lookups(h):
    rng = h.rng
    for reg, table, base in [(Layer.handles_type, {n: v['class'] for n, v in TABLE['layers'].items()}, Layer),
                             (Value.handles_type, TABLE['values'], Value)]:
        for n, c in table.items():
            for _ in range(2):
                sp = respell(rng, c)
                got = h.ok(lambda: reg.from_name(sp), f'from_name({sp!r})')
                h.eq(got.__name__, c, f'from_name({sp!r})')
                h.true(issubclass(got, base), f'from_name({sp!r}) is a {base.__name__}')
        for bad in ['wombat', '', ' ', 'group ', 'real2', 'cir-cle', 'animated', 'layer', 'param', 'x'*50,
                    ''.join(rng.choice('abcxyz_') for _ in range(9))]:
            if norm(bad) in table:
                continue
            h.raises(KeyError, lambda: reg.from_name(bad), f'from_name({bad!r})')
    bad = bs4.Tag(name='layer')
    h.raises(ValueError, lambda: Layer.from_tag(bad), 'a <layer> without a type')
    bad['type'] = 'wombat'
    h.raises(KeyError, lambda: Layer.from_tag(bad), 'a <layer> with an unknown type')
    h.raises(KeyError, lambda: Value.from_tag(bs4.Tag(name='wombat')), 'a value with an unknown type')
    for k in KINDS:
        for _ in range(2):
            name = rng.choice([k, k.upper(), k.title()])
            xml = xml_value(k, rng)
            t = bs4.BeautifulSoup(xml, features='xml').contents[0].extract()
            got = h.ok(lambda: Value.from_tag(t), f'reading {xml}')
            h.true(type(got) is CLS[k] and got.tag is t, f'reading {xml}: {type(got)}')
            an = bs4.BeautifulSoup(xml_animated(k, rng, 24.0), features='xml').contents[0].extract()
            got = h.ok(lambda: Value.from_tag(an), f'reading {an}')
            h.true(type(got) is CLS[k] and got.tag is an and got.is_animated, f'reading {an}: {type(got)}')


def num_canon(c):
    """canon, with numbers compared as numbers"""
    if isinstance(c, str):
        try:
            return float(c)
        except ValueError:
            return c
    if isinstance(c, (tuple, list)):
        if len(c) == 3 and isinstance(c[0], str) and isinstance(c[1], (tuple, list)) and isinstance(c[2], (tuple, list)):
            return (c[0], tuple((k, num_canon(v) if c[0] != 'string' else v) for k, v in c[1]),
                    tuple(num_canon(x) if c[0] != 'string' else x for x in c[2]))
        return tuple(num_canon(x) for x in c)
    return c


def tup(c):
    return tuple(tup(x) for x in c) if isinstance(c, list) else c


@case('C14', 2)
def new_layers(h):
    rng = h.rng
    names_ = list(TABLE['layers'])
    rng.shuffle(names_)
    a = doc(h, nlayers=1)
    for n in names_[:25]:
        e = TABLE['layers'][n]
        if not e['constructible']:
            continue
        cls = Layer.handles_type.from_name(n)
        h.log(n)
        l = h.ok(lambda: cls(), f'{e["class"]}()')
        t = l.tag
        h.eq(t.name, 'layer', f'new {n}: tag')
        h.eq({k: str(v) for k, v in t.attrs.items()}, e['attrs'], f'new {n}: attributes')
        h.eq(t['type'], e['attrs']['type'], f'new {n}: type')
        h.true(l.active is True and l.exclude_from_rendering is False and l.desc is None, f'new {n}: active, rendered, no description')
        got = [(p['name'], canon(kids(p)[0]) if len(kids(p)) == 1 else None) for p in own_params(t)]
        h.eq(sorted(x for x, _ in got), sorted(x for x, _ in e['params']), f'new {n}: parameters')
        want = {k: num_canon(tup(c)) for k, c in e['params']}
        for k, c in got:
            h.eq(num_canon(c), want[k], f'new {n}: default of {k}')
        # read back
        txt = str(t)
        t2 = bs4.BeautifulSoup(txt, features='xml').contents[0].extract()
        a._tag.append(t2)
        l2 = h.ok(lambda: Layer.from_tag(t2), f'reading a new {n}')
        h.true(type(l2) is cls, f'reading a new {n}: {type(l2)}')
        h.eq(sorted(l2.keys()), sorted(k for k, _ in e['params']), f'reading a new {n}: parameters')
        h.eq({k: canon(v.tag) for k, v in l2.items()}, {k: c for k, c in got}, f'reading a new {n}: values')
        for k, v in l2.items():
            try:
                v.value
            except NotImplementedError:
                pass
            except Exception as ex:
                h.fail(f'reading a new {n}: {k}.value raises {type(ex).__name__}: {ex}')
        # each new layer is independent
        other = cls()
        h.true(other.tag is not t, f'two new {n}s')
        ps = own_params(t)
        if ps:
            p = rng.choice(ps)
            snap = exact(other.tag)
            p['name'] = 'changed'
            kids(p)[0]['x'] = 'y'
            h.eq(exact(other.tag), snap, f'a new {n}, after another was changed')


@case('C14', 1)
def new_text(h):
    rng = h.rng
    s = rnd_text(rng)
    l = h.ok(lambda: sl.Text(s), f'Text({s!r})')
    h.eq(l['text'].value, s, f'Text({s!r})')
    h.eq(sorted(l.keys()), sorted(k for k, _ in TABLE['layers']['text']['params']), 'parameters of a new text layer')
    h.raises(TypeError, lambda: sl.Circle('x'), "Circle('x')")
