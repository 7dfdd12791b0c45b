from .hlib import *

PARAM_FOR = {'real': ('circle', 'radius'), 'integer': ('text', 'style'), 'bool': ('circle', 'invert'), 'angle': ('rotate', 'amount'),
             'string': ('text', 'text'), 'time': ('timeloop', 'duration'), 'color': ('circle', 'color'), 'vector': ('circle', 'origin'),
             'gradient': ('linear_gradient', 'gradient')}


class Fixture:
    """
    A document holding one value of the given kind, together with an
    independent picture of it.
    """
    def __init__(self, h, kind=None, animated=None, attached=None, unsorted=False):
        rng = self.rng = h.rng
        self.h = h
        self.kind = kind or rng.choice(KINDS)
        self.attached = (rng.random() < .8) if attached is None else attached
        animated = (rng.random() < .7) if animated is None else animated
        self.anim = doc(h, nlayers=rng.choice([0, 1]), depth=1) if self.attached else None
        fps = float(self.anim._tag['fps']) if self.attached else None
        self.fps = fps
        if animated:
            times = sorted(rng.sample(ODD_TIMES, rng.randint(2, 6))) if rng.random() < .3 else None
            xml = xml_animated(self.kind, rng, 24.0 if fps is None else fps, times=times)
            if not self.attached:
                import re
                xml = re.sub(r'time="[^"]*"', lambda m, c=iter(range(0, 9999, rng.randint(1, 20))): f'time="{next(c)}f"', xml)
        else:
            xml = xml_value(self.kind, rng)
        tag = bs4.BeautifulSoup(xml, features='xml').contents[0].extract()
        if unsorted and animated:
            ws = kids(tag, 'waypoint')
            rng.shuffle(ws)
            for w in ws:
                w.extract()
            for w in ws:
                tag.append(w)
        if self.attached:
            ty, pname = PARAM_FOR[self.kind]
            layer = bs4.Tag(name='layer')
            layer['type'] = ty
            param = bs4.Tag(name='param')
            param['name'] = pname
            param.append('\n')
            param.append(tag)
            param.append('\n')
            layer.append(param)
            self.anim._tag.append(layer)
            self.param = param
            self.layer = Layer.from_tag(layer)
            self.value = self.layer[pname]
        else:
            self.param = None
            self.value = CLS[self.kind](tag)
        h.log('fixture', self.kind, 'attached' if self.attached else 'detached', str(tag))

    def vtag(self):
        """the tag which holds the value at present"""
        if self.param is not None:
            return kids(self.param)[0]
        return self.value.tag

    def frames(self, text):
        f = text.frames if isinstance(text, T) else parse_simple(str(text), self.fps)
        assert f is not None, text
        return f

    def picture(self):
        """None if not animated; else list of (frames, canon(value), before, after) in document order"""
        t = self.vtag()
        if t.name != 'animated':
            return None
        out = []
        for w in kids(t):
            self.h.eq(w.name, 'waypoint', 'children of <animated>')
            v = kids(w)
            self.h.eq(len(v), 1, 'values of a waypoint')
            out.append((self.frames(w['time']), canon(v[0]), INTERP_CANON.get(w['before'], w['before']),
                        INTERP_CANON.get(w['after'], w['after'])))
        return out

    def rest(self):
        return mask(root_of(self.param), self.param) if self.param is not None else None

    def type_name(self):
        return self.kind


def near_entries(h, found, model, what):
    """found: list of entries; model: dict frames -> (canon, before, after)"""
    if found is None:
        h.true(not model, f'{what}: no longer animated, but expected {len(model)} waypoints')
        return
    exp = sorted(model.items())
    h.eq(len(found), len(exp), f'{what}: number of waypoints')
    for (t, c, b, a), (et, (ec, eb, ea)) in zip(found, exp):
        h.near(t, et, 1e-6, f'{what}: time of waypoint')
        h.eq(c, ec, f'{what}: value of waypoint at {et}')
        h.eq((b, a), (eb, ea), f'{what}: interpolations of waypoint at {et}')


def model_of(pic):
    return {t: (c, b, a) for t, c, b, a in (pic or [])}


def rnd_key(rng, frames, fx):
    """a notation for an instant"""
    opts = ['int', 'float', 'ftext', 'T']
    if frames < 0:
        opts = ['ftext', 'T', 'Tfps']
    if fx.attached:
        opts.append('Tfps')
        if float(frames).is_integer():
            opts.append('stext')
    if fx.attached and frames >= 0 and float(frames).is_integer():
        opts.append('neg')
    o = rng.choice(opts)
    if o == 'int':
        return int(frames) if float(frames).is_integer() else float(frames)
    if o == 'float':
        return float(frames)
    if o == 'ftext':
        return f'{plain(frames)}f'
    if o == 'T':
        return T(f'{plain(frames)}f')
    if o == 'Tfps':
        return T(f'{plain(frames)}f', ref=fx.anim._tag if fx.attached else None)
    if o == 'stext':
        return frames_text(int(frames), fx.fps, rng)
    if o == 'neg':
        b = parse_simple(fx.anim._tag['begin-time'], fx.fps)
        e = parse_simple(fx.anim._tag['end-time'], fx.fps)
        n = frames - (e-b+1)
        return n if n < 0 and float(e-b).is_integer() else float(frames)
    raise KeyError(o)


def value_canon(fx, raw):
    """what a fresh value of this kind looks like in XML"""
    return canon(CLS[fx.kind](raw).tag)


def close_canon(kind, a, b):
    return a == b


def check_api(h, fx, model, what):
    v = fx.value
    tl = v.timeline
    exp = sorted(model.items())
    h.eq(v.is_animated, bool(exp), f'{what}: is_animated')
    h.eq(len(tl), len(exp), f'{what}: len(timeline)')
    h.eq(bool(tl), bool(exp), f'{what}: bool(timeline)')
    seq = list(tl)
    h.eq([w.time.frames for w in seq], [t for t, _ in exp] if all(float(t) in [x.time.frames for x in seq] for t, _ in exp) else [t for t, _ in exp], f'{what}: times by iteration') if all(abs(w.time.frames-t) > 1e-9 for w, (t, _) in zip(seq, exp)) or len(seq) != len(exp) else None
    for w, (t, (c, b, a)) in zip(seq, exp):
        h.near(w.time.frames, t, 1e-6, f'{what}: time by iteration')
        h.eq(canon(w.value.tag), c, f'{what}: value by iteration at {t}')
        h.eq((w.before, w.after), (b, a), f'{what}: interpolations by iteration at {t}')
    ks, vs, its = tl.keys(), tl.values(), tl.items()
    h.eq(len(ks), len(exp), f'{what}: keys()')
    for k, (t, _) in zip(sorted(ks), exp):
        h.near(k.frames, t, 1e-6, f'{what}: keys()')
    h.eq([canon(w.value.tag) for w in sorted(vs, key=lambda w: w.time.frames)], [c for _, (c, _, _) in exp], f'{what}: values()')
    h.eq(len(its), len(exp), f'{what}: items()')
    for k, w in its:
        h.near(k.frames, w.time.frames, 1e-9, f'{what}: items()')


@case('C04', 6)
def history(h):
    rng = h.rng
    fx = Fixture(h)
    model = model_of(fx.picture())
    rest = fx.rest()
    if model:
        check_api(h, fx, model, 'as loaded')
    kept = []
    for step in range(rng.randint(1, 7)):
        op = rng.choice(['set', 'set', 'set', 'del', 'del', 'get', 'getmissing', 'delmissing', 'badget'])
        present = sorted(model)
        if op in ('set',):
            if present and rng.random() < .4:
                t = rng.choice(present)
            else:
                t = rng.choice([rng.randint(0, 500), rng.randint(0, 50), 0, round(rng.uniform(0, 300), 2),
                                -rng.randint(1, 50)])
            raw = gen_raw(fx.kind, rng)
            c = value_canon(fx, raw)
            how = rng.choice(['raw', 'value', 'waypoint', 'waypoint'])
            b = a = 'clamped'
            if how == 'raw':
                x = raw
            elif how == 'value':
                x = CLS[fx.kind](raw)
            else:
                b, a = rng.choice(INTERP), rng.choice(INTERP)
                x = Waypoint(T(rng.choice([t if t >= 0 else 0, 3]), ref=fx.anim._tag if fx.attached and rng.random() < .5 else None),
                             CLS[fx.kind](raw), before=b, after=a)
                b, a = INTERP_CANON[b], INTERP_CANON[a]
                if kept and rng.random() < .4:
                    # the same waypoint as before, somewhere else
                    x, c, b, a = rng.choice(kept)
                    raw = 'seen before'
                else:
                    kept.append((x, c, b, a))
            key = rnd_key(rng, t, fx)
            h.log('set', repr(key), how, repr(raw))
            h.ok(lambda: fx.value.timeline.__setitem__(key, x), f'timeline[{key!r}] = {how} {raw!r}')
            old = [m for m in model if abs(m-t) < 1e-9]
            for m in old:
                del model[m]
            model[float(t)] = (c, b, a)
        elif op == 'del' and present:
            t = rng.choice(present)
            key = rnd_key(rng, t, fx)
            h.log('del', repr(key))
            last = model[t]
            h.ok(lambda: fx.value.timeline.__delitem__(key), f'del timeline[{key!r}]')
            del model[t]
            if not model:
                h.true(not fx.value.is_animated, 'deleting the last waypoint leaves the value un-animated')
                h.eq(canon(fx.vtag()), last[0], 'value after deleting the last waypoint')
                h.eq(canon(fx.value.tag), last[0], 'value after deleting the last waypoint')
        elif op == 'get' and present:
            t = rng.choice(present)
            key = rnd_key(rng, t, fx)
            w = h.ok(lambda: fx.value.timeline[key], f'timeline[{key!r}], where there are waypoints at {present}')
            h.near(w.time.frames, t, 1e-6, f'time of timeline[{key!r}]')
            h.eq((canon(w.value.tag), w.before, w.after), model[t], f'timeline[{key!r}]')
        elif op in ('getmissing', 'delmissing'):
            t = rng.choice([x for x in range(0, 60) if float(x) not in model])
            key = rnd_key(rng, t, fx)
            before = exact(fx.vtag())
            if op == 'getmissing':
                h.raises(KeyError, lambda: fx.value.timeline[key], f'timeline[{key!r}], where waypoints are at {present}')
            else:
                def go():
                    del fx.value.timeline[key]
                h.raises(KeyError, go, f'del timeline[{key!r}], where waypoints are at {present}')
            h.eq(exact(fx.vtag()), before, 'value after a failed lookup')
        else:
            continue
        near_entries(h, fx.picture(), model, f'after step {step} ({op})')
        check_api(h, fx, model, f'after step {step} ({op})')
    h.eq(fx.rest(), rest, 'rest of the document')


@case('C04', 2)
def unsorted_file(h):
    """timelines whose waypoints are stored in any order can be looked up and come out sorted"""
    rng = h.rng
    fx = Fixture(h, animated=True, unsorted=True)
    model = model_of(fx.picture())
    for t in model:
        key = rnd_key(rng, t, fx)
        w = h.ok(lambda: fx.value.timeline[key], f'timeline[{key!r}]')
        h.eq((canon(w.value.tag), w.before, w.after), model[t], f'timeline[{key!r}]')
    seq = [w.time.frames for w in fx.value.timeline]
    h.eq(seq, sorted(seq), 'iteration order')
    t = rng.randint(600, 700)
    raw = gen_raw(fx.kind, rng)
    fx.value.timeline[t] = raw
    model[float(t)] = (value_canon(fx, raw), 'clamped', 'clamped')
    near_entries(h, fx.picture(), model, 'after setting')


@case('C04', 1)
def independent_copies(h):
    """changing the value that was put into a timeline, or one got out of it, changes nothing in it"""
    rng = h.rng
    fx = Fixture(h, kind=rng.choice(['real', 'integer', 'string', 'color', 'vector', 'bool', 'angle']), animated=True)
    v1 = CLS[fx.kind](gen_raw(fx.kind, rng))
    fx.value.timeline[7] = v1
    pic = fx.picture()
    v1.value = gen_raw(fx.kind, rng)
    h.eq(fx.picture(), pic, 'timeline after changing the value which had been put into it')


########################################################################

def rnd_waypoints(h, fx, n, existing=()):
    rng = h.rng
    out = []
    for _ in range(n):
        t = rng.choice([rng.randint(0, 500), rng.randint(0, 30), round(rng.uniform(0, 100), 2), 0] + list(existing)*2)
        b, a = rng.choice(INTERP), rng.choice(INTERP)
        raw = gen_raw(fx.kind, rng)
        tm = T(f'{plain(t)}f', ref=fx.anim._tag if fx.attached and rng.random() < .5 else None)
        w = Waypoint(tm, CLS[fx.kind](raw), before=b, after=a)
        out.append((float(t), w, (value_canon(fx, raw), INTERP_CANON[b], INTERP_CANON[a])))
    return out


def other_kind(rng, kind):
    return rng.choice([k for k in KINDS if k != kind])


@case('C05', 5)
def bulk(h):
    rng = h.rng
    fx = Fixture(h)
    model = model_of(fx.picture())
    rest = fx.rest()
    for step in range(rng.randint(1, 4)):
        n = rng.choice([0, 1, 1, 2, 3, 4])
        ws = rnd_waypoints(h, fx, n, existing=[t for t in model if rng.random() < .4])
        op = rng.choice(['add', 'addover', 'iadd', 'iattr', 'assign', 'assigndict', 'assigntl'])
        lst = [w for _, w, _ in ws]
        times = [t for t, _, _ in ws]
        single = n == 1 and rng.random() < .5
        arg = lst[0] if single else lst
        before = exact(fx.vtag())
        h.log(op, times, 'onto', sorted(model))
        what = f'{op} of waypoints at {times} onto {sorted(model)}'
        clash = any(t in model for t in times)
        new = {t: m for t, _, m in ws}
        if op == 'add' and clash:
            h.raises(ValueError, lambda: fx.value.timeline.add(arg), what)
            h.eq(exact(fx.vtag()), before, what + ': value after being refused')
            continue
        if op == 'add':
            h.ok(lambda: fx.value.timeline.add(arg), what)
            model = {**model, **new}
        elif op == 'addover':
            h.ok(lambda: fx.value.timeline.add(arg, overwrite=True), what)
            model = {**model, **new}
        elif op == 'iadd':
            def go():
                tl = fx.value.timeline
                tl += arg
            h.ok(go, what)
            model = {**model, **new}
        elif op == 'iattr':
            def go():
                v = fx.value
                v.timeline += arg
            h.ok(go, what)
            model = {**model, **new}
        elif op == 'assign':
            if not lst and not model:
                continue
            first = canon(kids(kids(fx.vtag())[0])[0]) if model else None
            h.ok(lambda: setattr(fx.value, 'timeline', lst), what)
            model = dict(new)
        elif op == 'assigndict':
            if not lst:
                continue
            d = {w.time: w for w in lst}
            h.ok(lambda: setattr(fx.value, 'timeline', d), what)
            model = dict(new)
        elif op == 'assigntl':
            if not lst:
                continue
            o = CLS[fx.kind](gen_raw(fx.kind, rng))
            o.timeline = lst
            snap = exact(o.tag)
            h.ok(lambda: setattr(fx.value, 'timeline', o.timeline), what)
            h.eq(exact(o.tag), snap, what + ': the timeline it was copied from')
            model = dict(new)
        pic = fx.picture()
        if pic is not None and op == 'assign' and len(times) != len(set(times)):
            # the same instant twice: the last one counts
            pic = sorted({t: (t, c, b, a) for t, c, b, a in pic}.values())
        near_entries(h, pic, model, what)
        check_api(h, fx, model, what)
        h.eq(fx.rest(), rest, 'rest of the document')


@case('C05', 4)
def refused(h):
    rng = h.rng
    fx = Fixture(h)
    model = model_of(fx.picture())
    whole = exact(root_of(fx.vtag()))
    good = [w for _, w, _ in rnd_waypoints(h, fx, rng.randint(0, 3))]
    k2 = other_kind(rng, fx.kind)
    mistyped = Waypoint(T(rng.randint(0, 100)), CLS[k2](gen_raw(k2, rng)))
    # (of several at the same instant only the last counts)
    good = [w for w in good if w.time.frames != mistyped.time.frames]
    bads = [100, None, 'x', 1.5, T(3), CLS[fx.kind](gen_raw(fx.kind, rng)), object(), mistyped, mistyped, mistyped]
    bad = rng.choice(bads)
    i = rng.randint(0, len(good))
    lst = good[:i] + [bad] + good[i:]
    op = rng.choice(['add', 'addover', 'iadd', 'assign', 'assigndict', 'set', 'addone', 'assignone', 'assigntl'])
    v = fx.value
    if op == 'add':
        fn = lambda: v.timeline.add(lst)
    elif op == 'addover':
        fn = lambda: v.timeline.add(lst, overwrite=True)
    elif op == 'iadd':
        def fn():
            v.timeline += lst
    elif op == 'assign':
        fn = lambda: setattr(v, 'timeline', lst)
    elif op == 'assigndict':
        fn = lambda: setattr(v, 'timeline', dict(enumerate(lst)))
    elif op == 'addone':
        fn = lambda: v.timeline.add(bad)
    elif op == 'assignone':
        bad = rng.choice([5, 'x', None, (), mistyped, 1.5])
        fn = lambda: setattr(v, 'timeline', bad)
    elif op == 'assigntl':
        o = CLS[k2](gen_raw(k2, rng))
        o.timeline = [mistyped]
        fn = lambda: setattr(v, 'timeline', o.timeline)
    else:
        bad = mistyped
        fn = lambda: v.timeline.__setitem__(5, mistyped)
    h.log(op, short(lst))
    expect = TypeError
    if op in ('add', 'addone') and bad is mistyped:
        # it may also clash
        if any(w.time.frames in model for w in (lst if op == 'add' else [bad])):
            expect = (TypeError, ValueError)
    h.raises(expect, fn, f'{op} on a {fx.kind} timeline, with {short(bad)} at position {i}')
    h.eq(exact(root_of(fx.vtag())), whole, f'document after {op} was refused')
    h.true(v.tag is fx.vtag() or exact(v.tag) == exact(fx.vtag()), f'value after {op} was refused')
    if model:
        check_api(h, fx, model, f'after {op} was refused')


@case('C05', 1)
def mixed_rates(h):
    """waypoints that can't be put in order are refused, and nothing changes"""
    rng = h.rng
    fx = Fixture(h, attached=True)
    other = doc(h, fps=rng.choice(['17', '19.5']), nlayers=0)
    whole = exact(root_of(fx.vtag()))
    mk = lambda t, ref: Waypoint(T(t, ref=ref), CLS[fx.kind](gen_raw(fx.kind, rng)))
    lst = [mk(1001, fx.anim._tag), mk(1002, other._tag)]
    rng.shuffle(lst)
    for name, fn in [('add', lambda: fx.value.timeline.add(lst)), ('overwrite', lambda: fx.value.timeline.add(lst, overwrite=True)),
                     ('assign', lambda: setattr(fx.value, 'timeline', lst))]:
        h.raises(ValueError, fn, f'{name} of waypoints with different frame rates')
        h.eq(exact(root_of(fx.vtag())), whole, f'document after {name} was refused')


@case('C05', 1)
def clear_by_assignment(h):
    rng = h.rng
    fx = Fixture(h, animated=True)
    model = model_of(fx.picture())
    first = model[min(model)]
    rest = fx.rest()
    fx.value.timeline = rng.choice([[], {}])
    h.true(not fx.value.is_animated, 'assigning no waypoints leaves the value un-animated')
    h.eq(canon(fx.vtag()), first[0], 'assigning no waypoints leaves the first value')
    h.eq(fx.rest(), rest, 'rest of the document')


########################################################################

@case('C06', 4)
def toggle(h):
    rng = h.rng
    fx = Fixture(h)
    v = fx.value
    rest = fx.rest()
    for step in range(rng.randint(1, 5)):
        was = v.is_animated
        pic = fx.picture()
        snap = canon(fx.vtag())
        ex = exact(fx.vtag())
        to = rng.choice([True, False, not was, not was])
        truthy = rng.choice([to, to, 1 if to else 0])
        h.log('animated', was, '->', to)
        h.ok(lambda: setattr(v, 'is_animated', truthy), f'is_animated = {truthy!r} when it was {was} ({fx.kind}, {"attached" if fx.attached else "detached"})')
        h.eq(v.is_animated, to, 'is_animated after setting it')
        h.eq(fx.vtag().name == 'animated', to, 'the tag after setting is_animated')
        if to == was:
            h.eq(exact(fx.vtag()), ex, 'value, after setting is_animated to what it was')
        elif to:
            near_entries(h, fx.picture(), {0.0: (snap, 'clamped', 'clamped')}, f'animating a {fx.kind}')
            h.eq(fx.vtag().get('type'), snap[0], 'type of the animation')
            check_api(h, fx, {0.0: (snap, 'clamped', 'clamped')}, f'animating a {fx.kind}')
        else:
            h.eq(canon(fx.vtag()), pic[0][1], 'value after it stopped being animated')
            h.eq(canon(v.tag), pic[0][1], 'value after it stopped being animated')
            if fx.attached:
                h.true(v.tag is fx.vtag(), 'the value is still the one in the document')
        h.eq(fx.rest(), rest, 'rest of the document')
        if rng.random() < .3 and v.is_animated:
            v.timeline[rng.randint(1, 99)] = gen_raw(fx.kind, rng)


@case('C06', 2)
def fresh(h):
    rng = h.rng
    kind = rng.choice(KINDS)
    raw = gen_raw(kind, rng)
    v = CLS[kind](raw)
    snap = canon(v.tag)
    before = v.value if kind != 'time' else v.value.frames
    v.is_animated = True
    h.eq(len(v.timeline), 1, f'{kind}: waypoints after animating')
    h.eq(v.timeline[0].time.frames, 0, f'{kind}: time of the waypoint')
    h.eq(canon(v.timeline[0].value.tag), snap, f'{kind}({raw!r}): value after animating')
    v.is_animated = False
    after = h.ok(lambda: v.value if kind != 'time' else v.value.frames, f'{kind}({raw!r}).value after toggling animation')
    h.eq(canon(v.tag), snap, f'{kind}({raw!r}) after toggling animation')
    if kind != 'gradient':
        h.eq(after, before, f'{kind}({raw!r}).value after toggling animation')


########################################################################

@case('C07', 3)
def interpolations(h):
    rng = h.rng
    val = sv.Real(1.0)
    for b in INTERP:
        a = rng.choice(INTERP)
        w = h.ok(lambda: Waypoint(T(3), val, before=b, after=a), f'Waypoint(before={b}, after={a})')
        h.eq((w.before, w.after), (INTERP_CANON[b], INTERP_CANON[a]), f'interpolations given as {b}, {a}')
        c = rng.choice(INTERP)
        h.ok(lambda: setattr(w, 'before', c), f'before = {c}')
        h.eq((w.before, w.after), (INTERP_CANON[c], INTERP_CANON[a]), f'after before={c}')
        d = rng.choice(INTERP)
        h.ok(lambda: setattr(w, 'after', d), f'after = {d}')
        h.eq((w.before, w.after), (INTERP_CANON[c], INTERP_CANON[d]), f'after after={d}')
        bad = rng.choice(['undefined', 'wombat', '', None, 'TCB', 'Auto', 'HALT', 'clamped ', 'ease-in', 5, 'none', 'None', 'manual'])
        h.raises(ValueError, lambda: setattr(w, 'before', bad), f'before = {bad!r}')
        h.raises(ValueError, lambda: setattr(w, 'after', bad), f'after = {bad!r}')
        h.eq((w.before, w.after), (INTERP_CANON[c], INTERP_CANON[d]), 'after a refused interpolation')
        h.raises(ValueError, lambda: Waypoint(T(3), val, before=bad, after='auto'), f'Waypoint(before={bad!r})')
        h.raises(ValueError, lambda: Waypoint(T(3), val, before='auto', after=bad), f'Waypoint(after={bad!r})')
    w = Waypoint(T(3), val)
    h.eq((w.before, w.after), ('clamped', 'clamped'), 'default interpolations')
    for bad in [True, 1.0, 'x', None, (1, 2), '#ff0000']:
        h.raises(TypeError, lambda: Waypoint(T(3), bad), f'Waypoint(value={bad!r})')
    an = sv.Real(1.0)
    an.is_animated = True
    h.raises(ValueError, lambda: Waypoint(T(3), an), 'Waypoint(animated value)')
    for bad in [None, [], (1,)]:
        h.raises(TypeError, lambda: Waypoint(bad, val), f'Waypoint(time={bad!r})')


@case('C07', 4)
def xml_round_trip(h):
    rng = h.rng
    kind = rng.choice(KINDS)
    raw = gen_raw(kind, rng)
    a = doc(h, nlayers=0)
    fps = float(a._tag['fps'])
    f = rng.choice([0, rng.randint(-200, 500), round(rng.uniform(0, 300), 3)])
    with_fps = rng.random() < .5
    t = T(f'{plain(f)}f', ref=a._tag if with_fps else None)
    b, af = rng.choice(INTERP), rng.choice(INTERP)
    val = CLS[kind](raw)
    w = Waypoint(t, val, before=b, after=af)
    h.eq(w.time.frames, float(f), 'time of a waypoint')
    snap = canon(val.tag)
    tag = w.tag
    h.eq(tag.name, 'waypoint', 'tag name')
    h.eq(set(tag.attrs), {'time', 'before', 'after'}, 'tag attributes')
    h.eq((tag['before'], tag['after']), (INTERP_CANON[b], INTERP_CANON[af]), 'interpolations in XML')
    h.eq([canon(x) for x in kids(tag)], [snap], 'value in XML')
    # as text, and back
    txt = str(tag)
    t2 = bs4.BeautifulSoup(txt, features='xml').contents[0].extract()
    holder = bs4.Tag(name='animated')
    holder['type'] = snap[0]
    if with_fps:
        a._tag.append(holder)
    for x in (t2, tag):
        holder.append(x)
        w2 = h.ok(lambda: Waypoint.from_tag(x, our_type=rng.choice([None, snap[0]])), f'reading {x}')
        h.near(w2.time.frames, f, 1e-6, 'time after reading back')
        h.eq((w2.before, w2.after), (INTERP_CANON[b], INTERP_CANON[af]), 'interpolations after reading back')
        h.eq(canon(w2.value.tag), snap, 'value after reading back')
        h.eq(type(w2.value), CLS[kind], 'type after reading back')
    # the copy is independent
    other = rng.choice([gen_raw(kind, rng) for _ in range(3)])
    w2.value.value = other
    h.eq(canon(val.tag), snap, 'original value after changing the copy')
    h.eq(canon(kids(w.tag)[0]), snap, 'original waypoint after changing the copy')


@case('C07', 4)
def malformed_waypoints(h):
    rng = h.rng
    kind = rng.choice(KINDS)
    v = xml_value(kind, rng)
    ty = kind
    k2 = other_kind(rng, kind)
    ws = rng.choice(['', '\n', ' <!-- c --> '])
    good = f'<waypoint time="3f" before="clamped" after="ease">{ws}{v}{ws}</waypoint>'
    bad = [
        ('wrong tag name', good.replace('waypoint', rng.choice(['keyframe', 'Waypoint', 'way_point', 'real']))),
        ('no value', f'<waypoint time="3f" before="clamped" after="ease">{ws}</waypoint>'),
        ('several values', f'<waypoint time="3f" before="clamped" after="ease">{v}{ws}{xml_value(kind, rng)}</waypoint>'),
        ('several values', f'<waypoint time="3f" before="clamped" after="ease">{v}{ws}{xml_value(k2, rng)}</waypoint>'),
        ('several values', f'<waypoint time="3f" before="clamped" after="ease">{xml_value(k2, rng)}{ws}{v}</waypoint>'),
        ('several values', f'<waypoint time="3f" before="clamped" after="ease">{v}{ws}{xml_value(kind, rng)}{xml_value(k2, rng)}</waypoint>'),
        ('an animated value', f'<waypoint time="3f" before="clamped" after="ease">{xml_animated(kind, rng, 24.0)}</waypoint>'),
        ('a value of another type', f'<waypoint time="3f" before="clamped" after="ease">{xml_value(k2, rng)}</waypoint>'),
        ('a bad time', good.replace('3f', rng.choice(['wombat', '', '3x', '1s2s', '2f 2f']))),
        ('a time in seconds without a document', good.replace('3f', '3s')),
        ('a bad interpolation', good.replace('"clamped"', rng.choice(['"undefined"', '"wombat"', '""', '"TCB"']))),
        ('a bad interpolation', good.replace('"ease"', rng.choice(['"undefined"', '"wombat"', '""', '"Ease"']))),
    ]
    tag = bs4.BeautifulSoup(good, features='xml').contents[0].extract()
    w = h.ok(lambda: Waypoint.from_tag(tag, our_type=ty), f'reading {good}')
    h.eq((w.time.frames, w.before, w.after, canon(w.value.tag)), (3.0, 'clamped', 'ease', canon(kids(tag)[0])), f'reading {good}')
    for why, x in bad:
        tag = bs4.BeautifulSoup(x, features='xml').contents[0].extract()
        h.raises(ValueError, lambda: Waypoint.from_tag(tag, our_type=ty), f'{why}: {x}')
        if why == 'wrong tag name':
            continue
        anim = bs4.Tag(name='animated')
        anim['type'] = ty
        anim.append(tag)
        val = CLS[kind](anim)
        h.raises(ValueError, lambda: list(val.timeline), f'timeline with {why}: {x}')
