from .hlib import *
import re


def a_ref(h, fps=None, begin=None, end=None):
    """A document and one of the many things which can be given as ref."""
    rng = h.rng
    fps = fps or rnd_fps(rng)
    attrs = {}
    if begin is not None:
        attrs['begin-time'] = begin
    if end is not None:
        attrs['end-time'] = end
    a = doc(h, fps=fps, nlayers=rng.choice([0, 1, 2]), depth=1, attrs=attrs)
    h.keep = a
    k = rng.randrange(4)
    tags = [t for t in a._tag.descendants if isinstance(t, bs4.Tag)]
    if k == 0:
        ref = a._tag
    elif k == 1:
        ref = a
    elif k == 2 and tags:
        ref = rng.choice(tags)
    else:
        ls = all_layer_tags(a._tag)
        ref = Layer.from_tag(rng.choice(ls)) if ls else a
    return float(fps), ref


def tol(x):
    return 1e-9 + 1e-12*abs(x)


def join_parts(rng, items):
    sep = rng.choice([' ', ' ', '', '  ', '\t', ' \n'])
    return rng.choice(['', '', ' ', '\t']) + sep.join(items) + rng.choice(['', '', ' '])


@case('C01', 4)
def specs(h):
    rng = h.rng
    with_ref = rng.random() < .75
    fps, ref = a_ref(h) if with_ref else (None, None)
    for _ in range(12):
        units = rng.sample('hmsf', rng.randint(1, 4))
        if rng.random() < .5:
            units.sort(key='hmsf'.index)
        parts = {}
        texts = []
        for u in units:
            n = rnd_numeral(rng)
            neg = rng.random() < .18
            parts[u] = -float(n) if neg else float(n)
            texts.append(('-' if neg else '') + n + u)
        if rng.random() < .3:
            # a minus on the largest unit
            big = min(units, key='hmsf'.index)
            parts = {u: abs(v) for u, v in parts.items()}
            parts[big] = -parts[big]
            texts = [t.lstrip('-') for t in texts]
            i = units.index(big)
            texts[i] = '-' + texts[i]
        text = join_parts(rng, texts)
        want = spec_frames(parts, fps)
        h.log('T', repr(text), 'fps', fps, 'want', want)
        check_time(h, lambda: T(text, ref=ref), want, fps, f'T({text!r}) at fps={fps}')


def check_time(h, make, want, fps, what):
    if want is ValueError:
        h.raises(ValueError, make, what)
        return None
    t = h.ok(make, what)
    h.near(t.frames, want, tol(want), what + ' .frames')
    h.near(float(t), want, tol(want), what + ' float()')
    if abs(want-round(want)) > 1e-6 or float(want).is_integer() and t.frames == want:
        h.eq(int(t), int(want), what + ' int()')
    h.eq(t.fps, fps, what + ' .fps')
    if fps is None:
        if t.frames == 0:
            h.eq(t.seconds, 0.0, what + ' .seconds')
        else:
            h.raises(ValueError, lambda: t.seconds, what + ' .seconds without a frame rate')
    else:
        h.near(t.seconds, want/fps, tol(want/fps), what + ' .seconds')
    return t


BAD = ['', ' ', '\t\n', 'Banana', '5', '12', '5x', '3d', '2S', '2F', '1H', '1e5f', '1e-5f', 'inff', 'infs', 'nanf', '-inff', '5 5',
       'f', 's', '-', '-f', '--5f', '+5f', '1.2.3s', '..f', '.s', '5f6', '5f 6', 'x5f', '5fx', '1s,2f', '1s;2f', '5ff', '1s 2x',
       '1f 2f', '2s 3s', '1h 2m 3h', '1m1m', '0f 0f', '1s 1f 1s', '0x10f', '1_0f', '१f2', '5 f s', 'hmsf', '1h2m3s4', '½f', '5sf', '1d 2f',
       '1s 2f 3', '2f banana', 'banana 2f', '1s\x002f', '12:30', '00:00:05', '5 seconds', '5%']


@case('C01', 2)
def malformed(h):
    rng = h.rng
    with_ref = rng.random() < .6
    fps, ref = a_ref(h) if with_ref else (None, None)
    for s in rng.sample(BAD, 12):
        h.raises(ValueError, lambda: T(s, ref=ref), f'T({s!r}) at fps={fps}')
    # a repeated unit, anywhere
    u = rng.choice('hmsf')
    others = [x for x in 'hmsf' if x != u and rng.random() < .5]
    items = [u, u] + others
    rng.shuffle(items)
    s = ' '.join(f'{rng.randint(0, 9)}{x}' for x in items)
    h.raises(ValueError, lambda: T(s, ref=ref), f'T({s!r}): repeated unit')
    # an unknown unit among good ones
    bad = rng.choice('abcdegijklnopqrtuvwxyzHMSF%$_')
    items = [f'{rng.randint(0, 9)}{x}' for x in rng.sample('hmsf', rng.randint(0, 3))] + [f'{rng.randint(1, 99)}{bad}']
    rng.shuffle(items)
    s = ' '.join(items)
    h.raises(ValueError, lambda: T(s, ref=ref), f'T({s!r}): unknown unit')
    # a number without a unit among good parts
    items = [f'{rng.randint(0, 9)}{x}' for x in rng.sample('hmsf', rng.randint(0, 3))]
    items.insert(rng.randint(0, len(items)), rng.choice(['5', '0', '2.5', '12', '-3']) + rng.choice(['', '', ' ', '\t']))
    s = rng.choice([' ', ' ', '  ', '\t']).join(items)
    if not re.search(r'[0-9.]\s*$|[0-9.]\s+-?[0-9.]', s):
        s += ' 7'
    h.raises(ValueError, lambda: T(s, ref=ref), f'T({s!r}): a number without a unit')
    for o in [None, 2+4j, [], {}, object(), (1,)]:
        h.raises(ValueError, lambda: T(o, ref=ref), f'T({o!r})')


@case('C01', 3)
def numbers(h):
    rng = h.rng
    b = rng.choice([0, 0, 0, 5, 30])
    e = b + rng.choice([0, 1, 47, 100, 240])
    fps, ref = a_ref(h, begin=f'{b}f', end=f'{e}f')
    if rng.random() < .4:
        # begin and end as seconds
        b2, e2 = rng.choice([0, 1, 2]), rng.choice([3, 5, 7.5])
        b, e = b2*fps, e2*fps
        fps, ref = a_ref(h, fps=repr(fps), begin=f'{b2}s', end=f'{e2}s')
    for _ in range(8):
        n = rng.choice([0, 1, 2, 23, 24, 25, -1, -2, -3, -10, -100, -1000, rng.randint(-300, 1000),
                        rng.uniform(-50, 500), round(rng.uniform(-50, 500), 2), 0.0, 10**7])
        want = n if n >= 0 else e-b+1+n
        h.log('n', n, 'begin', b, 'end', e, 'fps', fps)
        check_time(h, lambda: T(n, ref=ref), want, fps, f'T({n!r}) in [{b}f,{e}f] at fps={fps}')
        if n < 0:
            h.raises(ValueError, lambda: T(n), f'T({n!r}) without a document')
        else:
            check_time(h, lambda: T(n), n, None, f'T({n!r}) without a document')
    h.eq(T().frames, 0, 'T()')
    # detached tags are no document
    lone = bs4.Tag(name='real')
    h.raises(ValueError, lambda: T('1s', ref=lone), "T('1s') with a detached ref")
    check_time(h, lambda: T('7f', ref=lone), 7, None, "T('7f') with a detached ref")


@case('C01', 2)
def copies(h):
    rng = h.rng
    fps, ref = a_ref(h)
    for _ in range(8):
        f = rng.choice([rng.randint(-300, 300), round(rng.uniform(-300, 300), 3), 0])
        with_fps = rng.random() < .5
        t = T(f'{plain(f)}f', ref=ref if with_fps else None)
        u = h.ok(lambda: T(t, ref=ref), f'T(T({f}f)) with ref')
        h.near(u.frames, f, tol(f), f'T(T({plain(f)}f)) with a document')
        h.eq(u.fps, fps, 'fps of copy')
        u = h.ok(lambda: T(t), f'T(T({f}f))')
        h.near(u.frames, f, tol(f), f'T(T({plain(f)}f)) without a document')


@case('C01', 1)
def bad_fps(h):
    rng = h.rng
    for s in ['0', '-1', '-24', '0.0', '-0.5', 'wombat', '']:
        a = doc(h, fps='24', nlayers=0)
        a._tag['fps'] = s
        spec = rng.choice(['1s', '0f', '5f', 3, 0, '2s 3f'])
        h.raises(ValueError, lambda: T(spec, ref=a._tag), f'T({spec!r}) where fps={s!r}')


@case('C01', 1)
def anchored_elsewhere(h):
    """the frame rate comes from the document root, whatever lies between"""
    rng = h.rng
    fps = rng.choice(['24', '30', '12.5'])
    a = doc(h, fps=fps, nlayers=3, depth=3)
    for t in a._tag.find_all(True):
        h.near(T('2s', ref=t).frames, 2*float(fps), 1e-9, f'2s at fps={fps} via <{t.name}>')
    # what is taken elsewhere, or out of the document, belongs there
    b = doc(h, fps=rng.choice(['25', '60']), nlayers=1, depth=1)
    layers = a._tag.find_all('layer', recursive=False)
    for t in layers:
        inner = rng.choice(t.find_all(True) or [t])
        for _ in range(3):
            where = rng.choice([None, a, b])
            t.extract()
            if where is None:
                h.eq(T(7, ref=inner).frames, 7.0, 'frames outside a document')
                h.true(T(7, ref=inner).fps is None, 'frame rate outside a document')
                h.raises(ValueError, lambda: T('2s', ref=inner), 'seconds outside a document')
            else:
                where._tag.append(t)
                h.near(T('2s', ref=inner).frames, 2*float(where._tag['fps']), 1e-9, f'2s in a document of fps={where._tag["fps"]}, when moved there')
    a._tag['fps'] = '48'
    h.near(T('2s', ref=a._tag).frames, 96.0, 1e-9, '2s when the frame rate was changed to 48')


########################################################################

SHAPE = re.compile(r'-?(?:\d+(?:\.\d+)?[hmsf])(?: \d+(?:\.\d+)?[hmsf])*')


def rnd_frames(rng, fps):
    k = rng.randrange(12)
    f = fps or 24.0
    if k == 0:
        return float(rng.choice([0, 1, -1]))
    if k == 1:
        return float(rng.randint(-1000, 1000))
    if k == 2:
        return float(rng.randint(-10**7, 10**7))
    if k == 3:
        return rng.uniform(-1000, 1000)
    if k == 4:
        return rng.choice([1, -1])*10**rng.uniform(-8, 0)
    if k == 5:
        return f*rng.choice([1, 59, 60, 61, 3599, 3600, 3601, 7200, 3660, 86400])*rng.choice([1, -1])
    if k == 6:
        return f*rng.randint(-10000, 10000) + rng.choice([0.5, 0.25, 1e-3, -1e-3, 1e-6, -1e-6, 1e-7] + [rng.choice([1, -1])*10**rng.uniform(-6, -2) for _ in range(4)])
    if k == 7:
        return rng.uniform(-1e6, 1e6)
    if k == 8:
        return rng.choice([999999.0, 1000000.0, 1234567.0, 123456.789, 99999.95, 1e8, 1e9, 0.00001, 0.0001, 123456.5])
    if k == 9:
        return float(rng.choice([23, 24, 25, 47, 48, 1439, 1440, 1441, 86399, 86400, 86401]))
    if k == 10:
        return round(rng.uniform(-5000, 5000), rng.randint(1, 6))
    return float(rng.randint(0, 10)*3600*int(max(f, 1)) + rng.randint(0, 3)*60*int(max(f, 1)) + rng.randint(0, 30))


@case('C02', 5)
def text_round_trip(h):
    rng = h.rng
    with_ref = rng.random() < .75
    fps, ref = (None, None)
    if with_ref:
        fps, ref = a_ref(h)
    for _ in range(25):
        f = rnd_frames(rng, fps)
        t = T(T(0), ref=ref)
        t = T(f'{plain(f)}f', ref=ref)
        f = t.frames
        s = h.ok(lambda: str(t), f'str(T({f!r} frames at fps={fps}))')
        h.log(repr(f), fps, repr(s))
        h.true(isinstance(s, str) and SHAPE.fullmatch(s), f'the text {s!r} of {f!r} frames at fps={fps} is not a time specification')
        units = re.findall('[hmsf]', s)
        h.true(len(set(units)) == len(units), f'repeated units in {s!r}')
        u = h.ok(lambda: T(s, ref=ref), f'parsing {s!r}, the text of {f!r} frames at fps={fps}')
        whole = float(f).is_integer() and (fps is None or float(fps).is_integer())
        h.near(u.frames, f, 0 if whole else 1e-6 + 1e-12*abs(f), f'{f!r} frames at fps={fps} has text {s!r}, which reads back as')
        ind = parse_simple(s, fps)
        h.true(ind is not None, f'{s!r}: the text of {f!r} frames at fps={fps} is not in canonical form')
        h.near(ind, f, 2e-6 + 1e-9*abs(f), f'{f!r} frames at fps={fps} has text {s!r}, which denotes')
        h.eq(repr(t), s, 'repr()')


@case('C02', 1)
def text_in_waypoints(h):
    """the text written in a document is what the document reads"""
    rng = h.rng
    a = doc(h, nlayers=1, depth=0)
    fps = float(a._tag['fps'])
    l = sl.Circle()
    l.desc = 'the one'
    a.append(l)
    want = []
    for _ in range(rng.randint(1, 5)):
        f = rng.choice([rng.randint(-200, 5000), rng.randint(0, 10**6), round(rng.uniform(0, 500), 4)])
        l['radius'].timeline[T(f'{plain(f)}f', ref=a._tag)] = 1.0
        want.append(f)
    name = h.tmp('.sif')
    a.save(name)
    b = sangfroid.Animation(name)
    r = [x for x in all_layer_tags(b._tag) if x.get('desc') == 'the one'][0]
    times = [T(w['time'], ref=w).frames for w in r.find_all('waypoint') if w.parent.parent['name'] == 'radius']
    want = sorted(set(want))
    h.eq(len(times), len(want), 'number of waypoints after saving')
    for x, y in zip(times, want):
        h.near(x, y, 1e-6, 'waypoint time after saving and reloading')


########################################################################

def mk_time(h, docs):
    rng = h.rng
    f = rng.choice([0, 0, 1, -1, 24, 48, 48, rng.randint(-60, 60), rng.choice([0.5, 23.5, -2.25]), 10**6])
    k = rng.randrange(len(docs)+1)
    if k == len(docs):
        return T(f'{plain(f)}f'), float(f), None
    a = docs[k]
    return T(f'{plain(f)}f', ref=a._tag), float(f), float(a._tag['fps'])


OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


@case('C03', 5)
def pairs(h):
    rng = h.rng
    docs = [doc(h, fps=f, nlayers=0) for f in rng.sample(['24', '25', '30', '24.0', '60', '29.97'], 3)]
    for _ in range(40):
        a, fa, ra = mk_time(h, docs)
        b, fb, rb = mk_time(h, docs)
        what = f'T({fa}f, fps={ra}) vs T({fb}f, fps={rb})'
        clash = ra is not None and rb is not None and ra != rb and fa != 0 and fb != 0
        for name, op in OPS.items():
            if clash:
                h.raises(ValueError, lambda: op(a, b), f'{what}: {name}')
            else:
                r = h.ok(lambda: op(a, b), f'{what}: {name}')
                h.true(r is op(fa, fb), f'{what}: {name} gave {r!r}')
        if not clash and fa == fb:
            h.eq(hash(a), hash(b), f'{what}: hashes of equal times')
            h.eq(len({a, b}), 1, f'{what}: set of equal times')
            h.true({a: 1}.get(b) == 1, f'{what}: dict lookup by an equal time')
        n = rng.choice([fb, int(fb), fa, int(fa), 0, 1.5, fa+rng.choice([-1, 1])*10.0**-rng.randint(1, 9), int(fa)+rng.choice([-1, 1]), -fa])
        for name, op in OPS.items():
            r = h.ok(lambda: op(a, n), f'T({fa}f, fps={ra}) {name} {n!r}')
            h.true(r is op(fa, n), f'T({fa}f, fps={ra}) {name} {n!r} gave {r!r}')
            r = h.ok(lambda: op(n, a), f'{n!r} {name} T({fa}f, fps={ra})')
            h.true(r is op(n, fa), f'{n!r} {name} T({fa}f, fps={ra}) gave {r!r}')


@case('C03', 2)
def sorting(h):
    rng = h.rng
    a = doc(h, nlayers=0)
    fs = [rng.choice([rng.randint(-100, 100), round(rng.uniform(-100, 100), 2), 0]) for _ in range(rng.randint(0, 12))]
    fs += [round(f+d, 6) for f in rng.sample(fs, min(3, len(fs))) for d in rng.sample([.001, .1, .000002, -.5, .25], 2)]
    ts = [T(f'{plain(f)}f', ref=a._tag if rng.random() < .7 else None) for f in fs]
    h.eq([t.frames for t in sorted(ts)], sorted(float(f) for f in fs), 'sorted times')
    h.eq(len(set(ts)), len(set(float(f) for f in fs)), 'set of times')
    if ts:
        h.eq(max(ts).frames, max(map(float, fs)), 'max')
        h.eq(min(ts).frames, min(map(float, fs)), 'min')
