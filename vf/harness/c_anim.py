from .hlib import *
import gzip, subprocess

EXTS = ['.sif', '.sifz', '.SIF', '.SifZ', '.Sif', '.SIFZ']


def parse_file(name):
    """independent reading of a file: (kind, exact picture)"""
    with open(name, 'rb') as f:
        data = f.read()
    kind = 'plain'
    if data[:2] == b'\x1f\x8b':
        kind = 'gzip'
        data = gzip.decompress(data)
    import lxml.etree as E
    root = E.fromstring(data)

    def go(e):
        ks = []
        if e.text:
            ks.append(e.text)
        for c in e:
            if isinstance(c.tag, str):
                ks.append(go(c))
            if c.tail:
                if ks and isinstance(ks[-1], str):
                    ks[-1] += c.tail
                else:
                    ks.append(c.tail)
        return (e.tag, tuple(sorted(e.attrib.items())), tuple(ks))
    return kind, go(root), data


def squash(p):
    """merge adjacent text in an exact() picture, ignoring blank text except where it means something"""
    n, a, ks = p
    keep = n in ('string', 'name', 'desc', 'keyframe')
    out = []
    for k in ks:
        if isinstance(k, str):
            if out and isinstance(out[-1], str):
                out[-1] += k
            else:
                out.append(k)
        else:
            out.append(squash(k))
    return (n, a, tuple(k for k in out if not (isinstance(k, str) and (k == '' or not keep and k.strip() == ''))))


def mutate(h, a):
    rng = h.rng
    for _ in range(rng.randint(0, 3)):
        ls = all_layer_tags(a._tag)
        k = rng.randrange(5)
        if k == 0:
            a.append(rng.choice([sl.Circle, sl.Text, sl.Group])())
        elif k == 1 and ls:
            Layer.from_tag(rng.choice(ls)).desc = rng.choice(['ünï ☃', 'a "quoted" & <b>', '日本語', 'x'])
        elif k == 2:
            a.append(sl.Text(rng.choice(['héllo ☃', '<&>', '𝕋'])))
        elif k == 3:
            a.width = rng.randint(1, 999)
        elif k == 4:
            a.desc = rng.choice(['plain', 'ünï', 'a & b'])


@case('C15', 5)
def save_and_reload(h):
    # sometimes by names in the working directory
    if h.rng.random() < .7:
        return saves(h, None)
    was = os.getcwd()
    os.chdir(h.scratch)
    try:
        saves(h, h.rng.choice(['.', '']))
    finally:
        os.chdir(was)


def saves(h, here):
    rng = h.rng
    if rng.random() < .2:
        a = sangfroid.Animation()
        name = None
    else:
        a = doc(h, depth=2)
        name = a._filename
    for step in range(rng.randint(1, 3)):
        mutate(h, a)
        ext = rng.choice(EXTS)
        dest = os.path.join(h.scratch if here is None else here, rng.choice(['a', 'b.sifz', 'c.x', 'ünï', 'd.sif', 'e.', '~']) + f'{step}{ext}')
        if rng.random() < .3:
            # there's something there already, longer than this
            with open(dest, 'wb') as f:
                f.write(b'<?xml version="1.0"?><wombat/>' + b' ' * rng.choice([0, 10**6]))
        pic = squash(exact(a._tag))
        h.log('save', os.path.basename(dest))
        h.ok(lambda: a.save(dest), f'save({os.path.basename(dest)!r})')
        h.eq(squash(exact(a._tag)), pic, 'document after saving it')
        kind, got, data = parse_file(dest)
        h.eq(kind, 'gzip' if ext.lower() == '.sifz' else 'plain', f'format of {os.path.basename(dest)}')
        h.true(data.startswith(b'<?xml'), 'the file is XML')
        h.eq(squash(got), pic, f'contents of {os.path.basename(dest)}')
        # recognised by content
        odd = dest + rng.choice(['.sif', '.sifz', '.png', ''])
        if odd != dest:
            shutil.copy(dest, odd)
        b = h.ok(lambda: sangfroid.Animation(odd), f'loading {os.path.basename(odd)}')
        h.eq(squash(exact(b._tag)), pic, 'document after reloading')
        # saving without a name
        mutate(h, a)
        pic = squash(exact(a._tag))
        os.remove(dest) if rng.random() < .5 else None
        h.ok(lambda: a.save(), 'save()')
        h.true(os.path.exists(dest), 'save() uses the name last used')
        kind2, got, data = parse_file(dest)
        h.eq((kind2, squash(got)), (kind, pic), 'what save() wrote')
    if rng.random() < .3:
        # loaded from a name which says otherwise than the contents do, and saved under that
        with open(dest, 'rb') as f:
            data = f.read()
        data = gzip.decompress(data) if data[:2] == b'\x1f\x8b' else gzip.compress(data)
        with open(dest, 'wb') as f:
            f.write(data)
        c = h.ok(lambda: sangfroid.Animation(dest), 'loading by content')
        for args in ((dest,), (), (dest,), ()):
            mutate(h, c)
            h.ok(lambda: c.save(*args), f'save{args}')
            kind3, got, data = parse_file(dest)
            h.eq((kind3, squash(got)), (kind, squash(exact(c._tag))), f'what save{args} wrote, after saving under that name')
    if rng.random() < .5:
        c = h.ok(lambda: sangfroid.open(dest), 'sangfroid.open()')
        c.append(sl.Circle())
        pic = squash(exact(c._tag))
        c.save()
        h.eq(squash(parse_file(dest)[1]), pic, 'save() to where it was loaded from')


@case('C15', 3)
def encodings(h):
    """files in other encodings, or with byte order marks inside gzip, load as their text"""
    rng = h.rng
    xml = xml_doc(rng, nlayers=2)
    enc = rng.choice(['UTF-8', 'ISO-8859-1', 'US-ASCII', 'windows-1252'])
    x2 = xml.replace('encoding="UTF-8"', f'encoding="{enc}"')
    data = x2.encode(enc, errors='xmlcharrefreplace')
    name = h.tmp(rng.choice(['.sif', '.sifz', '.txt']))
    gz = rng.random() < .5
    with open(name, 'wb') as f:
        f.write(gzip.compress(data) if gz else data)
    h.log(enc, 'gzip' if gz else 'plain')
    a = h.ok(lambda: sangfroid.Animation(name), f'loading {enc} {"gzip" if gz else "plain"}')
    want = squash(parse_file(name)[1])
    h.eq(squash(exact(a._tag)), want, 'document as loaded')
    out = os.path.join(h.scratch, 'out' + rng.choice(EXTS))
    a.save(out)
    b = h.ok(lambda: sangfroid.Animation(out), 'reloading')
    h.eq(squash(exact(b._tag)), want, 'document after saving and reloading')


def files(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), 'rb') as f:
            out[n] = f.read()
    return out


@case('C15', 3)
def refusals(h):
    rng = h.rng
    a = doc(h)
    dest = os.path.join(h.scratch, 'good.sif')
    if rng.random() < .5:
        a.save(dest)
    else:
        dest = a._filename
    pic = squash(exact(a._tag))
    existing = os.path.join(h.scratch, 'picture.png')
    with open(existing, 'wb') as f:
        f.write(b'precious')
    before = files(h.scratch)
    for bad in ['picture.png', 'a.xml', 'a', 'a.', 'sif', 'a.sif.bak', '.sif', 'a.sifzz', 'a.si', 'sifz', 'a.zfis', 'a.sif2', 'a.sif.', 'a.sif ', 'a. sifz', 'a.sif..']:
        p = os.path.join(h.scratch, bad)
        h.raises(ValueError, lambda: a.save(p), f'save({bad!r})')
        h.eq(files(h.scratch), before, f'files after save({bad!r}) was refused')
    # things which go wrong
    for bad in rng.sample(['nowhere/x.sif', 'nowhere/x.sifz', 'x.sfg'], 2):
        p = os.path.join(h.scratch, bad)
        h.raises((OSError, NotImplementedError, ValueError), lambda: a.save(p), f'save({bad!r})')
        h.eq(files(h.scratch), before, f'files after save({bad!r}) failed')
    old = a.name
    a.name = 'lone \ud800 surrogate'
    for p in (None, os.path.join(h.scratch, 'good.sifz')):
        if p is not None:
            with open(p, 'wb') as f:
                f.write(b'precious')
        before = files(h.scratch)
        h.raises(UnicodeEncodeError, lambda: a.save(p), 'saving what cannot be encoded')
        h.eq(files(h.scratch), before, 'files after saving what cannot be encoded')
    a.name = old
    new = sangfroid.Animation()
    h.raises(ValueError, lambda: new.save(), 'save() of a new animation')
    p = os.path.join(h.scratch, 'a.png')
    h.raises(ValueError, lambda: new.save(p), 'save() of a new animation under an unknown extension')
    h.raises(ValueError, lambda: new.save(), 'save() of a new animation')
    h.eq(files(h.scratch), before, 'files after refused saves')
    # after a refusal, save() still goes to the same place
    a.append(sl.Circle())
    pic = squash(exact(a._tag))
    h.ok(lambda: a.save(), 'save() after a refused save')
    h.eq(squash(parse_file(dest)[1]), pic, 'what save() wrote after a refused save')
    for content in [b'', b'<', b'x', b'GIF89a', b'\x89PNG', b'\x1f', b'canvas', b'\x00\x00', b'>?', b' <?xml version="1.0"?><canvas/>'][:]:
        n = h.tmp(rng.choice(['.sif', '.sifz']))
        with open(n, 'wb') as f:
            f.write(content)
        h.raises(ValueError, lambda: sangfroid.Animation(n), f'loading a file containing {content!r}')
        with open(n, 'rb') as f:
            h.eq(f.read(), content, 'file after a refused load')
    h.raises(FileNotFoundError, lambda: sangfroid.Animation(os.path.join(h.scratch, 'nonexistent.sif')), 'loading a file which is not there')


@case('C15', .05)
def locales(h):
    """the same, under a locale which is not UTF-8"""
    rng = h.rng
    xml = xml_doc(rng, nlayers=3)
    src = os.path.join(h.scratch, 'src.sif')
    with open(src, 'wb') as f:
        f.write(xml.encode('utf8'))
    code = ('import sys; sys.path.insert(0, %r); sys.dont_write_bytecode=True\n'
            'import sangfroid\n'
            'a = sangfroid.Animation(%r)\n'
            'a.append(sangfroid.layer.Text("h\\u00e9llo \\u2603"))\n'
            'for e in ("sif", "sifz"):\n'
            '    a.save(%r + "/out." + e)\n'
            '    a = sangfroid.Animation(%r + "/out." + e)\n') % (REPO, src, h.scratch, h.scratch)
    env = {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PATH': os.environ.get('PATH', '')}
    r = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True, errors='replace', timeout=60)
    h.true(r.returncode == 0, 'saving and reloading in the C locale: ' + r.stderr[-400:])
    want = squash(parse_file(src)[1])
    for e in ('sif', 'sifz'):
        kind, got, data = parse_file(h.scratch + '/out.' + e)
        got = squash(got)
        new = [c for c in got[2] if 'héllo ☃' in str(c)]
        h.eq(len(new), 1, f'non-ASCII text in .{e} saved in the C locale')
        h.eq((got[0], got[1], tuple(c for c in got[2] if c not in new)), want, f'document saved as .{e} in the C locale')


########################################################################
# C16

def as_bool(s):
    return s.lower() == 'true'


@case('C16', 4)
def layer_attrs(h):
    rng = h.rng
    a = doc(h, depth=2, nlayers=2)
    for step in range(6):
        ls = all_layer_tags(a._tag)
        if not ls:
            return
        t = rng.choice(ls)
        if rng.random() < .3:
            t[rng.choice(['active', 'exclude_from_rendering'])] = rng.choice(['TRUE', 'True', 'FALSE', 'False', '0', '1', 'yes', ' true', ''])
        l = Layer.from_tag(t)
        at = dict(t.attrs)
        what = f'layer {at}'
        h.true(l.active is (as_bool(at['active']) if 'active' in at else True), f'{what}: active is {l.active!r}')
        h.true(l.exclude_from_rendering is (as_bool(at['exclude_from_rendering']) if 'exclude_from_rendering' in at else False),
               f'{what}: exclude_from_rendering is {l.exclude_from_rendering!r}')
        h.eq(l.desc, at.get('desc'), f'{what}: desc')
        if not any(p['name'] == 'type' for p in own_params(t)) and 'type_' not in vars(type(l)):
            h.eq(l.type_, at['type'], f'{what}: type_')
            before = exact(a._soup)
            h.raises(ValueError, lambda: setattr(l, 'type_', 'circle'), f'{what}: setting type_')
            h.eq(exact(a._soup), before, f'{what}: document after setting type_ was refused')
        if 'version' in at:
            h.eq(l.version, float(at['version']), f'{what}: version')
        else:
            from .c_layer import TABLE, norm
            h.eq(float(l.version), float(TABLE['layers'][norm(at['type'])]['attrs']['version']), f'{what}: default version')
        h.true(l.tag is t, f'{what}: tag')
        h.eq(dict(t.attrs), at, f'{what}: attributes after reading')
        rest = mask(a._soup, t)
        inner = [exact(c) for c in t.contents]
        k = rng.choice(['active', 'exclude_from_rendering', 'desc', 'version'])
        if k == 'desc':
            v = rng.choice(DESCS + [None, 'é & <b>'])
        elif k == 'version':
            v = rng.choice([0.1, 0.2, 1.5, 2])
        else:
            v = rng.choice([True, False, True, False, 1, 0])
        h.log(what, k, v)
        h.ok(lambda: setattr(l, k, v), f'{what}: {k} = {v!r}')
        got = getattr(l, k)
        h.true(got == v and type(got) is (float if k == 'version' else bool if isinstance(v, int) else type(v)), f'{what}: {k} after setting it to {v!r}: {got!r}')
        if v is None:
            h.true('desc' not in t.attrs, f'{what}: desc removed')
        else:
            want = {True: 'true', False: 'false'}[v] if k not in ('desc', 'version') else str(float(v) if k == 'version' else v)
            h.eq(str(t.attrs[k]), want, f'{what}: {k} in XML')
        h.eq({x: y for x, y in t.attrs.items() if x != k}, {x: y for x, y in at.items() if x != k}, f'{what}: other attributes')
        h.eq([exact(c) for c in t.contents], inner, f'{what}: contents')
        h.eq(mask(a._soup, t), rest, f'{what}: rest of the document')


ANIM = {  # python name -> (xml name, type, default)
    'width': ('width', int, 480), 'height': ('height', int, 270), 'xres': ('xres', float, 2834.645669), 'yres': ('yres', float, 2834.645669),
    'gamma_r': ('gamma-r', float, 1.0), 'gamma_g': ('gamma-g', float, 1.0), 'gamma_b': ('gamma-b', float, 1.0),
    'view_box': ('view-box', str, '-4.0 2.25 4.0 -2.25'), 'antialias': ('antialias', int, 1), 'fps': ('fps', float, 24.0),
    'bgcolor': ('bgcolor', str, '0.5 0.5 0.5 1.0'), 'version': ('version', float, 1.2),
}


@case('C16', 4)
def anim_attrs(h):
    rng = h.rng
    drop = {}
    if rng.random() < .4:
        for n in rng.sample(['width', 'height', 'xres', 'gamma-r', 'gamma-g', 'gamma-b', 'antialias', 'yres', 'version', 'view-box', 'bgcolor', 'begin-time', 'end-time'], rng.randint(1, 4)):
            drop[n] = None
    a = doc(h, attrs=drop, nlayers=1)
    if drop:
        h.doc += str(drop)
    for step in range(3):
        at = dict(a._tag.attrs)
        whole = exact(a._soup)
        for n, (x, ty, de) in ANIM.items():
            got = h.ok(lambda: getattr(a, n), f'animation.{n}')
            want = ty(at[x]) if x in at else de
            h.true(got == want and type(got) is ty, f'animation.{n}: expected {want!r}, found {got!r}')
        fps = float(at['fps'])
        b, e = parse_simple(at.get('begin-time', '0f'), fps), parse_simple(at.get('end-time', '5s'), fps)
        h.near(a.begin_time.frames, b, 1e-9, 'begin_time')
        h.near(a.end_time.frames, e, 1e-9, 'end_time')
        h.eq((a.begin_time.fps, a.end_time.fps), (fps, fps), 'fps of begin_time and end_time')
        if 'begin-time' not in at or 'end-time' not in at:
            pass
        elif abs((e-b)-round(e-b)) < 1e-12:
            h.eq(a.framecount, round(e-b)+1, f'framecount from {at["begin-time"]} to {at["end-time"]}')
        elif e-b > 0 and abs((e-b)-round(e-b)) > 1e-6:
            h.eq(a.framecount, math.floor(e-b)+1, f'framecount from {at["begin-time"]} to {at["end-time"]}')
        h.eq(a.size, (int(at.get('width', 480)), int(at.get('height', 270))), 'size')
        h.eq(a.viewbox, tuple(float(x) for x in at.get('view-box', '-4.0 2.25 4.0 -2.25').split(' ')), 'viewbox')
        for g, w in zip(a.background.as_tuple(), [float(x) for x in at.get('bgcolor', '0.5 0.5 0.5 1.0').split(' ')]):
            h.near(g, w, 5.1e-7, 'background')
        for k in ('name', 'desc'):
            d = kids(a._tag, k)
            h.eq(getattr(a, k), (d[0].string or '') if d else '', k)
        h.eq(exact(a._soup), whole, 'document after reading attributes')
        k = rng.choice(list(ANIM) + ['desc', 'desc', 'end_time', 'begin_time', 'name'])
        body = [exact(c) for c in a._tag.contents if not (isinstance(c, bs4.Tag) and c.name == k)]
        if k in ('desc', 'name'):
            v = rng.choice(['x', 'é & <b>', 'A description', '', ' padded ', 'two\n  lines', '0'])
            h.ok(lambda: setattr(a, k, v), f'{k} = {v!r}')
            h.eq(getattr(a, k), v, f'{k} after setting it')
            ds = kids(a._tag, k)
            h.eq([x.string or '' for x in ds], [v], f'{k} in XML')
            h.eq(dict(a._tag.attrs), at, f'attributes after setting {k}')
        elif k in ('end_time', 'begin_time'):
            v = rng.choice(['7s', '100f', '2s 3f', '1m', 48, 100.0, 37.25, '61.5f', '2s 3.75f', '1.5s', '1h 2m 3s 4f', 1234567, '7654321.5f', '1000.001f', 100.015625, sangfroid.T('90f', a), sangfroid.T('90.5f', a)] if k == 'end_time' else ['0f', '1s', 3, 2.5, '0.25f', '-1s', '-2.5f', '0.5s', sangfroid.T(5, a), sangfroid.T('1.5f', a)])
            x = k.replace('_', '-')
            bad = rng.choice(['banana', '5', '', '1s 2s', '3x', '1s -2f'])
            h.raises(ValueError, lambda: setattr(a, k, bad), f'{k} = {bad!r}')
            h.eq(exact(a._soup), whole, f'document after {k} = {bad!r} was refused')
            w = v.frames if isinstance(v, sangfroid.T) else v if not isinstance(v, str) else parse_simple(v, fps)
            h.ok(lambda: setattr(a, k, v), f'{k} = {v!r}')
            h.near(h.ok(lambda: getattr(a, k), f'reading {k} after setting it to {v!r}').frames, w, 1e-6, f'{k} after setting it')
            h.eq({y: z for y, z in a._tag.attrs.items() if y != x}, {y: z for y, z in at.items() if y != x}, 'other attributes')
        else:
            x, ty, de = ANIM[k]
            v = {int: rng.randint(1, 5000), float: rng.choice([1.0, 2.5, 30.0, 12, 23.976, 1/3, 2.8346456692913, 0.00001]), str: rng.choice(['0.1 0.2 0.3 1.0', '-1.0 1.0 1.0 -1.0', '0.123456789 0 1 0.5', '1e-3 2 3 4'])}[ty]
            h.log(k, v)
            h.ok(lambda: setattr(a, k, v), f'{k} = {v!r}')
            got = getattr(a, k)
            h.true(got == v and type(got) is ty, f'{k} after setting it to {v!r}: {got!r}')
            h.true(ty(a._tag.attrs.get(x)) == v, f'{k} = {v!r}: attribute {x} in XML')
            h.eq({y: z for y, z in a._tag.attrs.items() if y != x}, {y: z for y, z in at.items() if y != x}, 'other attributes')
        h.eq([exact(c) for c in a._tag.contents if not (isinstance(c, bs4.Tag) and c.name == k)], body, f'contents after setting {k}')
    dest = os.path.join(h.scratch, 'o' + rng.choice(['.sif', '.sifz']))
    a.save(dest)
    b = sangfroid.Animation(dest)
    for n in ANIM:
        h.eq(getattr(b, n), getattr(a, n), f'{n} after saving and reloading')
    h.eq((b.name, b.desc, b.end_time, b.begin_time), (a.name, a.desc, a.end_time, a.begin_time), 'name, desc and times after saving and reloading')
    if 'begin-time' in a._tag.attrs and 'end-time' in a._tag.attrs:
        h.eq(b.framecount, a.framecount, 'framecount after saving and reloading')


@case('C16', 1)
def frame_counts(h):
    rng = h.rng
    fps = rng.choice(['24', '25', '30', '12', '10', '60'])
    f = int(fps)
    b, e = sorted([rng.randint(0, 500), rng.randint(0, 5000)])
    if rng.random() < .3:
        b = 0
    a = doc(h, fps=fps, nlayers=0, attrs={'begin-time': frames_text(b, f, rng), 'end-time': frames_text(e, f, rng)})
    h.eq(a.framecount, e-b+1, f'framecount from {b} to {e}')
    # and between frames
    for x in (.25, .5, .75, .999):
        a._tag['end-time'] = f'{e+x}f'
        h.eq(a.framecount, e-b+1, f'framecount from {b} to {e+x}')


@case('C16', 2)
def keyframes(h):
    rng = h.rng
    a = doc(h, nlayers=2)
    fps = float(a._tag['fps'])
    whole = exact(a._soup)
    want = [(parse_simple(k['time'], fps), ''.join(str(c) for c in k.contents), k['active'] == 'true') for k in kids(a._tag, 'keyframe')]
    ks = a.keyframes
    h.eq(len(ks), len(want), 'number of keyframes')
    got = [(k.time.frames, k.name, k.active) for k in ks]
    h.eq(len(got), len(want), 'number of keyframes')
    for g, w in zip(got, want):
        h.near(g[0], w[0], 1e-9, 'time of a keyframe')
        h.eq(g[1:], w[1:], 'keyframe')
    h.eq(exact(a._soup), whole, 'document after listing keyframes')
