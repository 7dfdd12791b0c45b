"""
Shared parts of the concrete contract harness.

Every "case" is a function case(h) which draws everything it does from h.rng
and raises Violation if a contract is broken.  A case is identified by
(property, case name, seed, index), which is all that is needed to replay it.

The oracles here read raw Beautiful Soup tags and never call sangfroid.
"""
import contextlib, io, os, random, sys, signal, tempfile, shutil, math, copy

REPO = os.environ.get('VF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

with contextlib.redirect_stdout(io.StringIO()):
    import bs4
    import sangfroid
    import sangfroid.value as sv
    import sangfroid.layer as sl
    import sangfroid.field as sf
    from sangfroid.t import T
    from sangfroid.value.value import Value, Waypoint
    from sangfroid.layer.layer import Layer

assert os.path.realpath(sangfroid.__file__).startswith(os.path.realpath(REPO) + os.sep), sangfroid.__file__


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


CASES = {}      # property -> list of (name, weight, fn)


def case(prop, weight=1):
    def inner(fn):
        CASES.setdefault(prop, []).append((fn.__name__, weight, fn))
        return fn
    return inner


class H:
    """What a case is given: a random source, a scratch directory, a trace."""
    def __init__(self, rng, scratch):
        self.rng = rng
        self.scratch = scratch
        self.trace = []
        self.checks = 0

    def log(self, *a):
        self.trace.append(' '.join(str(x) for x in a))

    def fail(self, msg):
        raise Violation(msg)

    def eq(self, found, expected, what):
        self.checks += 1
        if not (found == expected):
            self.fail(f'{what}: expected {short(expected)}, found {short(found)}')

    def true(self, cond, what):
        self.checks += 1
        if not cond:
            self.fail(what)

    def near(self, found, expected, tol, what):
        self.checks += 1
        try:
            ok = abs(found-expected) <= tol
        except TypeError:
            ok = False
        if not ok:
            self.fail(f'{what}: expected {expected!r} (within {tol!r}), found {found!r}')

    def raises(self, exc, fn, what):
        """fn() must raise exc (and nothing else)."""
        self.checks += 1
        try:
            r = fn()
        except exc:
            return
        except (Violation, Hang):
            raise
        except Exception as e:
            self.fail(f'{what}: expected {names(exc)}, but {type(e).__name__} was raised: {e}')
        self.fail(f'{what}: expected {names(exc)}, but got {short(r)}')

    def ok(self, fn, what):
        """fn() must not raise."""
        self.checks += 1
        try:
            return fn()
        except (Violation, Hang):
            raise
        except Exception as e:
            self.fail(f'{what}: unexpected {type(e).__name__}: {short(str(e))}')

    def tmp(self, suffix='.sif'):
        fd, name = tempfile.mkstemp(suffix=suffix, dir=self.scratch)
        os.close(fd)
        return name


def names(exc):
    return '/'.join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:
        s = f'<unprintable {type(x).__name__}: {e!r}>'
    return s if len(s) <= n else s[:n] + '...'


########################################################################
# Oracles over raw tags

def canon(node):
    """A comparable picture of a subtree; whitespace-only text is ignored."""
    if isinstance(node, bs4.element.NavigableString):
        return str(node)
    kids = []
    for c in node.contents:
        if isinstance(c, bs4.Tag):
            kids.append(canon(c))
        else:
            s = str(c)
            if s.strip() != '':
                kids.append(s)
    return (node.name, tuple(sorted((k, str(v)) for k, v in node.attrs.items())), tuple(kids))


def exact(node):
    """Like canon, but whitespace counts."""
    if isinstance(node, bs4.element.NavigableString):
        return str(node)
    return (node.name, tuple(sorted((k, str(v)) for k, v in node.attrs.items())),
            tuple(exact(c) for c in node.contents))


def kids(tag, name=None):
    return [c for c in tag.contents if isinstance(c, bs4.Tag) and (name is None or c.name == name)]


def own_params(layer_tag):
    return kids(layer_tag, 'param')


def own_param(layer_tag, name):
    f = [p for p in own_params(layer_tag) if p.attrs.get('name') == name]
    return f[0] if f else None


def mask(doc, target):
    """canon(doc), with the subtree `target` replaced by a marker."""
    def go(node):
        if node is target:
            return ('<<target>>',)
        ks = []
        for c in node.contents:
            if isinstance(c, bs4.Tag):
                ks.append(go(c))
            elif str(c).strip():
                ks.append(str(c))
        return (node.name, tuple(sorted((k, str(v)) for k, v in node.attrs.items())), tuple(ks))
    return go(doc)


def root_of(tag):
    while tag.parent is not None:
        tag = tag.parent
    return tag


########################################################################
# Independent meaning of time specifications

UNITS = {'h': 3600, 'm': 60, 's': 1}


def spec_frames(parts, fps):
    """
    parts: dict unit -> float. Returns frames, or ValueError (the class).
    """
    if not parts:
        return ValueError
    sign = 0
    secs = 0.0
    for u in 'hms':
        if u in parts:
            v = parts[u]
            if sign and v < 0:
                return ValueError
            if not sign:
                sign = (v > 0) - (v < 0)
            secs += abs(v)*UNITS[u]
    f = parts.get('f', 0.0)
    if sign and f < 0:
        return ValueError
    hms = any(u in parts for u in 'hms')
    if fps is None and hms and (secs != 0 or f != 0):
        return ValueError
    if not sign:
        return f
    return sign*(secs*(fps or 0.0) + f)


def parse_simple(text, fps):
    """Frames denoted by a time text in canonical form ('-2s 3f'), independently of sangfroid."""
    import re
    m = re.fullmatch(r'\s*(-)?\s*(?:([0-9.]+)h)?\s*(?:([0-9.]+)m)?\s*(?:([0-9.]+)s)?\s*(?:([0-9.]+)f)?\s*', text)
    if m is None or not any(m.groups()[1:]):
        return None
    h, mi, s, f = [float(x) if x else 0.0 for x in m.groups()[1:]]
    secs = h*3600+mi*60+s
    if secs and fps is None:
        return None
    r = secs*(fps or 0)+f
    return -r if m.group(1) else r


########################################################################
# Random data

FPS = ['24', '24.000', '25', '30', '12', '60', '29.97', '23.976', '1', '50', '0.5', '1000', '7.25', '10']


def rnd_fps(rng):
    if rng.random() < 0.75:
        return rng.choice(FPS)
    return repr(round(rng.uniform(0.1, 240), rng.randint(0, 4)) or 1.0)


def rnd_numeral(rng):
    k = rng.randrange(9)
    if k == 0:
        return '0'
    if k == 1:
        return str(rng.randint(0, 9))
    if k == 2:
        return str(rng.randint(10, 100000))
    if k == 3:
        return '%.1f' % rng.uniform(0, 100)
    if k == 4:
        return repr(round(rng.uniform(0, 1000), rng.randint(1, 8)))
    if k == 5:
        return '.' + str(rng.randint(0, 999))
    if k == 6:
        return str(rng.randint(0, 999)) + '.'
    if k == 7:
        return '00' + str(rng.randint(0, 99))
    return str(rng.choice([1, 2, 23, 24, 25, 48, 59, 60, 61, 120, 3599, 3600, 3601, 86400]))


def plain(x):
    """A float as decimal text without an exponent."""
    s = '%.12f' % x
    return s.rstrip('0').rstrip('.') if '.' in s else s


TEXTS = ['', ' ', '   ', '\n', '\n\n ', 'x', 'Hello wombat!', 'None', 'ünïcödé ☃ 𝕋', '<&>"\'', 'a\nb', '  padded  ', 'true', '0', 'layer',
         'x_y', '日本語', '-1', 'tab\tinside', '#ff0000', ']]>', 'animated', 'waypoint', 'é'*50]


def rnd_text(rng, xml_safe=True):
    if rng.random() < 0.6:
        return rng.choice(TEXTS)
    n = rng.randint(1, 12)
    return ''.join(rng.choice('abcXYZ 019_-#<>&"\'éß☃𝕋日') for _ in range(n))


def rnd_float(rng):
    k = rng.randrange(10)
    if k == 0:
        return 0.0
    if k == 1:
        return float(rng.randint(-10, 10))
    if k == 2:
        return rng.uniform(-1, 1)
    if k == 3:
        return rng.uniform(-1000, 1000)
    if k == 4:
        return rng.uniform(-1, 1)*10**rng.randint(-9, 0)
    if k == 5:
        return rng.uniform(-1, 1)*10**rng.randint(0, 12)
    if k == 6:
        return rng.choice([1.0, -1.0, 0.5, 0.1, 1/3, 100.0, 1e6, 1e-6, 123456.789012, -0.00012345, 1e-5, 45.0, 359.999])
    if k == 7:
        return round(rng.uniform(-100, 100), 2)
    if k == 8:
        return float(rng.randint(-10**9, 10**9))
    return rng.gauss(0, 50)


def rnd_int(rng):
    return rng.choice([0, 1, -1, 2, 7, 255, 1700432811, -5, rng.randint(-1000, 1000), rng.randint(-2**40, 2**40)])


# type name -> (class, raw value generator)
def gen_raw(kind, rng, ref=None):
    if kind == 'real':
        return rnd_float(rng)
    if kind == 'integer':
        return rnd_int(rng)
    if kind == 'bool':
        return rng.random() < 0.5
    if kind == 'angle':
        return rnd_float(rng)
    if kind == 'string':
        return rnd_text(rng)
    if kind == 'time':
        return rng.choice([0, rng.randint(0, 500), f'{rng.randint(0,500)}f', round(rng.uniform(0, 300), 2)])
    if kind == 'color':
        if rng.random() < 0.5:
            return '#%06x' % rng.randrange(1 << 24) if rng.random() < .5 else '%08X' % rng.randrange(1 << 32)
        return tuple(round(rng.random(), rng.randint(0, 8)) for _ in range(rng.choice([3, 4])))
    if kind == 'vector':
        return (rnd_float(rng), rnd_float(rng))
    if kind == 'gradient':
        n = rng.randint(2, 5)
        return {round(rng.random(), 3)+i: gen_raw('color', rng) for i in range(n)}
    raise KeyError(kind)


KINDS = ['real', 'integer', 'bool', 'angle', 'string', 'time', 'color', 'vector', 'gradient']
CLS = {'real': sv.Real, 'integer': sv.Integer, 'bool': sv.Bool, 'angle': sv.Angle, 'string': sv.String,
       'time': sv.Time, 'color': sv.Color, 'vector': sv.X_Y, 'gradient': sv.Gradient}


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;').replace('\r', '&#13;')


def xml_color(rng, extra=''):
    return f'<color{extra}>' + ''.join(f'<{d}>{rng.random():.6f}</{d}>' for d in 'rgba') + '</color>'


def xml_value(kind, rng):
    """XML text of a random un-animated value, as Synfig writes it."""
    ws = rng.choice(['', '\n', '\n        '])
    if kind == 'real':
        return f'<real value="{rnd_float(rng):.10f}"/>'
    if kind == 'integer':
        st = rng.choice(['', ' static="true"'])
        return f'<integer value="{rnd_int(rng)}"{st}/>'
    if kind == 'bool':
        return f'<bool value="{rng.choice(["true","false"])}"/>'
    if kind == 'angle':
        return f'<angle value="{rnd_float(rng):.6f}"/>'
    if kind == 'string':
        return f'<string>{esc(rnd_text(rng))}</string>'
    if kind == 'time':
        return f'<time value="{rng.choice(["0s", "1s", "2s 3f", "12f", "0f", "1m 3s", "1.5s"])}"/>'
    if kind == 'color':
        return xml_color(rng)
    if kind == 'vector':
        return f'<vector>{ws}<x>{rnd_float(rng):.10f}</x>{ws}<y>{rnd_float(rng):.10f}</y>{ws}</vector>'
    if kind == 'gradient':
        n = rng.randint(2, 4)
        ps = sorted(rng.sample(range(0, 1000), n))
        return '<gradient>' + ws.join(xml_color(rng, f' pos="{p/1000:.6f}"') for p in ps) + '</gradient>'
    if kind == 'transformation':
        return xml_transformation(rng)
    raise KeyError(kind)


def xml_maybe_animated(kind, rng, fps, p=0.3):
    if rng.random() < p:
        return xml_animated(kind, rng, fps)
    return xml_value(kind, rng)


def rnd_times(rng, n, fps, lo=0, hi=400):
    """n distinct frame numbers, sorted"""
    return sorted(rng.sample(range(lo, hi), n))


def frames_text(n, fps, rng):
    """some text for n whole frames at fps"""
    if fps == int(fps) and n == int(n) and rng.random() < .5:
        fps = int(fps)
        neg, a = n < 0, abs(n)
        s, f = divmod(a, fps)
        out = []
        if s:
            out.append(f'{s}s')
        if f or not out:
            out.append(f'{f}f')
        return ('-' if neg else '') + rng.choice([' ', '', '  ']).join(out) if not (neg and not s) else f'-{a}f'
    return f'{n}f'


INTERP = ['tcb', 'clamped', 'constant', 'linear', 'ease', 'auto', 'halt']
INTERP_CANON = {'tcb': 'tcb', 'clamped': 'clamped', 'constant': 'constant', 'linear': 'linear', 'ease': 'ease',
                'auto': 'tcb', 'halt': 'ease'}


# before the start, and between frames
ODD_TIMES = [-240, -30, -24, -7, -1, -0.5, 0, 0.25, 0.5, 0.75, 1, 1.25, 1.875, 2, 2.125, 24, 24.5, 100]


def xml_animated(kind, rng, fps, n=None, lo=0, times=None):
    n = n or rng.randint(1, 5)
    ws = rng.choice(['', '\n', '\n          '])
    ty = {'vector': 'vector'}.get(kind, kind)
    out = [f'<animated type="{ty}">{ws}']
    for t in times or rnd_times(rng, n, fps, lo=lo):
        out.append(f'<waypoint time="{frames_text(t, fps, rng)}" before="{rng.choice(INTERP)}" after="{rng.choice(INTERP)}">'
                   f'{ws}{xml_value(kind, rng)}{ws}</waypoint>{ws}')
    out.append('</animated>')
    return ''.join(out)


def xml_transformation(rng, fps=24.0, panim=0.2, shuffle=True):
    parts = []
    for k, kind in [('offset', 'vector'), ('angle', 'angle'), ('skew_angle', 'angle'), ('scale', 'vector')]:
        parts.append(f'<{k}>\n{xml_maybe_animated(kind, rng, fps, panim)}\n</{k}>')
    if shuffle:
        rng.shuffle(parts)
    return '<composite type="transformation">\n' + '\n'.join(parts) + '\n</composite>'


# A table of layer types which is independent of sangfroid's declarations.
COMMON = [('z_depth', 'real'), ('amount', 'real'), ('blend_method', 'integer')]
LAYERS = {
    'circle': COMMON + [('color', 'color'), ('radius', 'real'), ('feather', 'real'), ('origin', 'vector'), ('invert', 'bool')],
    'text': COMMON + [('text', 'string'), ('color', 'color'), ('family', 'string'), ('style', 'integer'), ('size', 'vector'),
                      ('origin', 'vector'), ('use_kerning', 'bool'), ('compress', 'real')],
    'rotate': [('origin', 'vector'), ('amount', 'angle')],
    'translate': [('origin', 'vector')],
    'zoom': [('amount', 'real'), ('center', 'vector')],
    'timeloop': [('z_depth', 'real'), ('link_time', 'time'), ('local_time', 'time'), ('duration', 'time'),
                 ('only_for_positive_duration', 'bool'), ('symmetrical', 'bool')],
    'linear_gradient': COMMON + [('p1', 'vector'), ('p2', 'vector'), ('gradient', 'gradient'), ('loop', 'bool'), ('zigzag', 'bool')],
    'rectangle': COMMON + [('color', 'color'), ('point1', 'vector'), ('point2', 'vector'), ('expand', 'real'),
                                  ('invert', 'bool'), ('feather_x', 'real'), ('feather_y', 'real'), ('bevel', 'real'),
                                  ('bevCircle', 'bool')],
    'stroboscope': [('z_depth', 'real'), ('frequency', 'real')],
    'blur': COMMON + [('size', 'vector'), ('type', 'integer')],
}
GROUP_BEFORE = [('z_depth', 'real'), ('amount', 'real'), ('blend_method', 'integer'), ('origin', 'vector'), ('transformation', 'transformation')]
GROUP_AFTER = [('time_dilation', 'real'), ('time_offset', 'time'), ('children_lock', 'bool'), ('outline_grow', 'real'),
               ('z_range', 'bool'), ('z_range_position', 'real'), ('z_range_depth', 'real'), ('z_range_blur', 'real')]

DESCS = ['Ball', 'Shadow', 'Background', 'a', '', 'Ünï', 'Shadow circle', 'x_y', 'bywords 1', '1', 'true', 'layer', ' padded ', 'two  spaces', '0', 'None']


def xml_attrs(rng, ty):
    a = [('type', ty)]
    if rng.random() < .9:
        a.append(('active', rng.choice(['true', 'true', 'false'])))
    if rng.random() < .9:
        a.append(('exclude_from_rendering', rng.choice(['false', 'false', 'true'])))
    if rng.random() < .95:
        a.append(('version', rng.choice(['0.1', '0.2', '0.3', '1.0'])))
    if rng.random() < .75:
        a.append(('desc', rng.choice(DESCS)))
    rng.shuffle(a)
    return ''.join(f' {k}="{esc(v)}"' for k, v in a)


def xml_param(name, kind, rng, fps):
    ws = rng.choice(['', '\n', '\n      '])
    return f'<param name="{name}">{ws}{xml_maybe_animated(kind, rng, fps) if kind!="transformation" else xml_transformation(rng, fps)}{ws}</param>'


def xml_layer(rng, depth, fps, drop=0.15):
    ty = rng.choice(list(LAYERS) + ['group']*(6 if depth > 0 else 0))
    ws = rng.choice(['\n', '\n  ', ''])
    if ty == 'group':
        spelled = rng.choice(['group', 'group', 'group', 'Group'])
        out = [f'<layer{xml_attrs(rng, spelled)}>']
        for n, k in GROUP_BEFORE:
            if rng.random() >= drop:
                out.append(xml_param(n, k, rng, fps))
        inner = [xml_layer(rng, depth-1, fps, drop) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        meta = rng.choice(['']*6 + ['<name>Inner</name>', '<desc>Inner thing</desc>', '<name>In</name>\n<meta name="grid_show" content="1"/>\n<desc>D</desc>'])
        out.append('<param name="canvas">' + ws + '<canvas>' + ws + meta + ws + ws.join(inner) + ws + '</canvas>' + ws + '</param>')
        for n, k in GROUP_AFTER:
            if rng.random() >= drop:
                out.append(xml_param(n, k, rng, fps))
        out.append('</layer>')
        return ws.join(out)
    spelled = ty
    if rng.random() < .15:
        spelled = rng.choice([ty.upper(), ty.title(), ty.replace('_', '')])
    out = [f'<layer{xml_attrs(rng, spelled)}>']
    for n, k in LAYERS[ty]:
        if rng.random() >= drop:
            out.append(xml_param(n, k, rng, fps))
    out.append('</layer>')
    return ws.join(out)


def xml_doc(rng, fps=None, nlayers=None, depth=2, drop=0.15, attrs=None):
    fps = fps or rng.choice(['24.000', '24', '25', '30', '12', '10'])
    fl = float(fps)
    a = {
        'version': '1.2', 'width': str(rng.randint(1, 4000)), 'height': str(rng.randint(1, 4000)),
        'xres': '%.6f' % rng.uniform(1, 5000), 'yres': '%.6f' % rng.uniform(1, 5000),
        'gamma-r': '%.6f' % rng.uniform(.5, 3), 'gamma-g': '%.6f' % rng.uniform(.5, 3), 'gamma-b': '%.6f' % rng.uniform(.5, 3),
        'view-box': ' '.join('%.6f' % rng.uniform(-9, 9) for _ in range(4)),
        'antialias': str(rng.randint(0, 5)), 'fps': fps,
        'begin-time': rng.choice(['0f', '0f', '0s', '12f', '1s']),
        'end-time': rng.choice(['5s', '5s', '100f', '2s 7f', '1m', '37f', '1h']),
        'bgcolor': ' '.join('%.6f' % rng.random() for _ in range(4)),
    }
    if attrs:
        for k, v in attrs.items():
            if v is None:
                a.pop(k, None)
            else:
                a[k] = v
    ws = rng.choice(['\n', '\n  '])
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<canvas ' + ' '.join(f'{k}="{esc(v)}"' for k, v in a.items()) + '>']
    if rng.random() < .9:
        out.append(f'<name>{esc(rng.choice(["New animation", "Wombat", "ünï", " padded ", "", "two words", "  "]))}</name>')
    if rng.random() < .7:
        out.append(f'<desc>{esc(rng.choice(["", "A thing", "日本", " padded ", "two\n  lines", "0", "   "]))}</desc>')
    out.append('<meta name="grid_show" content="0"/>')
    out.append('<meta name="onion_skin" content="1"/>')
    for i in range(rng.randint(0, 3)):
        out.append(f'<keyframe time="{frames_text(rng.choice([i*13, i*13, i*13, 13, 7, 110, 1.5]), fl, rng)}" active="{rng.choice(["true", "false"])}">{esc(rng.choice(["start", "", "mid", "é", " padded", "two  words ", "  "]))}</keyframe>')
    n = nlayers if nlayers is not None else rng.choice([0, 1, 2, 3, 4])
    for _ in range(n):
        out.append(xml_layer(rng, depth, fl, drop))
    out.append('</canvas>')
    return ws.join(out) + '\n'


def load(h, xml):
    name = h.tmp('.sif')
    with open(name, 'wb') as f:
        f.write(xml.encode('utf8'))
    h.doc = xml
    return sangfroid.Animation(name)


def doc(h, **kw):
    return load(h, xml_doc(h.rng, **kw))


def all_layer_tags(tag):
    """descendant <layer> tags in document order, by our own traversal"""
    out = []
    for c in tag.contents:
        if isinstance(c, bs4.Tag):
            if c.name == 'layer':
                out.append(c)
            out.extend(all_layer_tags(c))
    return out


def direct_layer_tags(group_tag):
    """direct sublayers of a group layer or of the root canvas, in document order"""
    if group_tag.name == 'layer':
        p = own_param(group_tag, 'canvas')
        canvas = kids(p, 'canvas')[0]
    else:
        canvas = group_tag
    return kids(canvas, 'layer')


########################################################################

def run_one(prop, name, fn, seed, index, scratch, per_case=30):
    rng = random.Random(f'{prop}/{name}/{seed}/{index}')
    d = tempfile.mkdtemp(dir=scratch)
    h = H(rng, d)

    def alarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(per_case)
    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(h)
    except Violation as e:
        err = str(e)
    except Hang:
        err = f'did not finish within {per_case} s'
    except RecursionError as e:
        err = 'RecursionError'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if REPO in f.filename]
        err = f'unexpected {type(e).__name__}: {short(str(e))} at ' + '; '.join(f'{os.path.relpath(f.filename, REPO)}:{f.lineno}' for f in where[-3:])
        if not where:
            err = 'HARNESS-ERROR ' + err + ''.join(traceback.format_tb(e.__traceback__)[-3:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        shutil.rmtree(d, ignore_errors=True)
    return h, err
