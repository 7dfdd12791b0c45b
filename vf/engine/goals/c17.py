"""
Bywords. The texts and the shape of the group are each one of a list; the
lines' times, the frame rate, and whatever else is in the document are
arbitrary.
"""
import re
from .ly import *
from .c12 import list_of
from sangfroid.animation import Animation
import bywords.bywords as bb
import bywords.adjust as ba

GOALS, goal = goals()
BW = 'bywords.bywords.'
UNDER_CONTRACT = [BW+x for x in ('BywordsGroup.__init__', 'BywordsGroup.tidy_string', 'BywordsGroup.matches', 'WordTiming.__init__',
                                 'WordTiming.__lt__', 'Bywords.__init__', 'Bywords.__iter__')] + \
                 ['bywords.adjust.set_constant_waypoint', 'bywords.adjust.adjust']
LENGTHS = [3, 1, 4, 2, 5]
BOUNDED = ['in the goals about whole animations, the lengths of the words (but not the words)',
           'the descriptions of the text layers, and how many there are: the shapes in SHAPES (times, durations, frame rates and everything else in the document: unbounded)']

# the texts of a group in the order of its sublayers: how many words each has,
# or words themselves; None is a text layer without a description, ... a layer
# of another type, and a tuple another group within it
SHAPES = {
    'one_word': [1],
    'two_words': [2],
    'three_words': [3],
    'two_layers': [1, 2],
    'three_layers': [2, 1, 1],
    'spaces': [['  ', '\t', '\n ']],
    'literal': ['well-known', 'a b, c!'],
    'undescribed': [1, None, 1],
    'others': [..., 1, ..., 1],
    'nested': [1, (1, 1)],
    'nested_first': [(1, ...), 1],
}


def a_desc(cx, what, base, letters, fixed=False):
    """(description, [(what has appeared by then, its letters)])"""
    if what is None:
        return None, []
    if isinstance(what, str):
        parts = re.split('( )', what)
    else:
        seps = what if isinstance(what, list) else [' ']*(what-1)
        parts = []
        for i in range(len(seps)+1):
            if i:
                parts.append(seps[i-1])
            parts.append(None)
    atoms, words = [], []
    for i, x in enumerate(parts):
        if x is not None and x.isspace():
            atoms.append(x)
        elif x is not None:
            for c in x:
                atoms.append(c)
                if letters:
                    words.append((mkstr(atoms), 1))
            if not letters:
                words.append((mkstr(atoms), len(x)))
        elif letters:
            # two unknown letters
            for j in range(2):
                t = cx.str(f'{base}_letter{i}_{j}')
                S.token(cx, t, alnum=True)
                cx.axiom(S.LEN(t) == 1)
                atoms.append(StrAtom(t, char=True))
                words.append((mkstr(atoms), 1))
        else:
            t = cx.str(f'{base}_word{i}')
            S.token(cx, t, alnum=True)
            atoms.append(StrAtom(t))
            n = S.LEN(t)
            if fixed:
                n = LENGTHS[len(words) % len(LENGTHS)]
                cx.axiom(S.LEN(t) == n)
            words.append((mkstr(atoms), n))
    return mkstr(atoms), words


class AText:
    """a text layer with that description, whose text is any string, animated or not"""
    def __init__(self, cx, desc, base, where, letters, fixed=False):
        self.cx = cx
        self.desc, self.words = a_desc(cx, desc, base, letters, fixed)
        if desc is not None and cx.choose(2, f'is {base} animated?'):
            line = Line(cx, 'string', False, False, in_order=True, within=where)
            v = line.tag
            self.line = line
        else:
            self.line = None
            v = value_tag(cx, 'string', base + '_value')
        a = ALayer(cx, sl.Text, 'text', v, base, doc=False)
        self.tag, self.param, self.before = a.tag, a.param, v
        rec = cx.rec(self.tag)
        rec.attrs['type'] = 'text'
        if desc is not None:
            rec.attrs['desc'] = self.desc
        else:
            cx.assume(z3.Not(B.HAS('desc')(rec.sh)))


class AGroupOfTexts:
    def __init__(self, cx, descs, where, letters, base='group', name='bywords', attached=True, fixed=False):
        above = B.Above('above', where[:2]) if attached else None
        self.texts, self.others = [], []

        def inside(descs, base):
            out = []
            for i, d in enumerate(descs):
                b = f'{base}_{i}'
                if d is ...:
                    out.append(B.node(cx, 'tag', 'layer', {'type': 'circle', 'desc': 'words'}, True, base=b, chunks=()))
                    self.others.append(out[-1])
                elif isinstance(d, tuple):
                    out.append(a_group(d, b, 'sub', None)[0])
                    self.others.append(out[-1])
                else:
                    self.texts.append(AText(cx, d, b, where, letters, fixed))
                    out.append(self.texts[-1].tag)
            return out

        def a_group(descs, base, name, above):
            # the first is at the top, and so last in the document
            canvas = B.node(cx, 'tag', 'canvas', {}, True, base=base + '_canvas', chunks=tuple(Elem(t) for t in reversed(inside(descs, base))))
            param = B.node(cx, 'tag', 'param', {'name': 'canvas'}, True, base=base + '_param', chunks=(Elem(canvas),))
            return B.node(cx, 'tag', 'layer', {'type': 'group', 'desc': name}, True, base=base, chunks=(Elem(param),), parent=above), param, canvas
        self.tag, self.param, self.canvas = a_group(descs, base, name, above)
        self.described = [t for t in self.texts if t.desc is not None]
        self.full = S.join(cx, ' ', [t.desc for t in self.described])
        self.tidied = call(cx, bb.BywordsGroup.tidy_string, self.full)

    def no_waypoints(self):
        """is a text animated without any waypoints? (That can't be un-animated.)"""
        return any(t.line is not None and t.line.none_known() for t in self.texts)


def check_words(cx, got, group, start, duration, letters, what):
    want = [(t, p, n) for t in group.described for p, n in t.words]
    total = z3.ToReal(z3.Sum([z3.IntVal(0)] + [n for _, _, n in want]))
    each = cx.interp.div(duration, total)
    got = [c.v if isinstance(c, Elem) else None for c in Q.norm(cx, got)]
    cx.prove(len(got) == len(want) and None not in got, f'{what}: one for each word', f'{got} {want}')
    if len(got) != len(want) or None in got:
        return
    at = z3.RealVal(0)
    for w, (t, p, n) in zip(got, want):
        cx.prove(cx.interp.eq(attr(cx, w, 'text'), p), f'{what}: the words appear cumulatively')
        cx.prove(B.same_ref(cx, attr(cx, attr(cx, w, 'item'), 'tag'), t.tag), f'{what}: each in its own layer')
        when = (start + each*at)/1000
        cx.prove(zreal(attr(cx, w, 'time')) == when, f"{what}: each at its proportional time")
        at = at + (z3.ToReal(n) if z3.is_expr(n) else n)


def no_other_layers(cx):
    """what isn't mentioned may be anything, but not a layer"""
    cx.memo['every_node'] = lambda e: z3.Implies(B.ISTAG(e), B.NAME(e) != cx.lit('layer'))


def a_line(cx, base):
    start, duration = cx.int(base + '_start'), cx.int(base + '_duration')
    cx.assume(z3.And(start >= 0, duration > 0))
    return start, duration


def matching(shape, letters):
    def g(cx):
        no_other_layers(cx)
        where = fps_ref(cx)
        group = AGroupOfTexts(cx, SHAPES[shape], where, letters)
        layer = call(cx, sl.Group, group.tag)
        start, duration = a_line(cx, 'line')
        bg = call(cx, bb.BywordsGroup, layer)
        p = Picture(cx, [group.tag, group.param, group.canvas] + group.others + [t.tag for t in group.texts])
        how, r = run(cx, lambda: call(cx, cx.interp.getattr(bg, 'matches'), group.tidied, SInt(duration), SInt(start), letters))
        if how != 'ok' and group.no_waypoints():
            return
        cx.prove(how == 'ok' and r is not None, 'a line which matches: is matched', r)
        if how == 'ok' and r is not None:
            check_words(cx, list_of(cx, r), group, z3.ToReal(start), z3.ToReal(duration), letters, 'a line which matches')
        p.all_same('a line which matches')
        cx.cover('matched')
    g.__name__ = f'matching_{shape}_{"letters" if letters else "words"}'
    goal(f'a line which matches a group reveals each word at its proportional time ({shape}, by {"letters" if letters else "words"})')(g)


for shape in SHAPES:
    for letters in (False, True):
        # (in letters, more than one space together isn't spoken of)
        if not (letters and shape == 'spaces'):
            matching(shape, letters)


@goal('a line with another text, or with none, does not match, and nothing changes')
def not_matching(cx):
    no_other_layers(cx)
    where = fps_ref(cx)
    letters = bool(cx.choose(2, 'by letters?'))
    k = cx.choose(4, 'what')
    group = AGroupOfTexts(cx, [[], [1], [1, 1], [None]][k], where, letters)
    bg = call(cx, bb.BywordsGroup, call(cx, sl.Group, group.tag))
    if cx.choose(2, 'an empty line?'):
        text = ['', ' ', '  '][cx.choose(3, 'which')]
    else:
        text = S.opaque(cx, 'line')
        cx.assume(z3.Not(zbool(cx.interp.eq(text, group.tidied))))
    start, duration = a_line(cx, 'line')
    p = Picture(cx, [group.tag, group.param, group.canvas] + [r for t in group.texts for r in (t.tag, t.param, t.before)])
    how, r = run(cx, lambda: call(cx, cx.interp.getattr(bg, 'matches'), text, SInt(duration), SInt(start), letters))
    cx.prove(how == 'ok' and not truth(cx, r), 'a line which does not match: is not matched', r)
    p.all_same('a line which does not match')
    cx.cover('not matched')


########################################################################
# putting them in

def seconds_contract(cx, args, kw):
    """
    T._parse_time_spec: as C01's contract; and by C01, a numeral followed by
    "s" or "f" is that many seconds or frames
    """
    self, s = args
    fps = fields(cx, self)['_fps']
    p = S.parts_of(s)
    if fps is not None and len(p) == 2 and p[1] in ('s', 'f') and (
            isinstance(p[0], NumAtom) and p[0].kind != 'repr' or isinstance(p[0], StrAtom) and p[0].z.decl().name().startswith('fmt%') and p[0].z.decl().name().endswith('f')):
        t, z = S.term(cx, s), zreal(fps)
        n = zreal(S.to_float(cx, mkstr(p[:1])))
        T_ = PARSE(t, z)
        cx.fact(z3.And(PARSES(t, z), T_ == (n*z if p[1] == 's' else n)))
        if p[1] == 's':
            # times in seconds are in the same order as the seconds (since the frame rate is positive)
            known = cx.memo.setdefault('in seconds', [])
            for n2, t2, z2 in known + [(z3.RealVal(0), z3.RealVal(0), z)]:
                if z2.eq(z):
                    cx.fact(z3.And((n <= n2) == (T_ <= t2), (n2 <= n) == (t2 <= T_)))
            known.append((n, T_, z))
        return SReal(T_)
    return parse_contract(cx, args, kw)


def one_waypoint(cx):
    line = Line(cx, 'string', True)
    cx.interp.contracts['sangfroid.t.T._parse_time_spec'] = seconds_contract
    when = cx.real('seconds')
    cx.assume(when >= 0)
    text = S.opaque(cx, 'text')
    how, r = attempt(cx, ba.set_constant_waypoint, attr(cx, line.value, 'timeline'), SReal(when), text)
    cx.prove(how == 'ok', 'putting a word in: never fails', r)
    if how != 'ok':
        return
    tag = attr(cx, line.value, 'tag')
    cx.prove(B.name_of(cx, tag) == 'animated', 'putting a word in: the text is animated')
    new = []
    for c in Q.norm(cx, B.children(cx, tag)):
        for d in c.flat() if isinstance(c, Bag) else [c]:
            if isinstance(d, Elem) and B.tag_p(cx, d.v):
                x = line.describe(d.v)
                if x is not None and cx.rec(x[3]).sh is None:
                    new.append(x)
    cx.prove(len(new) == 1, 'putting a word in: there is one')
    if len(new) != 1:
        return
    t, b, a, v = new[0]
    near = z3.And(t - when*line.fps <= line.fps*NANO, when*line.fps - t <= line.fps*NANO)
    cx.prove(near, 'putting a word in: it is at its time')
    cx.prove(z3.And(b == cx.lit('constant'), a == cx.lit('constant')), 'putting a word in: its interpolations')
    cx.prove(z3.simplify(S.term(cx, B.all_text(cx, v)) == S.term(cx, text)), 'putting a word in: its text')
    expect(line, lambda e: line.time(e) != t, [(t, cx.lit('constant'), cx.lit('constant'), v)], 'putting a word in')
    surroundings(line, 'putting a word in')
    cx.cover('put in')


NANO = z3.RealVal('1/1000000000')
goal('putting a word into a timeline of any length puts it at its time, replacing what was there, and keeps the rest', budget=200)(one_waypoint)


########################################################################
# all of it

class Stamp:
    pass


class Subtitle:
    pass


def a_subtitle(cx, start, duration, text):
    def stamp(n):
        return cx.new(InstRec(Stamp, {'ordinal': SInt(n)}))
    return cx.new(InstRec(Subtitle, {'start': stamp(start), 'duration': stamp(duration), 'text': text}))


class Scene:
    """
    An animation of any frame rate with these groups at its top, and anything
    else but layers around them
    """
    def __init__(self, cx, groups, letters):
        self.cx = cx
        no_other_layers(cx)
        check_shapes()
        fps, text = cx.real('fps'), cx.str('fpstext')
        cx.assume(z3.And(S.FVALID(text) == 1, S.FNUM(text) == fps, fps > 0))
        cx.memo.setdefault('fps_terms', []).append(S.FNUM(text))
        self.fps = fps
        where = (None, None, fps)
        self.groups = [AGroupOfTexts(cx, d, where, letters, f'group{i}', n, attached=False, fixed=True) for i, (n, d) in enumerate(groups)]
        kids = [B.some_nodes(cx, 'top')]
        for g in self.groups:
            kids += [Elem(g.tag), B.some_nodes(cx, 'top')]
        self.root = B.node(cx, 'tag', 'canvas', {'fps': S.from_term(text)}, base='root', chunks=tuple(kids))
        self.soup = B.node(cx, 'doc', '[document]', {}, True, base='doc', chunks=(Elem(self.root),))
        cx.interp.contracts['sangfroid.t.T._parse_time_spec'] = seconds_contract
        cx.interp.contracts['sangfroid.value.value.Waypoint._check_interpolation_type'] = interpolation_contract
        self.animation = an_animation(cx, Animation, self.soup, self.root)

    def refs(self):
        return [self.root, self.soup] + [r for g in self.groups for r in [g.tag, g.param, g.canvas] + [t.tag for t in g.texts]]


def waypoints_of(cx, t):
    """[(time term, text, before, after)] of the text layer's text parameter as it is now; None if it's something else"""
    vals = [c.v for c in Q.norm(cx, B.children(cx, t.param)) if isinstance(c, Elem) and B.tag_p(cx, c.v)]
    if len(vals) != 1 or not cx.entails(zbool(cx.interp.eq(B.name_of(cx, vals[0]), 'animated'))):
        return None
    out = []
    for c in Q.norm(cx, B.children(cx, vals[0])):
        if not isinstance(c, Elem):
            raise Unsupported('what is in the timeline')
        if not B.tag_p(cx, c.v):
            continue
        how, w = attempt(cx, Waypoint.from_tag, c.v)
        if how != 'ok':
            return None
        how, v = run(cx, lambda: attr(cx, attr(cx, w, 'value'), 'value'))
        if how != 'ok' or not S.is_str(v):
            return None
        out.append((zreal(attr(cx, attr(cx, w, 'time'), 'frames')), v, attr(cx, w, 'before'), attr(cx, w, 'after')))
    return out


def whats_due(cx, group, start, duration):
    """{text layer: [(seconds, what has appeared)]}"""
    words = [(t, p, n) for t in group.described for p, n in t.words]
    total = sum(n for _, _, n in words)
    out = {}
    at = 0
    for t, p, n in words:
        out.setdefault(t, []).append(((z3.ToReal(start) + z3.ToReal(duration)*z3.Q(at, total))/1000, p))
        at = at + n
    return out


def check_text(cx, sc, t, due, what):
    got = waypoints_of(cx, t)
    cx.prove(got is not None, f'{what}: the text is animated')
    if got is None:
        return
    for i in range(len(got)-1):
        cx.prove(got[i][0] < got[i+1][0], f'{what}: in order of time')
    at_start = z3.Or(*[when == 0 for when, _ in due])
    if not cx.branch(at_start):
        due = [(z3.RealVal(0), '')] + due
    cx.prove(len(got) == len(due), f'{what}: each word once, and empty at frame zero unless a word is due then', f'{got} {due}')
    if len(got) != len(due):
        return
    for when, text in due:
        # whichever it is
        k = [g for g in got if S.eq(cx, g[1], text) is True or not isinstance(g[1], str) and cx.entails(zbool(cx.interp.eq(g[1], text)))]
        cx.prove(len(k) > 0, f'{what}: the words appear cumulatively')
        if not k:
            return
        off = [z3.And(g[0] - when*sc.fps <= sc.fps*NANO, when*sc.fps - g[0] <= sc.fps*NANO) for g in k]
        cx.prove(off[0] if len(off) == 1 else z3.Or(*off), f'{what}: each word at its proportional time')
        for g in k:
            cx.prove(g[2] == 'constant' and g[3] == 'constant', f'{what}: each word stays until the next')


def revealing(name, groups, lines, letters=False, times=1):
    """lines: indices of groups, or None for a line which matches none of them"""
    def g(cx):
        sc = Scene(cx, groups, letters)
        matching = [x for x, (n, _) in zip(sc.groups, groups) if n.lower().startswith('bywords')]
        for i, x in enumerate(sc.groups):
            for y in sc.groups[:i]:
                cx.assume(z3.Not(zbool(cx.interp.eq(x.tidied, y.tidied))))
        subs, given = [], []
        for i, k in enumerate(lines):
            st, du = a_line(cx, f'line{i}')
            if k is None:
                text = S.opaque(cx, 'other')
                tidied = call(cx, bb.BywordsGroup.tidy_string, text)
                for x in sc.groups:
                    cx.assume(z3.Not(zbool(cx.interp.eq(tidied, x.tidied))))
            else:
                text = sc.groups[k].full
                if sc.groups[k] in matching:
                    given.append((sc.groups[k], st, du))
            subs.append(a_subtitle(cx, st, du, text))
        due = {}
        for x, st, du in given:
            for t, d in whats_due(cx, x, st, du).items():
                due.setdefault(t, []).extend(d)
        p = Picture(cx, sc.refs() + [r for x in sc.groups for t in x.texts if t not in due for r in (t.param, t.before)])
        for i in range(times):
            what = 'adjusting' if i == 0 else 'adjusting again'
            how, r = attempt(cx, ba.adjust, cx.new(ListRec(tuple(Elem(x) for x in subs))), sc.animation, letters)
            if how != 'ok' and any(x.no_waypoints() for x in sc.groups):
                return
            cx.prove(how == 'ok', f'{what}: never fails', r)
            if how != 'ok':
                return
            for t, d in due.items():
                check_text(cx, sc, t, d, what)
            p.all_same(what)
        cx.cover('adjusted')
    g.__name__ = name
    goal(f'adjusting: {name.replace("_", " ")}', budget=200, cost=50)(g)


revealing('one_line', [('bywords', [2])], [0])
revealing('two_layers', [('bywords', [1, 2])], [0])
revealing('two_lines', [('bywords 1', [2]), ('Bywords 2', [1])], [0, 1])
revealing('no_match', [('bywords', [1])], [None, 0])
revealing('not_bywords', [('words', [1]), ('bywords', [1])], [0, 1])
revealing('letters', [('bywords', [1, 1])], [0], True)
revealing('nothing_matches', [('bywords', [1, 1])], [None])
revealing('twice', [('bywords', [2])], [0], times=2)
revealing('three_words', [('bywords', [3])], [0])
revealing('nested_group', [('bywords', [(1, ...), 1])], [0])


@goal('lines which match no group are reported, in order; the words of the others are listed in order of time', budget=100)
def reported(cx):
    sc = Scene(cx, [('bywords', [2])], False)
    x = sc.groups[0]
    k = cx.choose(3, 'lines')
    subs, want = [], []
    st, du = a_line(cx, 'line')
    for matches in ([False], [False, True, False], [True])[k]:
        if matches:
            subs.append(a_subtitle(cx, st, du, x.full))
            continue
        text = S.opaque(cx, 'other')
        tidied = call(cx, bb.BywordsGroup.tidy_string, text)
        cx.assume(z3.Not(zbool(cx.interp.eq(tidied, x.tidied))))
        want.append(tidied)
        subs.append(a_subtitle(cx, *a_line(cx, 'unmatched'), text))
    how, r = attempt(cx, bb.Bywords, cx.new(ListRec(tuple(Elem(y) for y in subs))), sc.animation)
    if how != 'ok' and x.no_waypoints():
        return
    cx.prove(how == 'ok', 'reporting: never fails', r)
    if how != 'ok':
        return
    got = [c.v if isinstance(c, Elem) else None for c in Q.norm(cx, list_of(cx, attr(cx, r, 'no_matches')))]
    cx.prove(len(got) == len(want) and all(g is not None and cx.entails(zbool(cx.interp.eq(g, w))) for g, w in zip(got, want)), 'reporting: the lines which match nothing', got)
    if k:
        check_words(cx, list_of(cx, r), x, z3.ToReal(st), z3.ToReal(du), False, 'listing the words')
    else:
        cx.prove(not [c for c in Q.norm(cx, list_of(cx, r))], 'listing the words: nothing else')
    cx.cover('reported')
