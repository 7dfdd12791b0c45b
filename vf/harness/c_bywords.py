from .hlib import *
import re
with contextlib.redirect_stdout(io.StringIO()):
    import pysrt
    from bywords.adjust import adjust
    from bywords.bywords import Bywords

WORDS = ['how', 'can', 'I', 'sing', 'like', 'a', 'girl', 'and', 'not', 'be', 'stigmatised', "don't", 'the', 'World?', 'x', '42',
         'café', 'well-known', 'Oh,', 'extraordinarily', 'end.', 'wait...', '2nd', 'No!']


def tidy(s):
    return re.sub('[^a-z0-9 ]', '', s.lower())


def text_layer(rng, desc):
    v = rng.choice([f'<string>{esc(desc or "")}</string>', '<string>old</string>',
                    '<animated type="string"><waypoint time="0s" before="constant" after="constant"><string></string></waypoint>'
                    '<waypoint time="7f" before="clamped" after="ease"><string>zz</string></waypoint></animated>'])
    extra = ''.join(xml_param(n, k, rng, 24.0) for n, k in [('z_depth', 'real'), ('color', 'color')] if rng.random() < .6)
    d = f' desc="{esc(desc)}"' if desc is not None else ''
    return f'<layer type="text" active="true"{d}>{extra}<param name="text">{v}</param></layer>'


def group(rng, desc, inner):
    d = f' desc="{esc(desc)}"' if desc is not None else ''
    return f'<layer type="group"{d}><param name="z_depth"><real value="0.0"/></param><param name="canvas"><canvas>\n{"".join(inner)}\n</canvas></param></layer>'


def split_words(desc):
    """[(prefix, letters)] per word"""
    return [(desc[:m.end()], m.end()-m.start()) for m in re.finditer(r'[^ \t\n]+', desc)]


def split_letters(desc):
    return [(desc[:i+1], 1) for i, c in enumerate(desc) if not c.isspace()]


def texts_of(gtag):
    return [t for t in reversed(all_layer_tags(gtag)) if t['type'] == 'text' and t.get('desc') is not None]


def build(h, letters):
    rng = h.rng
    fps = rng.choice(['24', '25', '30', '12', '10', '24.000', '29.97'])
    groups, lines_text = [], []
    n = rng.randint(1, 4)
    seen = set()
    for i in range(n):
        layers = [' '.join(rng.choice(WORDS) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(1, 3))]
        if rng.random() < .1 and not letters:
            layers[0] = layers[0].replace(' ', '  ')
        full = ' '.join(tidy(x) for x in layers)
        if full in seen:
            continue
        seen.add(full)
        inner = [text_layer(rng, d) for d in reversed(layers)]
        if rng.random() < .3:
            inner.insert(rng.randint(0, len(inner)), xml_layer(rng, 0, 24.0).replace('type="text"', 'type="circle"').replace('type="Text"', 'type="circle"').replace('type="TEXT"', 'type="circle"'))
        if rng.random() < .15:
            inner.insert(rng.randint(0, len(inner)), text_layer(rng, None))
        if rng.random() < .2 and len(inner) > 1:
            inner = [group(rng, rng.choice(['sub', None, 'x']), inner)]
        desc = rng.choice(['bywords', 'Bywords', 'BYWORDS 1', 'bywords-x', 'bywords ' + layers[0]]) + str(i)
        groups.append(group(rng, desc, inner))
        # punctuation, case don't matter
        lt = ' '.join(layers)
        lt = rng.choice([lt, lt.upper(), lt + '!', lt.replace(',', ''), '"' + lt + '"'])
        lines_text.append(lt)
    # groups that must not be touched
    groups.append(group(rng, rng.choice(['other', None, 'not bywords', 'byword']), [text_layer(rng, rng.choice(['how', 'leave me']))]))
    if rng.random() < .3:
        groups.append(text_layer(rng, 'how'))
    rng.shuffle(groups)
    a = load(h, xml_doc(rng, fps=fps, nlayers=0).replace('</canvas>\n', ''.join(groups) + '</canvas>\n'))
    lines = []
    t = rng.choice([0, 0, rng.randint(0, 4000)])
    pick = [x for x in lines_text if rng.random() < .85]
    rng.shuffle(pick)
    for x in pick:
        d = rng.choice([rng.randint(1, 6000), rng.randint(500, 3000), 1000, 1])
        lines.append((t, d, x))
        t += rng.choice([d, d, d + rng.randint(0, 2000), 0, d//2])
    if rng.random() < .5:
        lines.insert(rng.randint(0, len(lines)), (rng.randint(0, 9000), 500, rng.choice(['nothing like this', 'leave me', '...', 'zz zz'])))
    srt = pysrt.SubRipFile([pysrt.SubRipItem(index=i+1, start=pysrt.SubRipTime.from_ordinal(s), end=pysrt.SubRipTime.from_ordinal(s+d), text=x)
                            for i, (s, d, x) in enumerate(lines)])
    return a, float(fps), lines, srt


def wanted(a, lines, letters):
    """{id(text tag): (tag, {frame time in s: prefix})}, unmatched"""
    groups = [t for t in all_layer_tags(a._tag) if t['type'] == 'group' and (t.get('desc') or '').lower().startswith('bywords')]
    groups.sort(key=lambda t: t['desc'])
    out, unmatched = {}, []
    for s, d, x in lines:
        x = tidy(x)
        hit = None
        for g in groups:
            ts = texts_of(g)
            if ' '.join(tidy(t['desc']) for t in ts) == x and x.strip():
                hit = ts
                break
        if hit is None:
            unmatched.append(x)
            continue
        seq = [(t, p, n) for t in hit for p, n in (split_letters if letters else split_words)(t['desc'])]
        total = sum(n for _, _, n in seq)
        at = 0
        for t, p, n in seq:
            out.setdefault(id(t), (t, {}))[1][(s + d*at/total)/1000] = p
            at += n
    return out, unmatched


def timeline_of(tag, fps):
    v = kids(own_param(tag, 'text'))[0]
    if v.name != 'animated':
        return None
    return [(parse_simple(str(w['time']), fps), ''.join(str(c) for c in kids(w)[0].contents), w['before'], w['after']) for w in kids(v)]


def check_result(h, a, fps, want, what):
    for t, m in want.values():
        exp = {s*fps: p for s, p in m.items()}
        if not any(abs(k) < 1e-9 for k in exp):
            exp[0.0] = ''
        got = timeline_of(t, fps)
        h.true(got is not None, f'{what}: text {t["desc"]!r} is animated')
        exp = sorted(exp.items())
        h.eq([g[1] for g in got], [p for _, p in exp], f'{what}: texts of {t["desc"]!r}')
        for g, (s, p) in zip(got, exp):
            h.near(g[0], s, 2e-6, f'{what}: frame when {p!r} appears')
            h.eq((g[2], g[3]), ('constant', 'constant'), f'{what}: interpolations')


@case('C17', 8)
def reveal(h):
    rng = h.rng
    letters = rng.random() < .4
    a, fps, lines, srt = build(h, letters)
    want, unmatched = wanted(a, lines, letters)
    h.log('lines', lines, 'letters' if letters else 'words')

    def rest():
        def go(node):
            if isinstance(node, bs4.Tag):
                if node.name == 'param' and node.get('name') == 'text' and id(node.parent) in want:
                    return '<<text>>'
                return (node.name, tuple(sorted(node.attrs.items())), tuple(go(c) for c in node.contents))
            return str(node)
        return go(a._tag)
    before = rest()
    h.ok(lambda: adjust(srt, a, letter_at_a_time=letters), 'adjust()')
    check_result(h, a, fps, want, 'after adjust()')
    h.eq(rest(), before, 'rest of the document')
    once = canon(a._tag)
    h.ok(lambda: adjust(srt, a, letter_at_a_time=letters), 'adjust() again')
    check_result(h, a, fps, want, 'after adjust() again')
    h.eq(canon(a._tag), once, 'document after running it again')
    bw = h.ok(lambda: Bywords(srt, a, letter_at_a_time=letters), 'Bywords()')
    h.eq(bw.no_matches, unmatched, 'unmatched lines')
    ws = list(bw)
    exp = sorted((s, p) for t, m in want.values() for s, p in m.items())
    h.eq(len({(round(w.time, 7), w.text, id(w.item.tag)) for w in ws}), sum(len(m) for _, m in want.values()), 'number of words')
    h.eq([w.time for w in ws], sorted(w.time for w in ws), 'order of words')
    for w in ws:
        t, m = want[id(w.item.tag)]
        h.true(any(abs(w.time-s) < 1e-6 and w.text == p for s, p in m.items()), f'word {w.text!r} at {w.time}, expected {m}')
