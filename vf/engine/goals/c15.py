from .ly import *
from vf.engine import files as FL
from vf.engine.files import Bytes
import sangfroid.format as fm
from sangfroid.format import Format, Sif, Sifz, Blank
from sangfroid.animation import Animation

GOALS, goal = goals()
F, A = 'sangfroid.format.', 'sangfroid.animation.Animation.'
UNDER_CONTRACT = [F+x for x in ('Format.from_filename', 'Format._filename_for_saving', 'Format._encode', 'Format.handlers',
                                'FileContextHandler.__init__', 'FileContextHandler.__enter__', 'FileContextHandler.__exit__',
                                'Sif.main_file', 'Sif.save', 'Sifz.main_file', 'Sifz.save', 'Blank.__init__', 'Blank.main_file', 'Blank.save')] + \
                 [A+'__init__', A+'save']
ASSUMPTIONS = ['open(), gzip.open() and the file system do what is documented; no other program changes the files meanwhile',
               "BeautifulSoup, given the UTF-8 bytes of str(document), features='xml' and (at least) string, name, desc and keyframe as tags whose space matters, gives an identical document (also run on documents, as the bounded part of this check)",
               'str() of a document starts with the XML declaration']
SPACE = {'string', 'name', 'desc', 'keyframe'}
XML = z3.Function('xml', Node, Str)


def setup(cx):
    """(a document, its root)"""
    cx.memo['xml'] = xml
    cx.memo['BeautifulSoup'] = parser
    cx.memo['parsed'] = []


def xml(cx, ref):
    if cx.rec(ref).kind != 'doc':
        raise Unsupported('the text of part of a document')
    return S.from_term(XML(cx.rec(ref).sh))


def parser(cx, args, kw):
    kw = dict(kw)
    names = ['markup', 'features', 'builder', 'parse_only', 'from_encoding']
    kw.update(zip(names, args))
    src = kw.pop('markup', '')
    feats = kw.pop('features', None)
    if isinstance(feats, Ref):
        feats = cx.interp.concrete(feats)
    feats = [feats] if isinstance(feats, str) else feats
    keep = kw.pop('preserve_whitespace_tags', ())
    if isinstance(keep, Ref):
        keep = cx.interp.concrete(keep)
    enc = kw.pop('from_encoding', None)
    if kw:
        raise Unsupported(f'BeautifulSoup({sorted(kw)})')
    if isinstance(src, FL.File):
        src = src.rest(cx)
    fine = (feats is not None and set(feats) <= {'xml', 'lxml-xml'} and len(feats) > 0 and SPACE <= set(keep)
            and (enc is None or enc.lower() in ('utf-8', 'utf8')))
    doc = a_document(cx, f'parsed{len(cx.memo["parsed"])}')
    cx.memo['parsed'].append((doc, src, fine))
    return doc


def a_document(cx, base='doc'):
    root = B.node(cx, 'tag', 'canvas', base=base + '_root')
    return B.node(cx, 'doc', '[document]', {}, True, base=base, chunks=(Elem(root),))


def root_of(cx, doc):
    (c,) = Q.norm(cx, B.children(cx, doc))
    return c.v


def a_format(cx, cls, name):
    """a format as it's left by loading or saving"""
    if cls is Blank:
        needs(Blank, Blank(), ['filename'])
        return cx.new(InstRec(Blank, {'filename': None}))
    made = Format.from_filename('x.' + cls.extensions[0], load=False)
    needs(cls, made, ['filename'])
    return cx.new(InstRec(cls, {'filename': name}))


def prior(cx, cls):
    """(an animation, its document, the name it was last loaded from or saved to)"""
    setup(cx)
    doc = a_document(cx)
    name = None
    if cls is not Blank:
        name = S.opaque(cx, 'oldname')
    a = an_animation(cx, Animation, doc, root_of(cx, doc))
    rec = cx.rec(a)
    rec.attrs['_format'] = a_format(cx, cls, name)
    rec.attrs['_filename'] = name if cx.choose(2, 'was it loaded, or only saved, under its name?') == 0 else None
    return a, doc, name


def saved_as(cx, doc, cls):
    """what a file of that format must hold"""
    c = Bytes('enc', 'utf-8', S.from_term(XML(cx.rec(doc).sh)))
    return Bytes('gzip', c) if cls is Sifz else c


def wrote(cx, log0, name, doc, cls, what):
    """obligations: only that file was written, and this is what it holds"""
    log = FL.fs(cx).log[log0:]
    cx.prove(len(log) >= 1 and all(FL.same_name(n, name) for n, h in log), f'{what}: that file is written, and no other', repr(log))
    try:
        got = FL.fs(cx).find(cx, name)
    except Unsupported:
        got = None
    cx.prove(isinstance(got, Bytes) and got.same(saved_as(cx, doc, cls)),
             f'{what}: it holds the document in UTF-8, {"compressed" if cls is Sifz else "not compressed"}', repr(got))


def untouched(cx, log0, what):
    log = FL.fs(cx).log[log0:]
    cx.prove(not log, f'{what}: no file is touched', repr(log))


def any_name(cx, base='name'):
    """(a name with any extension, the extension)"""
    e = cx.str(base + '_extension')
    FL.extension(cx, e)
    return S.concat(S.opaque(cx, base), '.', S.from_term(e)), S.from_term(e)


def format_for(cx, e):
    """the format that an extension means (branches): Sif, Sifz, None, or 'sfg'"""
    low = S.case(cx, e, 'lower')
    for k, c in (('sif', Sif), ('sifz', Sifz), ('sfg', 'sfg')):
        if cx.branch(cx.interp.eq(low, k)):
            return c
    return None


def saving(cls):
    def g(cx):
        a, doc, old = prior(cx, cls)
        p = Picture(cx, [doc, root_of(cx, doc)])
        kind = cx.choose(2, 'has the name an extension?')
        if kind == 1:
            name, e = any_name(cx)
            want = format_for(cx, e)
        else:
            t = cx.str('name')
            FL.no_extension(cx, t)
            name, want = S.from_term(t), None
        trouble = (None, 'unwritable', 'unencodable')[cx.choose(3, 'what goes wrong?')]
        if trouble is not None:
            cx.memo[trouble] = True
        how, r = run(cx, lambda: call(cx, attr(cx, a, 'save'), name) if cx.choose(2, 'by keyword?') == 0 else call(cx, attr(cx, a, 'save'), filename=name))
        last, lastcls = old, cls
        if want is None:
            what = 'saving under a name of unknown extension'
            cx.prove(how == 'raise' and issubclass(r, ValueError), f'{what}: raises ValueError', r)
            untouched(cx, 0, what)
        elif want == 'sfg':
            what = 'saving in a format which is not supported'
            cx.prove(how == 'raise', f'{what}: is refused', r)
            untouched(cx, 0, what)
        elif trouble is not None:
            what = {'unwritable': 'saving to where nothing can be written', 'unencodable': 'saving a document which cannot be encoded'}[trouble]
            cx.prove(how == 'raise' and issubclass(r, (OSError, UnicodeEncodeError)), f'{what}: raises an exception', r)
            untouched(cx, 0, what)
        else:
            what = f'saving as {want.__name__.lower()}'
            cx.prove(how == 'ok', f'{what}: can be done', r)
            if how != 'ok':
                return
            wrote(cx, 0, name, doc, want, what)
            last, lastcls = name, want
        p.all_same(what)
        # and once more, without a name
        if trouble is not None:
            del cx.memo[trouble]
        log0 = len(FL.fs(cx).log)
        FL.fs(cx).files = []
        how, r = run(cx, lambda: call(cx, attr(cx, a, 'save')))
        unnamed(cx, how, r, log0, last, doc, lastcls)
        p.all_same('saving without a name')
        cx.cover('saved')
    g.__name__ = f'save_named_{cls.__name__}'
    return g


def unnamed(cx, how, r, log0, last, doc, cls):
    if cls is Blank:
        what = 'saving something new without a name'
        cx.prove(how == 'raise' and issubclass(r, ValueError), f'{what}: raises ValueError', r)
        untouched(cx, log0, what)
    else:
        what = 'saving without a name'
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how == 'ok':
            wrote(cx, log0, last, doc, cls, what)


def saving_unnamed(cls):
    def g(cx):
        a, doc, old = prior(cx, cls)
        p = Picture(cx, [doc, root_of(cx, doc)])
        how, r = run(cx, lambda: call(cx, attr(cx, a, 'save')))
        unnamed(cx, how, r, 0, old, doc, cls)
        p.all_same('saving without a name')
        cx.cover('saved')
    g.__name__ = f'save_unnamed_{cls.__name__}'
    return g


for cls in (Sif, Sifz, Blank):
    what = {Sif: 'loaded from or saved as XML', Sifz: 'loaded from or saved as compressed XML', Blank: 'newly made'}[cls]
    goal(f'saving any animation {what} under any name writes that file alone in the format of its extension, or raises ValueError and touches nothing; and then again without a name')(saving(cls))
    goal(f'saving any animation {what} without a name writes the file it was last loaded from or saved to, or raises ValueError if there is none')(saving_unnamed(cls))


def parsed_from(cx, soup):
    for doc, src, fine in cx.memo['parsed']:
        if isinstance(soup, Ref) and doc == soup:
            return src, fine
    return None, False


@goal('a file is loaded according to its contents, whatever it is called; unknown and empty ones raise ValueError')
def load(cx):
    setup(cx)
    name, e = any_name(cx)
    m = cx.str('magic')
    c = Bytes('any', m)
    FL.fs(cx).put(name, c)
    how, r = run(cx, lambda: call(cx, Animation, name))
    is_ = lambda k: cx.branch(m == cx.lit('first two bytes: ' + k))
    if is_('<?'):
        want, cls = c, Sif
    elif is_('\x1f\x8b'):
        want, cls = Bytes('gunzip', c), Sifz
    else:
        what = 'loading what is not an animation'
        cx.prove(how == 'raise' and issubclass(r, ValueError), f'{what}: raises ValueError', r)
        untouched(cx, 0, what)
        cx.cover('refused')
        return
    what = f'loading {"compressed " if cls is Sifz else ""}XML'
    cx.prove(how == 'ok', f'{what}: can be done', r)
    if how != 'ok':
        return
    check_loaded(cx, r, want, what)
    untouched(cx, 0, what)
    # and saved again
    soup = cx.rec(r).attrs['_soup']
    how, x = run(cx, lambda: call(cx, attr(cx, r, 'save')))
    unnamed(cx, how, x, 0, name, soup, cls)
    cx.cover('loaded')


def check_loaded(cx, a, want, what):
    soup = cx.rec(a).attrs.get('_soup')
    src, fine = parsed_from(cx, soup)
    cx.prove(isinstance(src, Bytes) and src.same(want), f'{what}: all that is in the file is parsed', repr(src))
    cx.prove(fine, f'{what}: as XML in which no text is lost')
    if isinstance(soup, Ref):
        cx.prove(attr(cx, a, 'tag') == root_of(cx, soup), f'{what}: its tag is the root of the document')


@goal('what is saved is what is loaded again, whatever the file is called by then')
def round_trip(cx):
    cls = (Sif, Sifz, Blank)[cx.choose(3, 'format before')]
    a, doc, old = prior(cx, cls)
    name, e = any_name(cx)
    want = format_for(cx, e)
    if want in ('sfg', None):
        raise Infeasible()
    how, r = run(cx, lambda: call(cx, attr(cx, a, 'save'), name))
    cx.prove(how == 'ok', 'saving and loading: can be saved', r)
    if how != 'ok':
        return
    now = name
    if cx.choose(2, 'is it renamed?'):
        now, _ = any_name(cx, 'newname')
        try:
            FL.fs(cx).put(now, FL.fs(cx).find(cx, name))
        except Unsupported:
            cx.prove(False, 'saving and loading: the file is there')
            return
    how, r = run(cx, lambda: call(cx, Animation, now))
    cx.prove(how == 'ok', 'saving and loading: can be loaded', r)
    if how != 'ok':
        return
    check_loaded(cx, r, saved_as(cx, doc, Sif), 'saving and loading')
    cx.cover('loaded')


@goal('a new animation is the blank one')
def new(cx):
    setup(cx)
    how, r = run(cx, lambda: call(cx, Animation))
    cx.prove(how == 'ok', 'a new animation: can be made', r)
    if how != 'ok':
        return
    src, fine = parsed_from(cx, cx.rec(r).attrs.get('_soup'))
    cx.prove(isinstance(src, str), 'a new animation: the blank one')
    untouched(cx, 0, 'a new animation')
    how, x = run(cx, lambda: call(cx, attr(cx, r, 'save')))
    unnamed(cx, how, x, 0, None, cx.rec(r).attrs['_soup'], Blank)
    cx.cover('made')
