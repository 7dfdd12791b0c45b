"""Layers, for C10 to C14 and C16."""
from .tl import *
import sangfroid.animation
import sangfroid.layer as sl
from sangfroid.layer.layer import Layer

LAYER_METHODS = ('__getitem__', '__setitem__', '__contains__', '_find_param', '_as_dict', 'items', 'keys', 'values', '__init__',
                 '__getattr__', '__getattribute__', '__setattr__', 'find_all', 'find', '__call__', '_find_all_root', 'children', 'parent',
                 'tag_depth', '__len__', '__iter__', 'append', 'insert', 'canvas_tag', '_get_children', 'descendants', 'from_tag',
                 'desc', 'active', 'exclude_from_rendering', 'type_', 'version', 'tag')


def all_classes(animation=False):
    """every class of layer there is, but for Animation, which is of the whole document"""
    out, todo = [], [Layer]
    while todo:
        c = todo.pop(0)
        if c not in out:
            out.append(c)
            todo += c.__subclasses__()
    return [c for c in out if animation or not issubclass(c, sangfroid.animation.Animation)]


def find_in(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return None


def alike(names=LAYER_METHODS):
    """
    One class of layer for each set of methods: classes which inherit the
    same ones of these behave alike.
    """
    seen = {}
    for c in all_classes():
        k = tuple(id(find_in(c, n)) for n in names)
        seen.setdefault(k, c)
    return list(seen.values())


class Picture:
    """what some nodes look like, to be compared with what they look like later"""
    def __init__(self, cx, refs):
        self.cx = cx
        self.refs = list(refs)
        self.before = {r.id: self.take(r) for r in self.refs}

    def take(self, ref):
        rec = self.cx.rec(ref)
        return (rec.name, dict(rec.attrs), rec.known, rec._chunks, rec.parent, rec.text)

    def same(self, ref, kids=True):
        cx = self.cx
        a, b = self.before[ref.id], self.take(ref)
        if not (Q.same(a[0], b[0]) and a[2] == b[2] and set(a[1]) == set(b[1]) and all(Q.same(a[1][k], b[1][k]) for k in a[1])):
            return False
        if not Q.same(a[5], b[5]) or a[4] is not b[4] and a[4] != b[4]:
            return False
        if not kids:
            return True
        if a[3] is None or b[3] is None:
            return a[3] is b[3] or B.same_chunks(Q.norm(cx, b[3]), Q.norm(cx, B.pristine(cx, ref, cx.rec(ref))))
        return same_seq(cx, Q.norm(cx, a[3]), Q.norm(cx, b[3]))

    def all_same(self, what, but=()):
        for r in self.refs:
            self.cx.prove(self.same(r, r not in but), f'{what}: nothing else changes', repr(r))


def any_value_tag(cx, kind, base='value'):
    """the tag of any value of that type, animated (with any waypoints) or not"""
    if cx.choose(2, f'is the {base} animated?'):
        line = Line(cx, kind, False, False)
        return line.tag
    return value_tag(cx, kind, base)


def param_tag(cx, name, value, base='param'):
    """<param name="..."> holding one value, with any texts around it"""
    return B.node(cx, 'tag', 'param', {'name': name}, True, base=base, chunks=(texts(cx, base), Elem(value), texts(cx, base)))


def no_param(cx, seg, name):
    """none of these nodes is a parameter of that name (a term); every parameter has a name"""
    e = seg.src.e0
    Q.forall(cx, seg.src, e, z3.Implies(z3.And(B.ISTAG(e), B.NAME(e) == cx.lit('param')), z3.And(B.HAS('name')(e), B.ATTR('name')(e) != name)))


class ALayer:
    """
    A layer in some document: among anything else (other parameters, texts,
    whatever may be inside them, such as layers with parameters of the same
    name) it has the parameter of that name (a term), which holds the tag.
    """
    def __init__(self, cx, cls, name, value, base='layer', doc=True):
        self.cx, self.cls = cx, cls
        self.name = name if z3.is_expr(name) else cx.lit(name)
        sname = S.from_term(name) if z3.is_expr(name) else name
        self.value_tag = value
        self.param = param_tag(cx, sname, value, base + '_param') if value is not None else None
        self.before, self.after = B.some_nodes(cx, base + '_before'), B.some_nodes(cx, base + '_after')
        for s in (self.before, self.after):
            no_param(cx, s, self.name)
        mid = (Elem(self.param),) if value is not None else ()
        if doc:
            self.root, self.doc, self.fps = fps_ref(cx)
            above = B.Above('above', (self.root, self.doc))
        else:
            above = None
        self.tag = B.node(cx, 'tag', 'layer', base=base, chunks=(self.before,) + mid + (self.after,), parent=above)
        self.layer = call(cx, cls, self.tag)
        self.refs = [self.tag] + ([self.param, value] if value is not None else [])


def an_animation(cx, cls, soup, root):
    """an animation of that document"""
    made = sangfroid.animation.Animation()
    needs(cls, made, ['_filename', '_format', '_soup', '_tag'])
    return cx.new(InstRec(cls, {'_filename': None, '_format': made._format, '_soup': soup, '_tag': root}))
