from .ly import *
from sangfroid.animation import Animation

GOALS, goal = goals()
G = 'sangfroid.layer.group.Group.'
UNDER_CONTRACT = [G+x for x in ('canvas_tag', '_get_children', 'children', 'append', 'insert', '__getitem__')] + \
                 ['sangfroid.layer.layer.Layer.__len__', 'sangfroid.layer.layer.Layer.parent', 'sangfroid.layer.layer.Layer.__iter__',
                  'sangfroid.animation.Animation.canvas_tag']
METHODS = ('children', '_get_children', 'canvas_tag', 'append', 'insert', '__getitem__', '__len__', '__iter__', 'parent')


def group_classes():
    seen = {}
    for c in all_classes(animation=True):
        if issubclass(c, sl.Group):
            seen.setdefault(tuple(id(find_in(c, n)) for n in METHODS), c)
    return list(seen.values())


class AGroup:
    """
    A group, or a whole animation, with any layers in it and anything else
    among them, in any document.
    """
    def __init__(self, cx, cls, kids=None, base='group', doc=True):
        self.cx, self.cls = cx, cls
        cx.interp.contracts['sangfroid.layer.layer.Layer.from_tag'] = from_tag_contract
        self.kids = kids if kids is not None else (self.some(base + '_kids'),)
        if issubclass(cls, Animation):
            self.canvas = self.tag = B.node(cx, 'tag', 'canvas', base='root', chunks=self.kids)
            self.soup = B.node(cx, 'doc', '[document]', {}, True, base='doc', chunks=(Elem(self.tag),))
            self.layer = an_animation(cx, cls, self.soup, self.tag)
            self.refs = [self.canvas, self.soup]
        else:
            self.canvas = B.node(cx, 'tag', 'canvas', base=base + '_canvas', chunks=self.kids)
            a = ALayer(cx, cls, 'canvas', self.canvas, base, doc=False)
            self.param, self.tag, self.layer = a.param, a.tag, a.layer
            cx.rec(self.tag).parent = B.Above('above') if doc else None
            cx.rec(self.tag).attrs['type'] = 'group'
            self.refs = a.refs

    def some(self, name):
        """any number of nodes, of which some may be layers of any types"""
        seg = B.some_nodes(self.cx, name)
        layers_have_types(self.cx, seg)
        return seg


def from_tag_contract(cx, args, kw):
    """Layer.from_tag: by C14, a layer whose tag is this one"""
    cls, tag = args[0], args[1] if len(args) > 1 else kw['tag']
    return call(cx, Layer, tag)


def layers_have_types(cx, seg):
    e = seg.src.e0
    names = [B.ATTR('type')(e) == cx.lit(n) for n in list(Layer.handles_type.handlers)]
    Q.forall(cx, seg.src, e, z3.Implies(z3.And(B.ISTAG(e), B.NAME(e) == cx.lit('layer')), z3.And(B.HAS('type')(e), z3.Or(*names))))


def is_layer(cx, node):
    return B.tag_p(cx, node) and cx.branch(cx.interp.eq(B.name_of(cx, node), 'layer'))


def tag_of(cx, v):
    """the tag of a layer; or the tag, if it is one itself"""
    return v if isinstance(v, Ref) and isinstance(cx.rec(v), B.NodeRec) else attr(cx, v, 'tag')


def layer_of(cx, v, node, tags=False):
    """whether v is a layer made of that very node"""
    if tags and isinstance(v, Ref) and isinstance(cx.rec(v), B.NodeRec):
        return B.same_ref(cx, v, node)
    if not (isinstance(v, Ref) and isinstance(cx.rec(v), InstRec) and issubclass(cx.rec(v).cls, Layer)):
        return False
    return B.same_ref(cx, attr(cx, v, 'tag'), node)


def check_children(cx, canvas, got, what, ordered=True, tags=False):
    """obligation: the sequence is that of the layers directly within the canvas, from the last to the first"""
    got = list(Q.norm(cx, got))
    name = f'{what}: each direct sublayer once, in the reverse of document order'
    for c in reversed(Q.norm(cx, B.children(cx, canvas))):
        if isinstance(c, Elem):
            if is_layer(cx, c.v):
                k = 0
                if not ordered:
                    k = next((i for i, d in enumerate(got) if isinstance(d, Elem) and layer_of(cx, d.v, c.v, tags)), 0)
                else:
                    while got and isinstance(got[0], Seg) and not any(p.values for p in got[0].paths):
                        got.pop(0)
                ok = k < len(got) and isinstance(got[k], Elem) and layer_of(cx, got[k].v, c.v, tags)
                cx.prove(ok, name)
                if ok:
                    got.pop(k)
            continue
        if not isinstance(c, Seg):
            raise Unsupported('what is in the group')
        mine = None
        for k, d in enumerate(got):
            if isinstance(d, Seg) and d.src is c.src:
                mine = got.pop(k)
                cx.prove(not ordered or k == 0 or all(isinstance(x, Seg) and not any(p.values for p in x.paths) for x in got[:k]), name)
                break
        if mine is not None and ordered:
            cx.prove(mine.rev != c.rev, name)

        def one(e):
            nodes = Q.seg_elem(cx, c, e)
            vals = Q.seg_elem(cx, mine, e) if mine is not None else []
            want = [n.v for n in nodes if is_layer(cx, n.v)]
            ok = len(vals) == len(want) and all(isinstance(v, Elem) and layer_of(cx, v.v, n, tags) for v, n in zip(vals, reversed(want)))
            cx.prove(ok, name)
        Q.open_elem(cx, c.src, one)
    cx.prove(all(isinstance(c, Seg) and not any(p.values for p in c.paths) for c in got), f'{what}: nothing else', repr(got))


def list_of(cx, it):
    r = call(cx, list, it)
    return cx.rec(r).chunks() if isinstance(r, Ref) else tuple(Elem(x) for x in r)


def children_now(cx, g, what):
    how, r = run(cx, lambda: list_of(cx, attr(cx, g.layer, 'children')))
    cx.prove(how == 'ok', f'{what}: can be listed', r)
    if how == 'ok':
        check_children(cx, g.canvas, r, what)


def listing(cls):
    def g(cx):
        gr = AGroup(cx, cls)
        p = Picture(cx, gr.refs)
        children_now(cx, gr, "a group's children")
        how, r = run(cx, lambda: list_of(cx, gr.layer))
        cx.prove(how == 'ok', 'iterating over a group: can be listed', r)
        if how == 'ok':
            check_children(cx, gr.canvas, r, 'iterating over a group')
        p.all_same("listing a group's children")
        cx.cover('listed')
    return g


def length(cls):
    def g(cx):
        from vf.engine.interp import SLen
        gr = AGroup(cx, cls)
        p = Picture(cx, gr.refs)
        what = "a group's length"
        how, r = run(cx, lambda: call(cx, len, gr.layer))
        cx.prove(how == 'ok', f'{what}: can be found', r)
        if how != 'ok':
            return
        if not isinstance(r, SLen):
            raise Unsupported('some other way of counting')
        check_children(cx, gr.canvas, r.chunks, what, ordered=False, tags=True)
        p.all_same(what)
        cx.cover('length')
    return g


def subscript(cls):
    def g(cx):
        gr = AGroup(cx, cls)
        p = Picture(cx, gr.refs)
        i = SInt(cx.int('index'))
        what = 'subscripting a group by a number'
        how, r = run(cx, lambda: cx.interp.getitem(gr.layer, i))
        n = cx.memo.get('nth', [])
        if len(n) != 1:
            raise Unsupported('some other way of finding it')
        chunks, j, v = n[0]
        cx.prove(eq_num(i, j), f'{what}: by that number')
        check_children(cx, gr.canvas, chunks, what, tags=True)
        if how == 'raise':
            cx.prove(r is IndexError and v is None, f'{what}: IndexError exactly if there is no such child', r)
            cx.cover('no such child')
        else:
            cx.prove(v is not None and layer_of(cx, r, tag_of(cx, v)), f'{what}: that child')
            cx.cover('found')
        p.all_same(what)
    return g


def eq_num(a, b):
    return zreal(a) == zreal(b)


def apart(cx, tag, *segs):
    """no node is at two places: those in the segments are other nodes than this"""
    for seg in segs:
        e = seg.src.e0
        Q.forall(cx, seg.src, e, e != cx.rec(tag).ident)


def newcomer(cx, gr, allow_same=True):
    """
    A layer which is by itself, or in another group somewhere, or at some
    other place in the same one. (layer, its tag, what should be the same of others, function)
    """
    k = cx.choose(2, 'where is the layer which is added?')
    tag = B.node(cx, 'tag', 'layer', {'type': 'circle'}, base='newcomer')
    apart(cx, tag, *gr.kids)
    if k == 0:
        cx.rec(tag).parent = None
        return call(cx, Layer, tag), tag, lambda what: None
    left, right = gr.some('other_before'), gr.some('other_after')
    apart(cx, tag, left, right)
    canvas = B.node(cx, 'tag', 'canvas', base='other_canvas', chunks=(left, Elem(tag), right))
    other = ALayer(cx, sl.Group, 'canvas', canvas, 'other', doc=False)
    p = Picture(cx, other.refs)

    def check(what):
        p.all_same(what, but=[canvas])
        cx.prove(same_seq(cx, Q.norm(cx, B.children(cx, canvas)), Q.norm(cx, (left, right))), f'{what}: it has gone from where it was, and nothing else')
    return call(cx, Layer, tag), tag, check


def new_text(cx, c):
    """whether this chunk is a text which has been added"""
    if not isinstance(c, Elem):
        return False
    rec = cx.rec(c.v)
    return rec.kind == 'text' and rec.ident is None and isinstance(rec.text, str) and rec.text.strip() == ''


def placed(cx, gr, tag, what, before):
    """the chunks in the canvas before and after the layer, after checking nothing else changed"""
    ch = Q.norm(cx, B.children(cx, gr.canvas))
    at = [i for i, c in enumerate(ch) if isinstance(c, Elem) and B.same_ref(cx, c.v, tag)]
    cx.prove(len(at) == 1, f'{what}: the very layer given, once', len(at))
    if len(at) != 1:
        return None
    cx.prove(cx.rec(tag).parent == gr.canvas, f'{what}: the very layer given, once')
    left = [c for c in ch[:at[0]] if not new_text(cx, c)]
    right = [c for c in ch[at[0]+1:] if not new_text(cx, c)]
    cx.prove(same_seq(cx, left+right, Q.norm(cx, before)), f'{what}: everything else stays in place')
    how, r = run(cx, lambda: attr(cx, call(cx, Layer, tag), 'parent'))
    if isinstance(gr.layer, Ref) and not issubclass(gr.cls, Animation):
        cx.prove(how == 'ok' and isinstance(r, Ref) and layer_of(cx, r, gr.tag), f'{what}: the group is its parent', r)
    return left, right


def no_layers(cx, chunks, name):
    for c in chunks:
        if isinstance(c, Elem):
            cx.prove(not is_layer(cx, c.v), name)
        else:
            Q.each(cx, [c], lambda v: cx.prove(not is_layer(cx, v), name))


def append(cls):
    def g(cx):
        gr = AGroup(cx, cls)
        layer, tag, rest = newcomer(cx, gr)
        p = Picture(cx, gr.refs)
        t = Picture(cx, [tag])
        what = 'appending a layer'
        how, r = run(cx, lambda: call(cx, attr(cx, gr.layer, 'append'), layer))
        cx.prove(how == 'ok', f'{what}: accepted', r)
        if how != 'ok':
            return
        sides = placed(cx, gr, tag, what, gr.kids)
        p.all_same(what, but=[gr.canvas])
        rest(what)
        intact(cx, t, tag, what)
        if sides is not None:
            no_layers(cx, sides[0], f'{what}: it is the last child')
            children_now(cx, gr, f'{what}: the children afterwards')
        cx.cover('appended')
    return g


def intact(cx, picture, tag, what):
    a, b = picture.before[tag.id], picture.take(tag)
    cx.prove(a[:4] == b[:4] or Q.same(a[0], b[0]) and a[1] == b[1] and (a[3] is b[3]), f'{what}: the layer itself stays as it is')


def member(cx, cls):
    """
    A group, and a layer which is in it, among anything. There may
    be layers before and after it. (group, tag, left, right)
    """
    gr = AGroup(cx, cls, kids=())
    tag = B.node(cx, 'tag', 'layer', {'type': 'text'}, base='newcomer')
    left, right = gr.some('kids_left'), gr.some('kids_right')
    apart(cx, tag, left, right)
    kids = (left, Elem(tag), right)
    cx.rec(gr.canvas).set_chunks(kids)
    for k in kids:
        B.adopt(cx, gr.canvas, k)
    return gr, tag, left, right


def append_again(cls):
    """a layer which is in the group already, maybe as the last child"""
    def g(cx):
        gr, tag, left, right = member(cx, cls)
        p = Picture(cx, gr.refs)
        t = Picture(cx, [tag])
        what = 'appending a layer of the same group'
        how, r = run(cx, lambda: call(cx, attr(cx, gr.layer, 'append'), call(cx, Layer, tag)))
        cx.prove(how == 'ok', f'{what}: accepted', r)
        if how != 'ok':
            return
        sides = placed(cx, gr, tag, what, (left, right))
        p.all_same(what, but=[gr.canvas])
        intact(cx, t, tag, what)
        if sides is not None:
            no_layers(cx, sides[0], f'{what}: it is the last child')
            children_now(cx, gr, f'{what}: the children afterwards')
        cx.cover('appended')
    return g


def insert_again(cls):
    """
    A layer which is in the group already. It changes places with nothing: it comes to have
    the index given, the others staying in order.
    """
    def g(cx):
        gr, tag, left, right = member(cx, cls)
        p = Picture(cx, gr.refs)
        t = Picture(cx, [tag])
        i = SInt(cx.int('index'))
        what = 'inserting a layer of the same group'
        how, r = run(cx, lambda: call(cx, attr(cx, gr.layer, 'insert'), i, call(cx, Layer, tag)))
        n = cx.memo.get('nth', [])
        if len(n) != 1:
            raise Unsupported('some other way of finding the place')
        chunks, j, v = n[0]
        if v is None:
            return
        cx.prove(how == 'ok', f'{what}: accepted', r)
        if how != 'ok':
            return
        old = tag_of(cx, v)
        cx.prove(eq_num(i, j), f'{what}: by that number')
        scratch = B.new_tag(cx, 'canvas')
        was = Q.norm(cx, (left, Elem(tag), right))
        cx.rec(scratch).set_chunks(was)
        check_children(cx, scratch, chunks, f'{what}: counting', tags=True)
        sides = placed(cx, gr, tag, what, (left, right))
        p.all_same(what, but=[gr.canvas])
        intact(cx, t, tag, what)
        if sides is not None:
            # where the one which had the index was, in the document, compared with the layer
            where = [k for k, c in enumerate(was) if isinstance(c, Elem) and B.same_ref(cx, c.v, old)]
            mine = [k for k, c in enumerate(was) if isinstance(c, Elem) and B.same_ref(cx, c.v, tag)]
            if len(where) != 1 or len(mine) != 1:
                raise Unsupported('where it was')
            name = f'{what}: it is at that index'
            if where[0] == mine[0]:
                # it stays at the place it has
                a, b = Q.norm(cx, was[:mine[0]]), Q.norm(cx, was[mine[0]+1:])
                for got, want in ((sides[0], a), (sides[1], b)):
                    cx.prove(same_seq(cx, list(got), list(want)), name)
            else:
                # straight after (or before) it in the document
                later = where[0] < mine[0]
                side = list(reversed(sides[1])) if later else list(sides[0])
                between = []
                while side and not (isinstance(side[-1], Elem) and B.same_ref(cx, side[-1].v, old)):
                    between.append(side.pop())
                cx.prove(bool(side), name)
                no_layers(cx, between, name)
            children_now(cx, gr, f'{what}: the children afterwards')
        cx.cover('inserted')
    return g


def insert(cls):
    def g(cx):
        gr = AGroup(cx, cls)
        layer, tag, rest = newcomer(cx, gr)
        p = Picture(cx, gr.refs)
        t = Picture(cx, [tag])
        i = SInt(cx.int('index'))
        what = 'inserting a layer'
        how, r = run(cx, lambda: call(cx, attr(cx, gr.layer, 'insert'), i, layer))
        n = cx.memo.get('nth', [])
        if len(n) != 1:
            raise Unsupported('some other way of finding the place')
        chunks, j, v = n[0]
        if v is None:
            # not an existing index
            return
        cx.prove(how == 'ok', f'{what}: accepted', r)
        if how != 'ok':
            return
        old = tag_of(cx, v)
        cx.prove(eq_num(i, j), f'{what}: by that number')
        # the sequence it was counted in
        was = AGroup.__new__(AGroup)
        scratch = B.new_tag(cx, 'canvas')
        cx.rec(scratch).set_chunks(Q.norm(cx, gr.kids))
        check_children(cx, scratch, chunks, f'{what}: counting', tags=True)
        sides = placed(cx, gr, tag, what, gr.kids)
        p.all_same(what, but=[gr.canvas])
        rest(what)
        intact(cx, t, tag, what)
        if sides is not None:
            # straight after, in the document, the one which had that index
            left = list(sides[0])
            between = []
            while left and not (isinstance(left[-1], Elem) and B.same_ref(cx, left[-1].v, old)):
                between.append(left.pop())
            cx.prove(bool(left), f'{what}: it is at that index')
            no_layers(cx, between, f'{what}: it is at that index')
            children_now(cx, gr, f'{what}: the children afterwards')
        cx.cover('inserted')
    return g


for cls in group_classes():
    for title, f in (('the children of a {} are its direct sublayers, in the reverse of document order', listing),
                     ('the length of a {} is the number of its children', length),
                     ('subscripting a {} by any number picks from its children', subscript),
                     ('appending a layer to a {} makes it the last child', append),
                     ('appending a layer of a {} to it again makes it the last child', append_again),
                     ('inserting a layer at any existing index of a {} puts it there', insert),
                     ('inserting a layer of a {} at any existing index of it puts it there', insert_again)):
        g = f(cls)
        g.__name__ = f'{f.__name__}_{cls.__name__}'
        goal(title.format(cls.__name__))(g)


def leaf_classes():
    seen = {}
    for c in all_classes():
        if not issubclass(c, sl.Group):
            seen.setdefault(tuple(id(find_in(c, n)) for n in METHODS), c)
    return list(seen.values())


@goal('a layer which is not a group has no children, and nothing can be added to it')
def leaves(cx):
    cs = leaf_classes()
    cls = cs[cx.choose(len(cs), 'class')]
    tag = B.node(cx, 'tag', 'layer', base='layer', parent=B.Above('above'))
    layer = call(cx, cls, tag)
    p = Picture(cx, [tag])
    how, r = run(cx, lambda: list_of(cx, attr(cx, layer, 'children')))
    cx.prove(how == 'ok' and not r, 'layers other than groups: no children', r)
    how, r = run(cx, lambda: call(cx, len, layer))
    cx.prove(how == 'ok' and r == 0, 'layers other than groups: no children', r)
    p.all_same('layers other than groups')
    cx.cover('leaf')


@goal("a layer's parent is the layer it is in, at any depth")
def parents(cx):
    cx.interp.contracts['sangfroid.layer.layer.Layer.from_tag'] = from_tag_contract
    tag = B.node(cx, 'tag', 'layer', base='layer')
    inner = B.node(cx, 'tag', 'canvas', base='canvas', chunks=(B.some_nodes(cx, 'a'), Elem(tag), B.some_nodes(cx, 'b')))
    k = cx.choose(2, 'in a group?')
    if k:
        g = ALayer(cx, sl.Group, 'canvas', inner, 'group')
        want = g.tag
    else:
        doc = B.node(cx, 'doc', '[document]', {}, True, base='doc', chunks=(Elem(inner),))
        want = None
    how, r = run(cx, lambda: attr(cx, call(cx, Layer, tag), 'parent'))
    cx.prove(how == 'ok' and (r is None if want is None else layer_of(cx, r, want)), "a layer's parent", r)
    cx.cover('parent')
