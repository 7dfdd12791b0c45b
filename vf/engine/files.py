"""
Files, as far as saving and loading need them: a model of open() and
gzip.open(), of bytes, and of os.path.splitext().

cx.memo['fs'] is the file system: what each name holds, and a log of every
time a file was opened for writing. Contents are

    Bytes('enc', codec, text)      a text, encoded
    Bytes('gzip', contents)        the same, compressed
    Bytes('any', term)             what was in a file, of which nothing is known
    Bytes('gunzip', contents)      what is in a compressed file

Goals rely on this and don't touch the disk.
"""
import builtins
import codecs
import gzip
import io
import os.path
import z3
from .core import *
from . import strings as S
from . import models as M
from .interp import Opaque


class Bytes(Opaque):
    def __init__(self, kind, *parts):
        super().__init__(bytes, f'{kind}{parts!r}')
        self.kind = kind
        self.parts = parts

    def same(self, other):
        return isinstance(other, Bytes) and self.kind == other.kind and len(self.parts) == len(other.parts) and all(
            a.same(b) if isinstance(a, Bytes) else a.key() == b.key() if isinstance(a, SStr) and isinstance(b, SStr)
            else a.eq(b) if z3.is_expr(a) and z3.is_expr(b) else type(a) is type(b) and a == b
            for a, b in zip(self.parts, other.parts))

    def eq(self, cx, a, b):
        other = b if a is self else a
        if isinstance(other, bytes):
            if self.kind == 'first2':
                return self.starts(cx, other)
            raise Unsupported('comparing bytes')
        if isinstance(other, Bytes) and self.same(other):
            return True
        if isinstance(other, Bytes):
            raise Unsupported('comparing bytes')
        return False

    def starts(self, cx, k):
        """whether the first two bytes of the contents are those"""
        c = self.parts[0]
        if c.kind == 'enc':
            # str() of a document starts with the declaration
            return k == b'<?'
        if c.kind == 'gzip':
            return k == gzip.compress(b'')[:2]
        if c.kind == 'empty':
            return k == b''
        return mkbool(c.parts[0] == cx.lit('first two bytes: ' + k.decode('latin-1')))

    def truth(self, cx):
        if self.kind == 'first2':
            c = self.parts[0]
            if c.kind in ('enc', 'gzip'):
                return True
            if c.kind == 'any':
                return not cx.branch(self.starts(cx, b''))
        raise Unsupported('whether there are any bytes')

    def getattr(self, cx, name):
        if name == 'decode':
            def decode(cx, args, kw):
                enc = args[0] if args else kw.get('encoding', 'utf-8')
                if self.kind == 'enc' and codecs.lookup(enc).name == self.parts[0]:
                    return self.parts[1]
                raise Unsupported('decoding bytes')
            return PyModel('bytes.decode', decode)
        raise Unsupported(f'bytes.{name}')


def fs(cx):
    return cx.memo.setdefault('fs', FS())


class FS:
    def __init__(self):
        self.files = []        # (name, contents), the latest last
        self.log = []          # (name, how) of each time one was opened for writing

    def find(self, cx, name):
        for n, c in reversed(self.files):
            if same_name(n, name):
                return c
        raise Unsupported('opening a file of which nothing is known')

    def put(self, name, contents):
        self.files = [(n, c) for n, c in self.files if not same_name(n, name)] + [(name, contents)]


def same_name(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.key() == b.key()
    return False


class File(Opaque):
    def __init__(self, name, mode, compressed, encoding, inner=None):
        super().__init__(object, f'file {name!r}')
        self.fname, self.mode, self.compressed, self.encoding = name, mode, compressed, encoding
        self.pos = 0
        self.closed = False
        self.written = ()
        self.inner = inner

    def contents(self, cx):
        c = fs(cx).find(cx, self.fname) if self.inner is None else self.inner.contents(cx)
        if self.compressed:
            return c.parts[0] if c.kind == 'gzip' else Bytes('gunzip', c)
        return c

    def rest(self, cx):
        """what's left to be read"""
        if self.mode != 'r':
            raise Unsupported('reading a file open for writing')
        if self.pos:
            raise Unsupported('the rest of a file')
        c = self.contents(cx)
        if self.encoding is not None:
            # as text
            if c.kind == 'enc' and c.parts[0] == self.encoding:
                return c.parts[1]
            return S.from_term(z3.Function(f'decoded as {self.encoding}', Str, Str)(cx.str('contents')))
        return c

    def getattr(self, cx, name):
        f = {'read': self.read, 'write': self.write, 'close': self.close, 'flush': self.flush, 'seek': self.seek}.get(name)
        if f is None:
            raise Unsupported(f'files: {name}')
        return PyModel('file.' + name, f)

    def read(self, cx, args, kw):
        n = args[0] if args else kw.get('size', -1)
        if n is None or n == -1:
            return self.rest(cx)
        if n == 2 and self.encoding is None:
            c = self.rest(cx)
            self.pos = 2
            return Bytes('first2', c)
        raise Unsupported('reading part of a file')

    def seek(self, cx, args, kw):
        if list(args) != [0] or kw or self.mode != 'r':
            raise Unsupported('seek')
        self.pos = 0
        return 0

    def write(self, cx, args, kw):
        (x,) = args
        if self.mode != 'w' or self.closed:
            raise PyRaise(ValueError, ('not open for writing',))
        if self.encoding is not None:
            if not S.is_str(x):
                raise PyRaise(TypeError, ('write() argument must be str',))
            can_encode(cx)
            x = Bytes('enc', self.encoding, x)
        elif S.is_str(x):
            raise PyRaise(TypeError, ('a bytes-like object is required',))
        if isinstance(x, bytes):
            x = Bytes('enc', 'utf-8', x.decode('utf-8'))
        if not isinstance(x, Bytes):
            raise Unsupported('writing something else')
        if x.kind == 'enc' and self.written and self.written[-1].kind == 'enc' and self.written[-1].parts[0] == x.parts[0]:
            last = self.written[-1]
            self.written = self.written[:-1] + (Bytes('enc', x.parts[0], S.concat(last.parts[1], x.parts[1])),)
        else:
            self.written += (x,)
        self.store(cx)
        return Opaque(int, 'how much was written')

    def store(self, cx):
        if len(self.written) > 1:
            c = Bytes('several', *self.written)
        else:
            c = self.written[0] if self.written else Bytes('empty')
        if self.compressed:
            c = Bytes('gzip', c)
        if self.inner is not None:
            self.inner.written = (c,)
            self.inner.store(cx)
        else:
            fs(cx).put(self.fname, c)

    def close(self, cx, args, kw):
        self.closed = True

    def flush(self, cx, args, kw):
        pass

    def enter(self, cx):
        return self

    def exit(self, cx, exc):
        self.closed = True
        return False


def opened(cx, name, mode, compressed, encoding, newline=None):
    if not S.is_str(name):
        raise Unsupported('opening something which is not a name')
    kind = mode.replace('b', '').replace('t', '')
    text = 'b' not in mode if not compressed else 't' in mode
    if kind not in ('r', 'w') or newline not in (None, '', '\n'):
        raise Unsupported(f'opening a file with mode {mode!r}')
    if text:
        encoding = codecs.lookup(encoding).name if encoding is not None else 'the encoding of the locale'
    else:
        encoding = None
    f = File(name, kind, compressed, encoding)
    if kind == 'w':
        if cx.memo.get('unwritable'):
            # a goal says that no file can be opened for writing at present
            raise PyRaise(OSError, (name,))
        fs(cx).log.append((name, 'gzip' if compressed else 'plain'))
        f.store(cx)
    else:
        fs(cx).find(cx, name)
    return f


@M.model(open, io.open)
def open_(cx, args, kw):
    kw = dict(kw)
    names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline']
    kw.update(zip(names, args))
    return opened(cx, kw['file'], kw.get('mode', 'r'), False, kw.get('encoding'), kw.get('newline'))


@M.model(gzip.open)
def gzip_open(cx, args, kw):
    kw = dict(kw)
    names = ['filename', 'mode', 'compresslevel', 'encoding', 'errors', 'newline']
    kw.update(zip(names, args))
    return opened(cx, kw['filename'], kw.get('mode', 'rb'), True, kw.get('encoding'), kw.get('newline'))


@M.model(gzip.GzipFile)
def gzip_file(cx, args, kw):
    kw = dict(kw)
    names = ['filename', 'mode', 'compresslevel', 'fileobj', 'mtime']
    kw.update(zip(names, args))
    inner = kw.get('fileobj')
    if inner is None:
        return opened(cx, kw['filename'], (kw.get('mode') or 'rb').rstrip('b') + 'b', True, None)
    if not isinstance(inner, File) or inner.compressed or inner.encoding is not None:
        raise Unsupported('GzipFile')
    mode = (kw.get('mode') or inner.mode).replace('b', '')
    f = File(inner.fname, mode, True, None, inner)
    if mode == 'w':
        f.store(cx)
    return f


@M.model(gzip.compress)
def gzip_compress(cx, args, kw):
    x = args[0]
    if isinstance(x, Bytes):
        return Bytes('gzip', x)
    raise Unsupported('gzip.compress')


@M.model(gzip.decompress)
def gzip_decompress(cx, args, kw):
    x = args[0]
    if isinstance(x, Bytes):
        return x.parts[0] if x.kind == 'gzip' else Bytes('gunzip', x)
    raise Unsupported('gzip.decompress')


@M.model(os.path.splitext)
def splitext(cx, args, kw):
    (x,) = args
    if isinstance(x, str):
        return os.path.splitext(x)
    p = S.parts_of(x)
    known = cx.memo.get('extensions', {})
    if isinstance(p[-1], StrAtom) and p[-1].z.get_id() in known and len(p) >= 2 and isinstance(p[-2], str) and p[-2].endswith('.'):
        stem = mkstr([*p[:-2], p[-2][:-1]])
        return stem, mkstr(['.', p[-1]])
    if len(p) == 1 and isinstance(p[0], StrAtom) and p[0].z.get_id() in cx.memo.get('no extension', {}):
        return x, ''
    raise Unsupported(f'splitext of {x!r}')


def extension(cx, t):
    """a goal says of this text (a term) that it's an extension: not empty, and without dots or separators"""
    cx.memo.setdefault('extensions', {})[t.get_id()] = t
    S.lacking(cx, t, './\0')


def no_extension(cx, t):
    cx.memo.setdefault('no extension', {})[t.get_id()] = t


def can_encode(cx):
    if cx.memo.get('unencodable'):
        raise PyRaise(UnicodeEncodeError, ('surrogates not allowed',))


def encode(cx, v, encoding='utf-8', errors='strict'):
    """str.encode(). A goal may say that there are lone surrogates in the text"""
    if errors == 'strict':
        can_encode(cx)
    return Bytes('enc', codecs.lookup(encoding).name, v)
