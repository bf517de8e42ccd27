"""Abstract file system: a journalled map path -> abstract content, with an
ordered log of effects.  Nothing is read from or written to the real disk."""
import posixpath as P

from . import alg
from .pylib import deepcopy
from .values import *

DIR = '@dir'


class FS:
    def __init__(self, I, dirs=(), files=None, cwd='/cwd'):
        self.I = I
        self.cwd = cwd
        self.state = PyDict()
        self.log = PyList()
        for d in dirs:
            self._mkdirs(d)
        for f, c in (files or {}).items():
            self.state.set(self.norm(f), c)
        self.install()

    # ------------------------------------------------------------- paths
    def norm(self, p):
        p = self.I.simp(p)
        if not isinstance(p, str):
            raise Undecided(f'file path {p!r}'[:200])
        return P.normpath(p if p.startswith('/') else P.join(self.cwd, p))

    def _mkdirs(self, d):
        d = self.norm(d)
        while d not in ('', '/'):
            if not self.state.has(d):
                self.state.set(d, DIR)
            d = P.dirname(d)

    def look(self, p):
        v = self.state.get(p, None)
        if v is not None:
            v = self.I.simp(v)
            if isinstance(v, IteV) or v is ABSENT:
                if v is ABSENT:
                    return None
                raise Undecided(f'file {p} exists on some paths only')
        return v

    def isdir(self, p):
        p = self.norm(p)
        return p == '/' or self.look(p) == DIR if not isinstance(self.look(p), Obj) else False

    def isfile(self, p):
        v = self.look(self.norm(p))
        return v is not None and not (isinstance(v, str) and v == DIR)

    def exists(self, p):
        return self.isdir(p) or self.isfile(p)

    def files(self):
        return {k: self.look(k) for k in self.state.keys() if self.isfile(k)}

    def ops(self):
        return [] if self.log.items is None else [tuple(x) for x in self.log.items]

    def note(self, *op):
        self.log.touch()
        self.log.items.append(op)

    # ------------------------------------------------------------- effects
    def write(self, p, content, how='write'):
        p = self.norm(p)
        if not self.isdir(P.dirname(p)):
            raise AbsRaise('FileNotFoundError', p)
        self.note(how, p)
        self.state.set(p, content)

    def read(self, p):
        q = self.norm(p)
        if not self.isfile(q):
            raise AbsRaise('FileNotFoundError', q)
        return deepcopy(self.I, self.look(q), {})

    def remove(self, p):
        q = self.norm(p)
        if not self.isfile(q):
            raise AbsRaise('FileNotFoundError', q)
        self.note('remove', q)
        self.state.touch()
        self.state.d.pop(hkey(q))

    def rmtree(self, p):
        q = self.norm(p)
        if not self.isdir(q):
            raise AbsRaise('FileNotFoundError', q)
        self.note('rmtree', q)
        self.state.touch()
        for k in list(self.state.keys()):
            if k == q or k.startswith(q + '/'):
                self.state.d.pop(hkey(k))

    def mkdirs(self, p, exist_ok=False):
        q = self.norm(p)
        if self.exists(q):
            if exist_ok:
                return
            raise AbsRaise('FileExistsError', q)
        self.note('mkdir', q)
        self._mkdirs(q)

    def listdir(self, p):
        q = self.norm(p)
        if not self.isdir(q):
            raise AbsRaise('FileNotFoundError', q)
        n = len(q.rstrip('/')) + 1
        return sorted({k[n:].split('/')[0] for k in self.state.keys() if k.startswith(q.rstrip('/') + '/') and self.look(k) is not None})

    def walk(self, p):
        if not self.isdir(p):
            return []
        n = self.listdir(p)
        d = [x for x in n if self.isdir(P.join(p, x))]
        out = [(p, PyList(list(d)), PyList([x for x in n if x not in d]))]
        for x in d:
            out += self.walk(P.join(p, x))
        return out

    def copytree(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if not self.isdir(a):
            raise AbsRaise('FileNotFoundError', a)
        if self.exists(b):
            raise AbsRaise('FileExistsError', b)
        self.note('copytree', a, b)
        self._mkdirs(b)
        for k in list(self.state.keys()):
            if k.startswith(a + '/') and self.look(k) is not None:
                self.state.set(b + k[len(a):], deepcopy(self.I, self.look(k), {}))

    def copyfile(self, a, b):
        a = self.norm(a)
        c = self.read(a)
        b = self.norm(b)
        if self.isdir(b):
            b = P.join(b, P.basename(a))
        self.write(b, c, 'copy')
        return b

    # ------------------------------------------------------------- file objects
    def open(self, p, mode='r'):
        I = self.I
        q = self.norm(p)
        c = ClassV('File', None, [], {}, None)
        h = Instance(c, {'@fake': True, '@path': q, '@mode': mode})
        if 'r' in mode:
            if not self.isfile(q):
                raise AbsRaise('FileNotFoundError', q)
        elif 'a' in mode:
            if not self.isfile(q):
                self.write(q, '')
        else:
            self.write(q, '', 'open')

        def add(s):
            cur = self.look(q)
            s = I.simp(s)
            self.note('append', q)
            if isinstance(cur, str) and isinstance(s, str):
                self.state.set(q, cur + s)
            else:
                self.state.set(q, Opaque('text', (cur, s), 'str'))

        def text():
            v = self.look(q)
            if not isinstance(v, str):
                raise Undecided('file text')
            return v
        m = {'write': lambda I, a, k: add(a[0]),
             'writelines': lambda I, a, k: [add(x) for x in I.iterate(a[0])] and None,
             'read': lambda I, a, k: text(),
             'readlines': lambda I, a, k: PyList(text().splitlines(True)),
             'close': lambda I, a, k: None, 'flush': lambda I, a, k: None,
             'truncate': lambda I, a, k: None, 'seek': lambda I, a, k: None}
        for k, f in m.items():
            h.attrs[k] = Native(f, k)
        c.ns['__iter__'] = Native(lambda I, a, k: PyList(text().splitlines(True)), '__iter__')
        return h

    def target(self, f):
        """Path of a file argument (path or handle)."""
        f = self.I.simp(f)
        if isinstance(f, Instance) and '@path' in f.attrs:
            return f.attrs['@path']
        return f

    def handle(self, f, path=False):
        """Path of an open file (or a path, if admitted)."""
        t = self.target(f)
        if isinstance(t, str) and (path or not isinstance(self.I.simp(f), str)):
            return t
        if isinstance(t, (str, int, tuple, PyDict, PyList)) or t is None or isinstance(t, Instance) and path:
            raise AbsRaise('TypeError', 'not a file')
        return t

    def install(self):
        I, st = self.I, self.I.stubs
        A = lambda a, k, i, n, d=None: a[i] if len(a) > i else k.get(n, d)
        st['fs'] = lambda I, kind, a: getattr(self, kind)(I.simp(a[0]))
        L = {
            'builtins.open': lambda I, a, k: self.open(a[0], A(a, k, 1, 'mode', 'r')),
            'os.remove': lambda I, a, k: self.remove(a[0]),
            'os.unlink': lambda I, a, k: self.remove(a[0]),
            'os.listdir': lambda I, a, k: PyList(self.listdir(a[0] if a else self.cwd)),
            'os.makedirs': lambda I, a, k: self.mkdirs(a[0], A(a, k, 2, 'exist_ok', False)),
            'os.mkdir': lambda I, a, k: self.mkdirs(a[0]),
            'os.walk': lambda I, a, k: PyList(self.walk(a[0])),
            'os.getcwd': lambda I, a, k: self.cwd,
            'os.path.abspath': lambda I, a, k: self.norm(a[0]),
            'os.path.realpath': lambda I, a, k: self.norm(a[0]),
            'os.replace': lambda I, a, k: self.move(a[0], a[1]),
            'os.rename': lambda I, a, k: self.move(a[0], a[1]),
            'shutil.move': lambda I, a, k: self.move(a[0], a[1]),
            'shutil.rmtree': lambda I, a, k: self.rmtree(a[0]),
            'shutil.copytree': lambda I, a, k: self.copytree(a[0], a[1]),
            'shutil.copy': lambda I, a, k: self.copyfile(a[0], a[1]),
            'shutil.copyfile': lambda I, a, k: self.copyfile(a[0], a[1]),
            'pickle.dump': lambda I, a, k: self.write(self.handle(A(a, k, 1, 'file')), deepcopy(I, A(a, k, 0, 'obj'), {}), 'save'),
            'pickle.load': lambda I, a, k: self.read(self.handle(A(a, k, 0, 'file'))),
            'torch.save': lambda I, a, k: self.write(self.handle(A(a, k, 1, 'f'), True), deepcopy(I, A(a, k, 0, 'obj'), {}), 'save'),
            'torch.load': lambda I, a, k: self.read(self.handle(A(a, k, 0, 'f'), True)),
        }
        for n, f in L.items():
            st['lib:' + n] = f

    def move(self, a, b):
        c = self.read(a)
        self.write(b, c, 'move')
        self.state.touch()
        self.state.d.pop(hkey(self.norm(a)))
