"""Abstract interpreter over the Python AST of the analysed package.

Control flow is analysed structurally (no path enumeration): both sides of an
undecided branch are analysed and joined with gated values, loops are
summarised, calls are resolved through the class hierarchy and analysed in the
calling context.  Array values carry a symbolic shape and an element-wise term.
"""
import ast
import os
from . import terms as T
from .terms import P, ZERO, ONE, ix, fresh


class Unsupported(Exception):
    pass


class AnalysisBroken(Exception):
    """an anchor of the analysis is missing"""


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


class Num(V):
    __slots__ = ('p', 'ty')

    def __init__(self, p, ty='float'):
        self.p, self.ty = P(p), ty

    def __repr__(self):
        return f'Num({self.p},{self.ty})'


class Str(V):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f'Str({self.s!r})'


class _One(V):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NONE = _One('None')
ELL = _One('Ellipsis')
UNDEF = _One('<undefined>')
NOTIMPL = _One('NotImplemented')


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f'Tup{self.items}'


class Ref(V):
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return type(o) is type(self) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return f'{type(self).__name__}#{self.id}'


class Lst(Ref):
    __slots__ = ()


class Dct(Ref):
    __slots__ = ()


class Obj(Ref):
    __slots__ = ()


class Arr(Ref):
    __slots__ = ()


class Fun(V):
    def __init__(self, node, env, mod, name, defaults, kwdefaults, cls=None):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls

    def __repr__(self):
        return f'Fun({self.name})'


class Bound(V):
    def __init__(self, selfv, fun):
        self.selfv, self.fun = selfv, fun

    def __repr__(self):
        return f'Bound({self.selfv},{self.fun})'


class Wrap(V):
    """staticmethod / classmethod / property"""

    def __init__(self, kind, fun):
        self.kind, self.fun = kind, fun


class Cls(V):
    def __init__(self, name, bases, mod, node=None):
        self.name, self.bases, self.mod, self.node = name, bases, mod, node
        self.attrs = {}
        self.mro = None

    def __repr__(self):
        return f'Cls({self.name})'

    def compute_mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, Cls)] + [[b for b in self.bases if isinstance(b, Cls)]]
        res = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('mro')
            res.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        self.mro = res

    def find(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None


class Mod(V):
    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return f'Mod({self.name})'


class Ext(V):
    """external module / function / class by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f'Ext({self.name})'


class ExtObj(V):
    """instance of an external class (random generator, axes, ...)"""

    def __init__(self, kind, **data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return f'ExtObj({self.kind})'


class Py(V):
    """python-implemented callable model: fn(interp, args, kwargs)"""

    def __init__(self, fn, name='<py>', **data):
        self.fn, self.name, self.data = fn, name, data

    def __repr__(self):
        return f'Py({self.name})'


class SliceV(V):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class RangeV(V):
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class SymSeq(V):
    """sequence of symbolic length n whose j-th element is elem (in loop var j)"""

    def __init__(self, n, j, elem):
        self.n, self.j, self.elem = n, j, elem


class Phi(V):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'Phi({self.c},{self.a},{self.b})'


class TopV(V):
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return f'Top({self.why})'


# ------------------------------------------------------------------ records
class ObjRec:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class ListRec:
    __slots__ = ('items', 'sym')

    def __init__(self, items, sym=None):
        self.items = tuple(items)
        self.sym = sym          # SymSeq-like list contents (list of symbolic length)


class DictRec:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class EnvRec:
    __slots__ = ('vars', 'parent')

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent


class BufRec:
    __slots__ = ('shape', 'term', 'dtype', 'base', 'alias', 'why')

    def __init__(self, shape, term, dtype='f', base=None, alias=(), why=''):
        self.shape, self.term, self.dtype, self.base = shape, term, dtype, base
        self.alias = alias
        self.why = why


class Leaf:
    __slots__ = ('kind', 'val', 'heap')

    def __init__(self, kind, val, heap):
        self.kind, self.val, self.heap = kind, val, heap


class Br:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Event:
    __slots__ = ('kind', 'data', 'guard', 'site', 'stack')

    def __init__(self, kind, data, guard, site, stack):
        self.kind, self.data, self.guard, self.site, self.stack = kind, data, guard, site, stack

    def __repr__(self):
        return f'<{self.kind} {self.data} @{self.site}>'


def vnum(v):
    return isinstance(v, Num)


BUILTIN_TYPES = ('int', 'float', 'str', 'bool', 'tuple', 'list', 'dict', 'object', 'set', 'type', 'complex', 'slice', 'range')


class Interp:
    MAXUNROLL = 200
    MAXDEPTH = 60

    def __init__(self, root='/repo', pkg='cbx'):
        self.root, self.pkg = root, pkg
        self.heap = {}
        self.nid = 0
        self.modules = {}
        self.events = []
        self.guard = ONE
        self.stack = []
        self.lines = []
        self.undecided = {}      # reason -> count
        self.policy = None       # ([choices], [conditions of the path taken])
        self.findings = []       # (rule, site, text)
        self.unmodelled = {}
        self.analysed = set()    # function qualnames analysed
        self.rngcount = 0
        self.ncore = 1
        self.quiet = 0
        self.sources = {}
        from . import nplib
        self.lib = nplib.Lib(self)

    # -------------------------------------------------------------- util
    def new_id(self):
        self.nid += 1
        return self.nid

    def alloc(self, rec):
        i = self.new_id()
        self.heap[i] = rec
        return i

    def site(self):
        q = self.stack[-1] if self.stack else '<top>'
        ln = self.lines[-1] if self.lines else 0
        return (q, ln)

    def note(self, why):
        self.undecided[why] = self.undecided.get(why, 0) + 1

    def top(self, why):
        self.note(why + ' @' + '%s:%s' % self.site())
        return TopV(why)

    def finding(self, rule, text):
        self.findings.append((rule, self.site(), text, self.guard))

    def event(self, kind, **data):
        self.events.append(Event(kind, data, self.guard, self.site(), tuple(self.stack)))

    def mklist(self, items, sym=None):
        return Lst(self.alloc(ListRec(items, sym)))

    def mkdict(self, d):
        return Dct(self.alloc(DictRec(d)))

    # keys for dict
    def key(self, v):
        if isinstance(v, Str):
            return ('s', v.s)
        if isinstance(v, Num):
            if T.is_const(v.p):
                return ('n', T.cval(v.p))
            return ('n', v.p)
        if v is NONE:
            return ('none',)
        if isinstance(v, Tup):
            return ('t', tuple(self.key(x) for x in v.items))
        if isinstance(v, Cls):
            return ('c', v)
        if isinstance(v, Ref):
            return ('r', v)
        if isinstance(v, Ext):
            return ('e', v.name)
        raise Unsupported('dict key')

    def unkey(self, k):
        if k[0] == 's':
            return Str(k[1])
        if k[0] == 'n':
            return Num(k[1], 'int')
        if k[0] == 'none':
            return NONE
        if k[0] == 't':
            return Tup([self.unkey(x) for x in k[1]])
        if k[0] in ('c', 'r'):
            return k[1]
        if k[0] == 'e':
            return Ext(k[1])
        raise Unsupported('unkey')

    # -------------------------------------------------------------- modules
    def module_path(self, name):
        if name == 'userdyn':
            return os.path.join(os.path.dirname(os.path.abspath(__file__)), 'userdyn.txt'), False
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, None

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.module_path(name)
        if path is None:
            raise AnalysisBroken('module %s not found' % name)
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        self.sources[name] = (path, tree)
        env = self.alloc(EnvRec({'__name__': Str(name)}, None))
        m = Mod(name, env)
        m.ispkg = ispkg
        self.modules[name] = m
        sv = (self.stack, self.lines, self.guard)
        self.stack, self.lines, self.guard = [name], [0], ONE
        try:
            # parent package first
            if '.' in name:
                self.load_module(name.rsplit('.', 1)[0])
            fr = Frame(self, env, m, None, name)
            self.exec_block_module(tree.body, fr)
        finally:
            self.stack, self.lines, self.guard = sv
        return m

    def exec_block_module(self, body, fr):
        for st in body:
            try:
                out = fr.exec_stmts([st])
                leaf = fr.collapse_all(out)
                if leaf.kind != 'raise':
                    self.heap = leaf.heap
            except Unsupported as e:
                self.note('module-level %s: %s' % (fr.qual, e))

    def mod_get(self, m, name):
        v = self.heap[m.env].vars.get(name)
        if v is not None:
            return v
        sub = m.name + '.' + name
        p, _ = self.module_path(sub)
        if p:
            return self.load_module(sub)
        return None

    def import_mod(self, name):
        if name == self.pkg or name.startswith(self.pkg + '.'):
            return self.load_module(name)
        return Ext(name)

    def lookup(self, qual):
        """'cbx.dynamics.pdyn:CBXDynamic.step' -> value"""
        mod, _, rest = qual.partition(':')
        m = self.load_module(mod)
        v = m
        for part in rest.split('.') if rest else []:
            if isinstance(v, Mod):
                v2 = self.mod_get(v, part)
            elif isinstance(v, Cls):
                v2 = v.find(part)[0]
            else:
                v2 = None
            if v2 is None:
                raise AnalysisBroken('anchor %s not found' % qual)
            v = v2
        return v

    # -------------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            return self.call(f.fun, (f.selfv,) + tuple(args), kwargs)
        if isinstance(f, Fun):
            return self.call_fun(f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Py):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Ext):
            return self.lib.call(f.name, list(args), kwargs)
        if isinstance(f, Wrap):
            return self.call(f.fun, args, kwargs)
        if isinstance(f, Obj):
            c = self.heap[f.id].cls
            m, _ = c.find('__call__')
            if m is not None:
                return self.call(m, (f,) + tuple(args), kwargs)
            return self.top('call of non-callable object %s' % c.name)
        if isinstance(f, ExtObj):
            return self.lib.call_extobj(f, list(args), kwargs)
        if isinstance(f, Phi):
            return self.branch_values(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, (Num, Str, Tup, Lst, Dct, Arr)) or f is NONE:
            raise Raised('TypeError', '%s is called' % type(f).__name__)
        return self.top('call of unknown value')

    def branch_values(self, c, fa, fb):
        h0, g0 = self.heap, self.guard
        self.heap = dict(h0)
        self.guard = T.mul(g0, c)
        va = fa()
        ha = self.heap
        self.heap = dict(h0)
        self.guard = T.mul(g0, T.not_(c))
        vb = fb()
        hb = self.heap
        self.guard = g0
        self.heap = self.merge_heaps(c, ha, hb)
        return self.merge(c, va, vb)

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kwargs)
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(names):])
            else:
                raise Raised('TypeError', 'too many arguments for ' + f.name)
        elif a.vararg:
            env[a.vararg.arg] = Tup(())
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in kw:
                if n in env:
                    raise Raised('TypeError', 'multiple values for ' + n)
                env[n] = kw.pop(n)
            elif n not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    env[n] = f.defaults[j]
                else:
                    raise Raised('TypeError', 'missing argument %s of %s' % (n, f.name))
        for x, dflt in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif dflt is not None:
                env[x.arg] = dflt
            else:
                raise Raised('TypeError', 'missing kw argument')
        if a.kwarg:
            env[a.kwarg.arg] = self.mkdict({('s', k): v for k, v in kw.items()})
        elif kw:
            raise Raised('TypeError', 'unexpected keyword %s of %s' % (sorted(kw), f.name))
        return env

    def call_fun(self, f, args, kwargs):
        if len(self.stack) > self.MAXDEPTH:
            return self.top('call depth')
        qual = f.mod.name + ':' + f.name
        env = self.bind_args(f, args, kwargs)
        eid = self.alloc(EnvRec(env, f.env))
        self.stack.append(qual)
        self.lines.append(getattr(f.node, 'lineno', 0))
        self.analysed.add(qual)
        self.event('enter', fun=qual, cls=f.cls.name if f.cls else None)
        try:
            fr = Frame(self, eid, f.mod, f, qual)
            if isinstance(f.node, ast.Lambda):
                return fr.ev(f.node.body)
            out = fr.exec_stmts(f.node.body)
            leaf = fr.collapse_all(out)
            if leaf.kind == 'raise':
                raise Raised(*(leaf.val or ('Exception', '')))
            self.heap = leaf.heap
            return leaf.val if leaf.kind == 'return' and leaf.val is not None else NONE
        finally:
            self.stack.pop()
            self.lines.pop()

    def instantiate(self, c, args, kwargs):
        if getattr(c, 'ext', None):
            return self.top('external class')
        o = Obj(self.alloc(ObjRec(c, {})))
        init, _ = c.find('__init__')
        if init is not None:
            self.call(init, (o,) + tuple(args), kwargs)
        return o

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name, default=None):
        if isinstance(o, Obj):
            rec = self.heap[o.id]
            if name in rec.attrs:
                v = rec.attrs[name]
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    return v.b if v.a is UNDEF else v.a
                if v is not UNDEF:
                    return v
            v, c = rec.cls.find(name)
            if v is not None:
                return self.bindto(o, v, rec.cls)
            if name == '__class__':
                return rec.cls
            if name == '__dict__':
                return self.top('__dict__')
            if default is not None:
                return default
            raise Raised('AttributeError', '%s has no attribute %s' % (rec.cls.name, name))
        if isinstance(o, Cls):
            v, c = o.find(name)
            if v is not None:
                if isinstance(v, Wrap) and v.kind == 'static':
                    return v.fun
                if isinstance(v, Wrap) and v.kind == 'class':
                    return Bound(o, v.fun)
                return v
            if name in ('__name__', '__qualname__'):
                return Str(o.name)
            if name == '__bases__':
                return Tup(o.bases)
            if name == '__init__':
                return Py(lambda I, a, k: NONE, 'object.__init__')
            if default is not None:
                return default
            raise Raised('AttributeError', name)
        if isinstance(o, Mod):
            v = self.mod_get(o, name)
            if v is None:
                if default is not None:
                    return default
                raise Raised('AttributeError', name)
            return v
        if isinstance(o, Fun):
            if name in ('__name__', '__qualname__'):
                return Str(o.name)
            if name == '__doc__':
                return NONE
            if default is not None:
                return default
            return self.top('function attribute')
        if isinstance(o, Phi):
            if o.a is UNDEF or o.a is NONE:
                return self.getattr(o.b, name, default)
            if o.b is UNDEF or o.b is NONE:
                return self.getattr(o.a, name, default)
            return self.merge(o.c, self.getattr(o.a, name, default), self.getattr(o.b, name, default))
        return self.lib.getattr(o, name, default)

    def bindto(self, o, v, cls):
        if isinstance(v, Fun):
            return Bound(o, v)
        if isinstance(v, Py):
            return Bound(o, v)
        if isinstance(v, Wrap):
            if v.kind == 'static':
                return v.fun
            if v.kind == 'class':
                return Bound(cls, v.fun)
            if v.kind == 'property':
                return self.call(v.fun, (o,))
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            rec = self.heap[o.id]
            p, _ = rec.cls.find(name)
            if isinstance(p, Wrap) and p.kind == 'property':
                if getattr(p, 'setter', None) is not None:
                    self.call(p.setter, (o, v))
                    return
            a = dict(rec.attrs)
            a[name] = v
            self.heap[o.id] = ObjRec(rec.cls, a)
            self.event('setattr', obj=o, name=name)
        elif isinstance(o, Cls):
            o.attrs[name] = v
            self.event('setclsattr', cls=o.name, name=name)
        elif isinstance(o, Mod):
            r = self.heap[o.env]
            vs = dict(r.vars)
            vs[name] = v
            self.heap[o.env] = EnvRec(vs, r.parent)
        elif isinstance(o, TopV):
            self.note('setattr on unknown')
        else:
            self.note('setattr on %s' % type(o).__name__)

    def hasattr(self, o, name):
        if isinstance(o, Obj):
            rec = self.heap[o.id]
            v = rec.attrs.get(name)
            if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                return v.c if v.b is UNDEF else T.not_(v.c)
            if v is not None and v is not UNDEF:
                return ONE
            return ONE if rec.cls.find(name)[0] is not None else ZERO
        if isinstance(o, (Cls,)):
            return ONE if o.find(name)[0] is not None else ZERO
        if isinstance(o, Dct):
            return ONE if name in ('keys', 'items', 'values', 'get', 'update', 'pop', '__getitem__', '__len__') else ZERO
        if isinstance(o, Str):
            return ONE if hasattr(str, name) else ZERO
        if isinstance(o, Lst):
            return ONE if hasattr(list, name) else ZERO
        if isinstance(o, Tup):
            return ONE if hasattr(tuple, name) else ZERO
        if isinstance(o, (Fun, Py, Bound)):
            return ONE if name in ('__call__', '__name__') else ZERO
        if isinstance(o, (Num,)):
            return ONE if name in ('__add__',) else ZERO
        if o is NONE:
            return ZERO
        if isinstance(o, Phi):
            return T.add(T.mul(o.c, self.hasattr(o.a, name)), T.mul(T.not_(o.c), self.hasattr(o.b, name)))
        return None

    # -------------------------------------------------------------- arrays
    def arr(self, shape, term, dtype='f', base=None, alias=(), why=''):
        if term is not None and dtype != 'i' and base is None:
            term = T.let(term)
        return Arr(self.alloc(BufRec(tuple(shape), term, dtype, base, alias, why)))

    def rec(self, a):
        return self.heap[a.id]

    def shape(self, a):
        return self.heap[a.id].shape

    def read(self, a):
        """element-wise term of the array (None if unknown)"""
        r = self.heap[a.id]
        if r.base is not None:
            b, m, kind = r.base
            t = self.read(Arr(b))
            if t is None:
                return None
            try:
                return T.subst(t, m)
            except T.Blowup:
                return None
        return r.term

    def write(self, a, term):
        """in-place overwrite of array content"""
        r = self.heap[a.id]
        self.event('write', buf=a.id, root=self.root_buf(a.id))
        if r.base is not None:
            b, m, inv = r.base
            self.write_view(Arr(b), inv, r.shape, term)
            return
        if term is not None and r.dtype != 'i':
            term = T.let(term)
        self.heap[a.id] = BufRec(r.shape, term, r.dtype, None, r.alias, r.why if term is None else '')
        for al in r.alias:
            if al in self.heap and isinstance(self.heap[al], BufRec):
                q = self.heap[al]
                self.heap[al] = BufRec(q.shape, None, q.dtype, q.base, q.alias, 'aliased write')

    def write_view(self, base, inv, vshape, vterm):
        if inv is None or vterm is None:
            self.write(base, None)
            return
        # inv: (guard poly over base vars, {viewvar: poly over base vars})
        g, sol = inv
        old = self.read(base)
        if old is None and g is not ONE:
            self.write(base, None)
            return
        try:
            nv = T.subst(vterm, sol)
            new = nv if g is ONE else T.add(T.mul(g, nv), T.mul(T.not_(g), old))
        except T.Blowup:
            new = None
        self.write(base, new)

    def root_buf(self, i):
        r = self.heap[i]
        while r.base is not None:
            i = r.base[0]
            r = self.heap[i]
        return i

    def may_alias(self, i):
        out = set()
        st = [i]
        while st:
            j = st.pop()
            if j in out:
                continue
            out.add(j)
            r = self.heap.get(j)
            if isinstance(r, BufRec):
                if r.base is not None:
                    st.append(r.base[0])
                st.extend(r.alias)
        return out

    # -------------------------------------------------------------- merging
    def gamma(self, c, a, b):
        if a is b:
            return a
        try:
            return T.add(b, T.mul(c, T.sub(a, b)))
        except T.Blowup:
            return None

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            if a.p is b.p:
                return a if a.ty == b.ty else Num(a.p, 'float')
            g = self.gamma(c, a.p, b.p)
            return self.top('blowup') if g is None else Num(g, a.ty if a.ty == b.ty else 'float')
        if isinstance(a, Str) and isinstance(b, Str) and a.s == b.s:
            return a
        if isinstance(a, Ref) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (Cls, Ext)) and a == b:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fun is b.fun:
            s = self.merge(c, a.selfv, b.selfv)
            return Bound(s, a.fun)
        if isinstance(a, Arr) and isinstance(b, Arr):
            ra, rb = self._hrec(a), self._hrec(b)
            if ra is not None and rb is not None and ra.shape == rb.shape:
                ta, tb = self.read(a), self.read(b)
                g = None if ta is None or tb is None else self.gamma(c, ta, tb)
                return self.arr(ra.shape, g, ra.dtype if ra.dtype == rb.dtype else 'f', alias=(a.id, b.id), why=ra.why or rb.why or 'join')
        if isinstance(a, (Arr, Num)) and isinstance(b, (Arr, Num)):
            x, y = (a, b) if isinstance(a, Arr) else (b, a)
            if isinstance(x, Arr) and isinstance(y, Num) and self.heap[x.id].shape == ():
                return Num(self.gamma(c, self.read(a) if isinstance(a, Arr) else a.p, self.read(b) if isinstance(b, Arr) else b.p))
        if isinstance(a, TopV):
            return a
        if isinstance(b, TopV):
            return b
        return Phi(c, a, b)

    def _hrec(self, a):
        return self.heap.get(a.id)

    def merge_heaps(self, c, ha, hb):
        # operate with union heap so that reads work
        out = dict(hb)
        diff = []
        for i, ra in ha.items():
            rb = hb.get(i)
            if rb is None:
                out[i] = ra
            elif rb is not ra:
                diff.append(i)
        self.heap = out
        for i in diff:
            ra, rb = ha[i], hb[i]
            if type(ra) is not type(rb):
                raise Unsupported('merge rec')
            if isinstance(ra, EnvRec):
                out[i] = EnvRec(self._merge_map(c, ra.vars, rb.vars), ra.parent)
            elif isinstance(ra, ObjRec):
                out[i] = ObjRec(ra.cls, self._merge_map(c, ra.attrs, rb.attrs))
            elif isinstance(ra, DictRec):
                out[i] = DictRec(self._merge_map(c, ra.d, rb.d))
            elif isinstance(ra, ListRec):
                out[i] = self._merge_list(c, ra, rb)
            elif isinstance(ra, BufRec):
                if ra.shape == rb.shape and ra.base == rb.base:
                    g = None
                    if ra.term is not None and rb.term is not None:
                        g = self.gamma(c, ra.term, rb.term)
                    out[i] = BufRec(ra.shape, g, ra.dtype, ra.base, tuple(set(ra.alias) | set(rb.alias)), ra.why or rb.why)
                else:
                    out[i] = BufRec(ra.shape, None, ra.dtype, None, ra.alias, 'join of different views')
        self.heap = out
        return out

    def _merge_map(self, c, a, b):
        r = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k, UNDEF), b.get(k, UNDEF)
            r[k] = x if x is y else self.merge(c, x, y)
        return r

    def _merge_list(self, c, ra, rb):
        if len(ra.items) == len(rb.items) and ra.sym is rb.sym:
            return ListRec([x if x is y else self.merge(c, x, y) for x, y in zip(ra.items, rb.items)], ra.sym)
        if ra.sym is None and rb.sym is None:
            n = 0
            while n < min(len(ra.items), len(rb.items)) and ra.items[n] is rb.items[n]:
                n += 1
            pre = list(ra.items[:n])
            pre += [Guarded(c, x) for x in ra.items[n:]]
            pre += [Guarded(T.not_(c), x) for x in rb.items[n:]]
            return ListRec(pre)
        return ListRec((), SymSeq(None, None, TopV('list join')))

    # -------------------------------------------------------------- truth
    def truth(self, v):
        """indicator Poly or None if unknown"""
        if isinstance(v, Num):
            return T.truth(v.p)
        if isinstance(v, Str):
            return ONE if v.s else ZERO
        if v is NONE:
            return ZERO
        if v is ELL:
            return ONE
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, Lst):
            r = self.heap[v.id]
            if r.sym is not None:
                return None
            if any(isinstance(x, Guarded) for x in r.items):
                if any(not isinstance(x, Guarded) for x in r.items):
                    return ONE
                return None
            return ONE if r.items else ZERO
        if isinstance(v, Dct):
            d = self.heap[v.id].d
            if any(x is not UNDEF and not (isinstance(x, Phi) and (x.a is UNDEF or x.b is UNDEF)) for x in d.values()):
                return ONE
            return ZERO if not d else None
        if isinstance(v, Arr):
            s = self.shape(v)
            t = self.read(v)
            if s == () or all(d == () for d in s):
                return None if t is None else T.truth(t)
            self.event('arraytruth')
            return None
        if isinstance(v, Phi):
            a, b = self.truth(v.a), self.truth(v.b)
            if a is None or b is None:
                return None
            return self.gamma(v.c, a, b)
        if isinstance(v, TopV):
            return None
        if isinstance(v, Obj):
            m, _ = self.heap[v.id].cls.find('__bool__')
            if m is not None:
                return self.truth(self.call(m, (v,)))
            m, _ = self.heap[v.id].cls.find('__len__')
            if m is not None:
                return self.truth(self.call(m, (v,)))
            return ONE
        return ONE

    def fresh_bool(self):
        self.nid += 1
        return T.sym('?b%d' % self.nid)


class Guarded(V):
    """list item present only when c holds"""

    def __init__(self, c, v):
        self.c, self.v = c, v

    def __repr__(self):
        return f'Guarded({self.c},{self.v})'


class Raised(Exception):
    def __init__(self, exc, msg=''):
        self.exc, self.msg = exc, msg
        Exception.__init__(self, '%s: %s' % (exc, msg))


class Frame:
    def __init__(self, I, env, mod, fun, qual):
        self.I, self.env, self.mod, self.fun, self.qual = I, env, mod, fun, qual

    # ---------------------------------------------------------- outcome trees
    def collapse(self, t):
        """merge subtrees whose leaves are all of one kind (ignoring raise)"""
        if isinstance(t, Leaf):
            return t
        a, b = self.collapse(t.a), self.collapse(t.b)
        if isinstance(a, Leaf) and a.kind == 'raise' and not (isinstance(b, Leaf) and b.kind == 'raise'):
            return b
        if isinstance(b, Leaf) and b.kind == 'raise' and not (isinstance(a, Leaf) and a.kind == 'raise'):
            return a
        if isinstance(a, Leaf) and isinstance(b, Leaf) and a.kind == b.kind:
            I = self.I
            h = I.merge_heaps(t.c, a.heap, b.heap)
            v = None
            if a.kind == 'return':
                v = I.merge(t.c, a.val if a.val is not None else NONE, b.val if b.val is not None else NONE)
            elif a.kind == 'raise':
                v = a.val
            return Leaf(a.kind, v, I.heap)
        return Br(t.c, a, b)

    def collapse_all(self, t):
        """merge everything into a single leaf; normal counts as return None"""
        def norm(t):
            if isinstance(t, Leaf):
                if t.kind in ('normal', 'break', 'continue'):
                    return Leaf('return', NONE, t.heap)
                return t
            return Br(t.c, norm(t.a), norm(t.b))
        if isinstance(t, Leaf):
            return t
        r = self.collapse(norm(t))
        if isinstance(r, Br):
            raise Unsupported('collapse')
        return r

    def seq(self, t, kinds, cont):
        """run cont on the leaves whose kind is in kinds"""
        t = self.collapse(t)
        I = self.I

        def go(t, g):
            if isinstance(t, Leaf):
                if t.kind in kinds:
                    sv = I.guard
                    I.guard = g
                    I.heap = t.heap
                    try:
                        r = cont()
                    finally:
                        I.guard = sv
                    return r
                return t
            return Br(t.c, go(t.a, T.mul(g, t.c)), go(t.b, T.mul(g, T.not_(t.c))))
        return self.collapse(go(t, I.guard))

    # ---------------------------------------------------------- statements
    def exec_stmts(self, stmts):
        I = self.I
        i = 0
        while i < len(stmts):
            st = stmts[i]
            out = self.exec_stmt(st)
            out = self.collapse(out)
            if isinstance(out, Leaf):
                if out.kind != 'normal':
                    return out
                I.heap = out.heap
                i += 1
                continue
            rest = stmts[i + 1:]
            return self.seq(out, ('normal',), lambda: self.exec_stmts(rest))
        return Leaf('normal', None, I.heap)

    def exec_stmt(self, st):
        I = self.I
        if hasattr(st, 'lineno') and I.lines:
            I.lines[-1] = st.lineno
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(st).__name__)
        try:
            r = m(st)
        except Raised as e:
            I.event('raise', exc=e.exc, msg=e.msg)
            return Leaf('raise', (e.exc, e.msg), I.heap)
        except T.Blowup:
            I.note('blowup @%s:%s' % I.site())
            return Leaf('normal', None, I.heap)
        return r if r is not None else Leaf('normal', None, I.heap)

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value)

    def st_Pass(self, st):
        return

    def st_Assert(self, st):
        return

    def st_Global(self, st):
        self.globals_ = getattr(self, 'globals_', set()) | set(st.names)

    def st_Nonlocal(self, st):
        self.nonlocals_ = getattr(self, 'nonlocals_', set()) | set(st.names)

    def st_Import(self, st):
        for a in st.names:
            m = self.I.import_mod(a.name)
            if a.asname:
                self.setname(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.setname(top, self.I.import_mod(top))

    def st_ImportFrom(self, st):
        I = self.I
        if st.level:
            parts = self.mod.name.split('.')
            if not getattr(self.mod, 'ispkg', False):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = '.'.join(parts + ([st.module] if st.module else []))
        else:
            base = st.module
        m = I.import_mod(base)
        for a in st.names:
            if a.name == '*':
                if isinstance(m, Mod):
                    for k, v in I.heap[m.env].vars.items():
                        if not k.startswith('_'):
                            self.setname(k, v)
                continue
            if isinstance(m, Mod):
                v = I.mod_get(m, a.name)
                if v is None:
                    raise Raised('ImportError', a.name)
            else:
                v = I.lib.ext_attr(base, a.name)
            self.setname(a.asname or a.name, v)

    def st_FunctionDef(self, st):
        f = self.mkfun(st, st.name)
        for d in reversed(st.decorator_list):
            f = self.decorate(f, d)
        self.setname(st.name, f)

    def decorate(self, f, d):
        I = self.I
        if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
            return Wrap({'staticmethod': 'static', 'classmethod': 'class', 'property': 'property'}[d.id], f)
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            w = self.getname(d.value.id) if isinstance(d.value, ast.Name) else None
            if isinstance(w, Wrap):
                w.setter = f
                return w
        dv = self.ev(d)
        r = I.call(dv, (f,))
        return r

    def mkfun(self, node, name):
        a = node.args
        defaults = [self.ev(x) for x in a.defaults]
        kwd = [self.ev(x) if x is not None else None for x in a.kw_defaults]
        cls = getattr(self, 'curcls', None)
        q = name
        if cls is not None:
            q = cls.name + '.' + name
        elif self.fun is not None:
            q = self.fun.name + '.' + name
        env = self.env
        if cls is not None:
            env = self.clsouter
        return Fun(node, env, self.mod, q, defaults, kwd, cls)

    def st_ClassDef(self, st):
        I = self.I
        bases = [self.ev(b) for b in st.bases]
        c = Cls(st.name, [b for b in bases], self.mod, st)
        c.compute_mro()
        env = I.alloc(EnvRec({}, self.env))
        fr = Frame(I, env, self.mod, self.fun, self.qual)
        fr.curcls = c
        fr.clsouter = self.env
        out = fr.exec_stmts(st.body)
        leaf = fr.collapse_all(out)
        I.heap = leaf.heap
        c.attrs.update(I.heap[env].vars)
        cv = c
        for d in reversed(st.decorator_list):
            dv = self.ev(d)
            # decorators on classes: only transparent wrappers are known
            cv2 = cv
            if isinstance(dv, Fun):
                c.decorated = dv
            cv = cv2
        self.setname(st.name, cv)

    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else NONE
        return Leaf('return', v, self.I.heap)

    def st_Raise(self, st):
        exc, msg = 'Exception', ''
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and isinstance(self.getname(e.func.id, quiet=True), (Ext, type(None))):
                exc = e.func.id
            elif isinstance(e, ast.Name):
                exc = e.id
            else:
                self.ev(e)      # e.g. raise helper(...)
        self.I.event('raise', exc=exc, msg=msg)
        return Leaf('raise', (exc, msg), self.I.heap)

    def st_Break(self, st):
        return Leaf('break', None, self.I.heap)

    def st_Continue(self, st):
        return Leaf('continue', None, self.I.heap)

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_index(t.slice)
                if isinstance(o, Dct):
                    d = dict(self.I.heap[o.id].d)
                    d.pop(self.I.key(k), None)
                    self.I.heap[o.id] = DictRec(d)
                    self.I.event('mutate', ref=o)
                elif isinstance(o, Lst):
                    self.I.lib.list_del(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Obj):
                    r = self.I.heap[o.id]
                    a = dict(r.attrs)
                    a.pop(t.attr, None)
                    self.I.heap[o.id] = ObjRec(r.cls, a)

    def st_With(self, st):
        for it in st.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.exec_stmts(st.body)

    def st_Try(self, st):
        out = self.exec_stmts(st.body + st.orelse)
        out = self.collapse(out)
        if isinstance(out, Leaf) and out.kind == 'raise' and st.handlers:
            # definite raise: analyse the first handler
            self.I.heap = out.heap
            h = st.handlers[0]
            if h.name:
                self.setname(h.name, TopV('exception'))
            out = self.exec_stmts(h.body)
        if st.finalbody:
            out = self.seq(out, ('normal',), lambda: self.exec_stmts(st.finalbody))
        return out

    def st_If(self, st):
        c = self.cond(st.test)
        return self.branch(c, lambda: self.exec_stmts(st.body), lambda: self.exec_stmts(st.orelse))

    def branch(self, c, fa, fb):
        I = self.I
        if c is ONE:
            return fa()
        if c is ZERO:
            return fb()
        if c is None:
            c = I.fresh_bool()
            I.note('undecided condition @%s:%s' % I.site())
        h0, g0 = I.heap, I.guard
        I.heap = dict(h0)
        I.guard = T.mul(g0, c)
        a = fa()
        I.heap = dict(h0)
        I.guard = T.mul(g0, T.not_(c))
        b = fb()
        I.guard = g0
        return Br(c, a, b)

    def cond(self, e):
        c = self.cond0(e)
        pol = self.I.policy
        if pol is None or c is ZERO or c is ONE or c is None or not pol[0]:
            return c
        take = pol[0].pop(0)                 # follow one chosen path; its condition is recorded
        pol[1].append(c if take else T.not_(c))
        return ONE if take else ZERO

    def cond0(self, e):
        I = self.I
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = ONE if isand else ZERO
            for x in e.values:
                c = self.cond0(x)
                if c is None:
                    acc = None if acc is None or acc is (ONE if isand else ZERO) or True else acc
                    # keep evaluating for decided absorbing element
                    rest = None
                    return self._cond_rest(e, isand)
                if isand and c is ZERO:
                    return ZERO
                if not isand and c is ONE:
                    return ONE
                acc = T.and_(acc, c) if isand else T.or_(acc, c)
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.cond0(e.operand)
            return None if c is None else T.not_(c)
        return I.truth(self.ev(e))

    def _cond_rest(self, e, isand):
        cs = [self.cond0(x) for x in e.values]
        if isand and any(c is ZERO for c in cs):
            return ZERO
        if not isand and any(c is ONE for c in cs):
            return ONE
        out = ONE if isand else ZERO
        for c in cs:
            if c is None:
                c = self.I.fresh_bool()
            out = T.and_(out, c) if isand else T.or_(out, c)
        return out

    def st_While(self, st):
        I = self.I
        n = 0
        if isinstance(st.test, ast.Constant) and st.test.value:
            out = self.try_unroll(st)
            if out is not None:
                return out

        def loop():
            nonlocal n
            n += 1
            if n > 60:
                return self.havoc_while(st)
            c = self.cond(st.test)
            if c is ZERO:
                return Leaf('normal', None, I.heap)
            if c is not ONE or isinstance(st.test, ast.Constant):
                return self.havoc_while(st)
            out = self.exec_stmts(st.body)
            out = self.unbreak(out)
            return self.seq(out, ('normal', 'continue'), loop)
        out = loop()
        return self.endloop(out, st)

    def try_unroll(self, st):
        """while True with exits that are decided in every iteration"""
        I = self.I
        h0, nev, nf, g0 = dict(I.heap), len(I.events), len(I.findings), I.guard
        try:
            for _ in range(60):
                out = self.collapse(self.exec_stmts(st.body))
                if not isinstance(out, Leaf):
                    break
                I.heap = out.heap
                if out.kind == 'break':
                    return Leaf('normal', None, out.heap)
                if out.kind not in ('normal', 'continue'):
                    return out
        except (Unsupported, Raised):
            pass
        I.heap = h0
        del I.events[nev:]
        del I.findings[nf:]
        I.guard = g0
        return None

    def unbreak(self, t):
        if isinstance(t, Leaf):
            return Leaf('loopexit', None, t.heap) if t.kind == 'break' else t
        return Br(t.c, self.unbreak(t.a), self.unbreak(t.b))

    def endloop(self, t, st):
        def go(t):
            if isinstance(t, Leaf):
                if t.kind in ('loopexit', 'continue', 'break'):
                    return Leaf('normal', None, t.heap)
                return t
            return Br(t.c, go(t.a), go(t.b))
        out = self.collapse(go(t))
        if getattr(st, 'orelse', None):
            out = self.seq(out, ('normal',), lambda: self.exec_stmts(st.orelse))
        return out

    def havoc_changed(self, h0, h1, tag):
        """heap h0 with every location changed in h1 replaced by fresh unknowns"""
        I = self.I
        h = dict(h0)
        I.heap = h
        for i, r0 in h0.items():
            r1 = h1.get(i)
            if r1 is None or r1 is r0:
                continue
            if isinstance(r0, EnvRec):
                vs = dict(r0.vars)
                for k in set(r0.vars) | set(r1.vars):
                    x, y = r0.vars.get(k), r1.vars.get(k)
                    if x is not y and not (isinstance(x, Ref) and x == y):
                        vs[k] = self.havoc_val(x, y, (tag, k), h1)
                h[i] = EnvRec(vs, r0.parent)
            elif isinstance(r0, ObjRec):
                vs = dict(r0.attrs)
                for k in set(r0.attrs) | set(r1.attrs):
                    x, y = r0.attrs.get(k), r1.attrs.get(k)
                    if x is not y and not (isinstance(x, Ref) and x == y):
                        vs[k] = self.havoc_val(x, y, (tag, k), h1)
                h[i] = ObjRec(r0.cls, vs)
            elif isinstance(r0, BufRec):
                if r0.base is not None:
                    continue
                h[i] = BufRec(r0.shape, self.fresh_arr_term(r0.shape, (tag, 'buf%d' % i), r0.dtype), r0.dtype, None, r0.alias)
            elif isinstance(r0, ListRec):
                if len(r0.items) == len(r1.items):
                    h[i] = ListRec([x if x is y else self.havoc_val(x, y, (tag, i), h1) for x, y in zip(r0.items, r1.items)], r0.sym)
                else:
                    h[i] = ListRec(r0.items, SymSeq(None, None, TopV('loop list')))
            elif isinstance(r0, DictRec):
                d = dict(r0.d)
                for k in set(r0.d) | set(r1.d):
                    x, y = r0.d.get(k), r1.d.get(k)
                    if x is not y and not (isinstance(x, Ref) and x == y):
                        d[k] = self.havoc_val(x, y, (tag, str(k)), h1)
                h[i] = DictRec(d)
        return h

    def fresh_arr_term(self, shape, name, dtype='f'):
        I = self.I
        I.nid += 1
        nm = ('loop',) + tuple(str(x) for x in name) + (I.nid,)
        if dtype == 'i':
            T.ARR_PROP[nm] = {'int'}
        if dtype == 'b':
            T.ARR_PROP[nm] = {'ind'}
        return T.arr(nm, [T.atom(v) for vs in shape_vars(shape) for v in vs])

    def havoc_val(self, x, y, name, h1):
        I = self.I
        I.nid += 1
        if isinstance(x, Num) and isinstance(y, Num):
            nm = '~%s%d' % ('_'.join(str(n) for n in name), I.nid)
            ty = x.ty if x.ty == y.ty else 'float'
            if ty == 'bool':
                nm = '?b' + nm
            if ty == 'int':
                T.INT_SYMS.add(nm)
            return Num(T.sym(nm), ty)
        if isinstance(y, Arr):
            r1 = h1.get(y.id)
            if isinstance(x, Arr):
                r0 = I.heap.get(x.id)
                if r0 is not None and r1 is not None and r0.shape != r1.shape:
                    return TopV('loop-varying shape')
            if r1 is not None:
                return I.arr(r1.shape, self.fresh_arr_term(r1.shape, name, r1.dtype), r1.dtype)
        if isinstance(x, Str) and isinstance(y, Str):
            return Str('<loop>')
        return TopV('loop-carried')

    def havoc_while(self, st):
        I = self.I
        h0 = dict(I.heap)
        nev = len(I.events)
        nf = len(I.findings)
        g0 = I.guard
        I.heap = dict(h0)
        self.cond(st.test)
        out = self.collapse(self.exec_stmts(st.body))
        h1 = self._any_heap(out, h0)
        del I.events[nev:]
        # second iteration from havocked state to reach stable set of changed locations
        I.nid += 1
        tag = 'w%d' % I.nid
        h = self.havoc_changed(h0, h1, tag)
        I.heap = dict(h)
        I.event('loopstart', tag=tag)
        c = self.cond(st.test)
        out = self.collapse(self.exec_stmts(st.body))
        I.event('loopend', tag=tag)
        h2 = self._any_heap(out, h)
        extra = self.havoc_changed(h, h2, tag + 'x') if False else h
        exits = dict(h)
        I.heap = exits
        # return leaves inside the loop
        rets = [l for l in self.leaves(out) if l.kind == 'return']
        self.last_loop = (h, h2)
        norm = Leaf('normal', None, exits)
        if rets:
            return Br(I.fresh_bool(), rets[0], norm)
        return norm

    def leaves(self, t):
        if isinstance(t, Leaf):
            return [t]
        return self.leaves(t.a) + self.leaves(t.b)

    def _any_heap(self, t, h0):
        """a heap in which everything changed on any leaf is changed"""
        ls = [l for l in self.leaves(t) if l.kind != 'raise']
        if not ls:
            return dict(h0)
        h = ls[0].heap
        c = None
        for l in ls[1:]:
            h = self.I.merge_heaps(self.I.fresh_bool(), h, l.heap)
        return h

    def st_For(self, st):
        I = self.I
        it = self.ev(st.iter)
        seq = I.lib.iterate(it)
        if seq is None:
            return self.sym_for(st, it)
        items = list(seq)

        def run(k):
            if k >= len(items):
                return Leaf('normal', None, I.heap)
            x = items[k]
            if isinstance(x, Guarded):
                def yes():
                    self.assign(st.target, x.v)
                    return self.exec_stmts(st.body)
                out = self.branch(x.c, yes, lambda: Leaf('normal', None, I.heap))
            else:
                self.assign(st.target, x)
                out = self.exec_stmts(st.body)
            out = self.unbreak(self.collapse(out))
            return self.seq(out, ('normal', 'continue'), lambda: run(k + 1))
        return self.endloop(run(0), st)

    # symbolic for loops: parallel map / reduction summaries
    def sym_for(self, st, it):
        I = self.I
        info = I.lib.sym_iter(it)
        if info is None:
            I.note('loop over unknown iterable @%s:%s' % I.site())
            return self.havoc_for(st, TopV('loop element'))
        n, jv, elem, start = info
        res = self.try_map_loop(st, n, jv, elem)
        if res is not None:
            return res
        I.note('loop not summarised @%s:%s' % I.site())
        return self.havoc_for(st, elem)

    def havoc_for(self, st, elem):
        I = self.I
        h0 = dict(I.heap)
        nev = len(I.events)
        I.heap = dict(h0)
        self.assign(st.target, elem)
        out = self.collapse(self.exec_stmts(st.body))
        h1 = self._any_heap(out, h0)
        del I.events[nev:]
        I.nid += 1
        tag = 'f%d' % I.nid
        h = self.havoc_changed(h0, h1, tag)
        I.heap = dict(h)
        I.event('loopstart', tag=tag)
        self.assign(st.target, elem)
        out = self.collapse(self.exec_stmts(st.body))
        I.event('loopend', tag=tag)
        I.heap = dict(h)
        return Leaf('normal', None, I.heap)

    def try_map_loop(self, st, n, jv, elem):
        """for j in range(n): body  with writes at index j only / accumulations"""
        I = self.I
        h0 = dict(I.heap)
        nev, nf = len(I.events), len(I.findings)
        g0 = I.guard

        def fail():
            I.heap = dict(h0)
            del I.events[nev:]
            del I.findings[nf:]
            I.guard = g0
            return None
        # pass 1: find changed locations
        I.heap = dict(h0)
        try:
            self.assign(st.target, elem)
            out = self.collapse(self.exec_stmts(st.body))
        except (Unsupported, Raised):
            return fail()
        out = self._cont_to_normal(out)
        if not (isinstance(out, Leaf) and out.kind in ('normal',)):
            return fail()
        h1 = out.heap
        del I.events[nev:]
        del I.findings[nf:]
        # markers for changed buffers / numeric variables
        hm = dict(h0)
        marks = {}
        nummarks = {}
        listmarks = {}
        localonly = set()
        for i, r0 in h0.items():
            r1 = h1.get(i)
            if r1 is r0 or r1 is None:
                continue
            if isinstance(r0, BufRec):
                if r0.base is not None:
                    continue
                if r0.shape != r1.shape or r0.term is None:
                    return fail()
                I.nid += 1
                nm = ('mark', I.nid)
                if r0.dtype == 'b':
                    T.ARR_PROP[nm] = {'ind'}
                if r0.dtype == 'i':
                    T.ARR_PROP[nm] = {'int'}
                vs = [v for q in shape_vars(r0.shape) for v in q]
                mt = T.arr(nm, [T.atom(v) for v in vs])
                marks[i] = (nm, vs, r0)
                hm[i] = BufRec(r0.shape, mt, r0.dtype, None, r0.alias)
            elif isinstance(r0, (EnvRec, ObjRec, DictRec)):
                a0 = r0.vars if isinstance(r0, EnvRec) else r0.attrs if isinstance(r0, ObjRec) else r0.d
                a1 = r1.vars if isinstance(r1, EnvRec) else r1.attrs if isinstance(r1, ObjRec) else r1.d
                new = dict(a0)
                for k in set(a0) | set(a1):
                    x, y = a0.get(k), a1.get(k)
                    if x is y or (isinstance(x, Ref) and x == y):
                        continue
                    if isinstance(r0, EnvRec) and i == self.env and k in target_names(st.target):
                        continue
                    if isinstance(x, Num) and isinstance(y, Num):
                        if x.p is y.p:
                            continue
                        I.nid += 1
                        nm = '~acc%d' % I.nid
                        if x.ty == 'int':
                            T.INT_SYMS.add(nm)
                        s = T.sym(nm)
                        nummarks[(i, k)] = (s, x)
                        new[k] = Num(s, x.ty)
                    elif isinstance(x, Arr) and isinstance(y, Arr) and h0[x.id].base is None and h0[x.id].term is not None:
                        rx, ry = h0[x.id], h1[y.id]
                        if rx.shape != ry.shape:
                            if isinstance(r0, EnvRec):
                                continue
                            return fail()
                        I.nid += 1
                        nm = ('mark', I.nid)
                        vs = [v for q in shape_vars(rx.shape) for v in q]
                        mt = T.arr(nm, [T.atom(v) for v in vs])
                        nummarks[(i, k)] = ((nm, vs), x)
                        new[k] = I.arr(rx.shape, mt, rx.dtype)
                        hm[new[k].id] = I.heap[new[k].id]
                    elif isinstance(r0, EnvRec):
                        continue        # loop-local temporary
                    else:
                        return fail()
                hm[i] = EnvRec(new, r0.parent) if isinstance(r0, EnvRec) else ObjRec(r0.cls, new) if isinstance(r0, ObjRec) else DictRec(new)
            elif isinstance(r0, ListRec):
                if r0.sym is None and r1.sym is None and r1.items[:len(r0.items)] == r0.items and len(r1.items) == len(r0.items) + 1:
                    listmarks[i] = r0
                elif r0.sym is not None and r0.sym.n is n:
                    listmarks[i] = r0
                else:
                    return fail()
            else:
                return fail()
        # pass 2
        I.heap = hm
        try:
            I.event('loopstart', tag='map', n=n, j=jv)
            self.assign(st.target, elem)
            out = self._cont_to_normal(self.collapse(self.exec_stmts(st.body)))
            I.event('loopend', tag='map')
        except (Unsupported, Raised):
            return fail()
        if not (isinstance(out, Leaf) and out.kind == 'normal'):
            return fail()
        h2 = out.heap
        final = dict(h0)
        for i, r in h2.items():
            if i not in final:
                final[i] = r
        allmarks = {nm for nm, vs, r0 in marks.values()} | {m[0][0] for m in nummarks.values() if isinstance(m[0], tuple)}
        allsyms = {T.single_atom(m[0]) for m in nummarks.values() if not isinstance(m[0], tuple)}

        def foreign(p, own=None):
            for a in T.walk(p):
                if a.kind == 'arr' and a.args[0] in allmarks and a.args[0] != own:
                    return True
                if a in allsyms and a is not own:
                    return True
            return False
        try:
            # counters that advance by a constant have a closed form at iteration j
            closed = {}
            for (i, k), (s, x) in nummarks.items():
                if not isinstance(s, tuple):
                    r2 = h2[i]
                    a2 = r2.vars if isinstance(r2, EnvRec) else r2.attrs if isinstance(r2, ObjRec) else r2.d
                    y = a2.get(k)
                    if isinstance(y, Num):
                        d = T.sub(y.p, s)
                        if jv not in d.fv and not foreign(d):
                            closed[T.single_atom(s)] = T.add(x.p, T.mul(T.atom(jv), d))

            def close(p):
                return T.replace(p, lambda a: closed.get(a)) if closed and p is not None else p
            diffs = {}
            for i, (nm, vs, r0) in marks.items():
                r2 = h2[i]
                if r2.term is None:
                    return fail()
                diffs[i] = close(T.sub(r2.term, T.arr(nm, [T.atom(v) for v in vs])))
            # arrays stored in parallel: entry I(j) is written by iteration j only, so that reads of it in iteration j see the old value
            par = {}
            for i, (nm, vs, r0) in marks.items():
                sol = self._store_sol(diffs[i], jv, vs)
                if sol:
                    par[nm] = (vs, vs.index(sol[0]), sol[1], r0.term)

            def own_reads(p, own):
                def rw(a):
                    if a.kind == 'arr' and a.args[0] in par and a.args[0] != own:
                        vs, ax, w, t0 = par[a.args[0]]
                        if a.args[1][ax] is w and t0 is not None:
                            return T.subst(t0, dict(zip(vs, a.args[1])))
                    return None
                return T.replace(p, rw) if par else p
            for i, (nm, vs, r0) in marks.items():
                d = own_reads(diffs[i], nm)
                new = self._map_store(d, jv, n, nm, vs, r0, foreign)
                if new is None:
                    return fail()
                final[i] = BufRec(r0.shape, new, r0.dtype, None, r0.alias)
            upd = {}
            for (i, k), (s, x) in nummarks.items():
                r2 = h2[i]
                a2 = r2.vars if isinstance(r2, EnvRec) else r2.attrs if isinstance(r2, ObjRec) else r2.d
                y = a2.get(k)
                if isinstance(s, tuple):
                    nm, vs = s
                    I.heap = h2
                    yt = I.read(y) if isinstance(y, Arr) else None
                    rx = h0[x.id]
                    if yt is None:
                        return fail()
                    old = T.arr(nm, [T.atom(v) for v in vs])
                    d = own_reads(close(T.sub(yt, old)), nm)
                    if foreign(d):
                        # min/max accumulation is not summarised
                        return fail()
                    nb = T.add(rx.term, T.sum_([(jv, n)], d))
                    bid = I.new_id()
                    final[bid] = BufRec(rx.shape, nb, rx.dtype)
                    upd.setdefault(i, {})[k] = Arr(bid)
                else:
                    if not isinstance(y, Num):
                        return fail()
                    d = own_reads(close(T.sub(y.p, s)), None)
                    if foreign(d):
                        return fail()
                    upd.setdefault(i, {})[k] = Num(T.add(x.p, T.sum_([(jv, n)], d)), x.ty)
            for i, dct in upd.items():
                r = final[i]
                if isinstance(r, EnvRec):
                    v = dict(r.vars); v.update(dct); final[i] = EnvRec(v, r.parent)
                elif isinstance(r, ObjRec):
                    v = dict(r.attrs); v.update(dct); final[i] = ObjRec(r.cls, v)
                else:
                    v = dict(r.d); v.update(dct); final[i] = DictRec(v)
            for i, r0 in listmarks.items():
                r2 = h2[i]
                if r0.sym is not None:
                    final[i] = ListRec((), SymSeq(n, jv, TopV('list of symbolic length')))
                    continue
                if r0.items:
                    return fail()
                last = r2.items[-1]
                final[i] = ListRec((), SymSeq(n, jv, last))
        except T.Blowup:
            return fail()
        # loop-local names become unknown, except ones equal in both
        e2 = h2.get(self.env)
        e0 = final[self.env]
        vs = dict(e0.vars)
        for k, y in e2.vars.items():
            if k not in vs and k not in upd.get(self.env, {}):
                vs[k] = TopV('loop-local') if not isinstance(y, (Fun, Mod, Cls, Ext)) else y
        final[self.env] = EnvRec(vs, e0.parent)
        I.heap = final
        I.guard = g0
        return Leaf('normal', None, I.heap)

    def _cont_to_normal(self, t):
        def go(t):
            if isinstance(t, Leaf):
                return Leaf('normal', None, t.heap) if t.kind == 'continue' else t
            return Br(t.c, go(t.a), go(t.b))
        return self.collapse(go(t))

    def _store_sol(self, d, jv, vs):
        """d = sum eq(v - I(j)) * co: (v, I(j), guard, j as function of v, sum of co)"""
        inner = ZERO
        sol = None
        for m, c in d.t:
            eqs = [a for a, e in m if a.kind == 'eq' and jv in a.fv and (a.fv & frozenset(vs))]
            if not eqs:
                return None
            a = eqs[0]
            s = None
            for v in vs:
                if v in a.fv:
                    q = T.solve_lin(a.args[0], v)
                    if q is not None:
                        r = solve_index(q, jv, T.atom(v))
                        if r is not None:
                            s = (v, q, r)
                            break
            if s is None:
                return None
            v, q, (g, jsol) = s
            if sol is None:
                sol = (v, q, g, jsol)
            elif sol[1] is not q or sol[0] is not v:
                return None
            rest = T._mk(((T._sorted({b: e for b, e in m if b is not a}), c),))
            inner = T.add(inner, rest)
        return sol + (inner,) if sol else None

    def _map_store(self, d, jv, n, nm, vs, r0, foreign):
        """d = sum eq(v - I(j)) * co : parallel store; or accumulation independent of marks"""
        T0 = r0.term
        if not d.t:
            return T0
        if jv in d.fv and not any(a.kind == 'arr' and a.args[0] == nm for a in T.walk(d)) and \
                not any(a.kind == 'eq' and jv in a.fv and a.fv & frozenset(vs) for m, c in d.t for a, e in m):
            if foreign(d):
                return None
            return T.add(T0, T.sum_([(jv, n)], d))
        sol = self._store_sol(d, jv, vs)
        if sol is None:
            return None
        v, q, g, jsol, inner = sol
        # self reads must be at the written index
        axis = vs.index(v)
        bad = []

        def rw(a):
            if a.kind == 'arr' and a.args[0] == nm:
                if a.args[1][axis] is not q and a.args[1][axis] is not T.atom(v):
                    bad.append(a)
                    return ZERO
                idx = list(a.args[1])
                mp = {vv: ii for vv, ii in zip(vs, idx)}
                return T.subst(T0, mp)
            return None
        inner2 = T.replace(inner, rw)
        if bad or foreign(inner, nm):
            return None
        inner2 = T.subst(inner2, {jv: jsol})
        # the solution is an iteration of this loop
        bases = {u: e for us, es in zip(shape_vars(r0.shape), r0.shape) for u, e in zip(us, es)}
        a = T.single_atom(jsol)
        if not (a is not None and (bases.get(a) is n or a.kind == 'B' and a.args[0] == 'rank')):
            g = T.mul(g, self.I.lib.range_simp_fn(T.ind_ge(jsol), bases))
            g = T.mul(g, self.I.lib.range_simp_fn(T.ind_gt(T.sub(n, jsol)), bases))
        return T.add(T0, T.mul(g, inner2))

    # ---------------------------------------------------------- assignment
    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def st_AugAssign(self, st):
        I = self.I
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.getname(t.id)
            rhs = self.ev(st.value)
            self.setname(t.id, self.inplace(cur, op, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = I.getattr(o, t.attr)
            rhs = self.ev(st.value)
            I.setattr(o, t.attr, self.inplace(cur, op, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            cur = I.lib.getitem(o, k)
            rhs = self.ev(st.value)
            if isinstance(o, Arr):
                nv = I.lib.binop(op, cur, rhs)
                I.lib.check_inplace_shape(cur, nv)
            else:
                nv = self.inplace(cur, op, rhs)
            I.lib.setitem(o, k, nv)
        else:
            raise Unsupported('augassign')

    def inplace(self, cur, op, rhs):
        I = self.I
        if isinstance(cur, Arr):
            nv = I.lib.binop(op, cur, rhs)
            I.lib.check_inplace_shape(cur, nv)
            if isinstance(nv, Arr):
                I.write(cur, I.read(nv))
            elif isinstance(nv, Num):
                I.write(cur, nv.p)
            else:
                I.write(cur, None)
            return cur
        if isinstance(cur, Lst) and op == 'Add':
            I.lib.list_extend(cur, rhs)
            return cur
        return I.lib.binop(op, cur, rhs)

    def assign(self, t, v):
        I = self.I
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, ast.Attribute):
            I.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            I.lib.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = I.lib.unpack(v, len(t.elts) if not star else None)
            if items is None:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, I.top('unpack'))
                return
            if star:
                s = star[0]
                after = len(t.elts) - s - 1
                for e, x in zip(t.elts[:s], items[:s]):
                    self.assign(e, x)
                self.assign(t.elts[s].value, I.mklist(items[s:len(items) - after]))
                for e, x in zip(t.elts[s + 1:], items[len(items) - after:]):
                    self.assign(e, x)
            else:
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assign target')

    def setname(self, n, v):
        I = self.I
        eid = self.env
        if n in getattr(self, 'globals_', ()):
            eid = self.mod.env
        elif n in getattr(self, 'nonlocals_', ()):
            e = I.heap[self.env].parent
            while e is not None and n not in I.heap[e].vars:
                e = I.heap[e].parent
            eid = e if e is not None else self.env
        r = I.heap[eid]
        vs = dict(r.vars)
        vs[n] = v
        I.heap[eid] = EnvRec(vs, r.parent)

    def getname(self, n, quiet=False):
        I = self.I
        e = self.env
        while e is not None:
            r = I.heap[e]
            v = r.vars.get(n)
            if v is not None:
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    return v.b if v.a is UNDEF else v.a
                if v is not UNDEF:
                    return v
            e = r.parent
        v = I.lib.builtin(n)
        if v is not None:
            return v
        if quiet:
            return None
        raise Raised('NameError', n)

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        I = self.I
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        if I.lines and hasattr(e, 'lineno'):
            I.lines[-1] = e.lineno
        return m(e)

    def ev_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return Num(int(v), 'bool')
        if isinstance(v, int):
            return Num(v, 'int')
        if isinstance(v, float):
            return Num(v, 'float')
        if isinstance(v, str):
            return Str(v)
        if v is None:
            return NONE
        if v is Ellipsis:
            return ELL
        return self.I.top('constant')

    def ev_Name(self, e):
        return self.getname(e.id)

    def ev_Attribute(self, e):
        o = self.ev(e.value)
        return self.I.getattr(o, e.attr)

    def ev_Tuple(self, e):
        return Tup(self.elts(e.elts))

    def ev_List(self, e):
        return self.I.mklist(self.elts(e.elts))

    def ev_Set(self, e):
        return self.I.mklist(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                seq = self.I.lib.iterate(v)
                if seq is None:
                    raise Unsupported('star of unknown')
                out.extend(seq)
            else:
                out.append(self.ev(x))
        return out

    def ev_Dict(self, e):
        I = self.I
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if isinstance(o, Dct):
                    d.update(I.heap[o.id].d)
                else:
                    I.note('dict unpack')
            else:
                d[I.key(self.ev(k))] = self.ev(v)
        return I.mkdict(d)

    def ev_JoinedStr(self, e):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value)
        return Str('<fstring>')

    def ev_Lambda(self, e):
        return self.mkfun(e, '<lambda>')

    def ev_IfExp(self, e):
        I = self.I
        c = self.cond(e.test)
        if c is ONE:
            return self.ev(e.body)
        if c is ZERO:
            return self.ev(e.orelse)
        if c is None:
            c = I.fresh_bool()
        return self.branch_ev(c, e.body, e.orelse)

    def branch_ev(self, c, ea, eb):
        I = self.I
        res = []

        def run(e):
            def f():
                return self.ev(e)
            return f
        h0, g0 = I.heap, I.guard
        outs = []
        for e, g in ((ea, c), (eb, T.not_(c))):
            I.heap = dict(h0)
            I.guard = T.mul(g0, g)
            try:
                outs.append((self.ev(e), I.heap))
            except Raised as r:
                outs.append((None, r))
        I.guard = g0
        (va, ha), (vb, hb) = outs
        if va is None and vb is None:
            raise ha
        if va is None:
            I.heap = hb
            return vb
        if vb is None:
            I.heap = ha
            return va
        I.heap = I.merge_heaps(c, ha, hb)
        return I.merge(c, va, vb)

    def ev_BoolOp(self, e):
        I = self.I
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            c = I.truth(v)
            if c is ONE:
                if not isand:
                    return v
                v = self.ev(x)
            elif c is ZERO:
                if isand:
                    return v
                v = self.ev(x)
            else:
                if c is None:
                    c = I.fresh_bool()
                w = self.ev(x)
                if isinstance(v, Num) and isinstance(w, Num) and v.ty == 'bool' and w.ty == 'bool':
                    v = Num(T.and_(v.p, w.p) if isand else T.or_(v.p, w.p), 'bool')
                else:
                    v = I.merge(c, w, v) if isand else I.merge(c, v, w)
        return v

    def ev_UnaryOp(self, e):
        I = self.I
        if isinstance(e.op, ast.Not):
            c = self.cond(e.operand)
            if c is None:
                return I.top('not of unknown')
            return Num(T.not_(c), 'bool')
        return I.lib.unop(type(e.op).__name__, self.ev(e.operand))

    def ev_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.I.lib.binop(type(e.op).__name__, a, b)

    def ev_Compare(self, e):
        I = self.I
        a = self.ev(e.left)
        res = None
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x)
            r = I.lib.compare(type(op).__name__, a, b)
            if res is None:
                res = r
            elif isinstance(res, Num) and isinstance(r, Num):
                res = Num(T.and_(res.p, r.p), 'bool')
            else:
                res = I.top('chained comparison')
            a = b
        return res

    def ev_Call(self, e):
        try:
            return self._ev_Call(e)
        except Unsupported as ex:
            return self.I.top('call: %s' % ex)

    def _ev_Call(self, e):
        I = self.I
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.getname('super', quiet=True) is not None:
            return self.ev_super(e)
        f = self.ev(e.func)
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value)
                if isinstance(o, Dct):
                    for kk, vv in I.heap[o.id].d.items():
                        if kk[0] == 's':
                            if isinstance(vv, Phi) and (vv.a is UNDEF or vv.b is UNDEF):
                                vv = vv.b if vv.a is UNDEF else vv.a
                            kw[kk[1]] = vv
                else:
                    I.note('** of unknown')
            else:
                kw[k.arg] = self.ev(k.value)
        if I.lines:
            I.lines[-1] = e.lineno
        if isinstance(f, Py) and f.data.get('frame'):
            return f.fn(I, args, kw, self)
        if isinstance(f, Ext) and f.name == 'builtins.next' and args and isinstance(e.args[0], ast.Call):
            # first element of a fresh iterator
            g = self.ev(e.args[0].func) if isinstance(e.args[0].func, ast.Name) else None
            it = I.lib.iterate(args[0]) if isinstance(g, Ext) and g.name in ('builtins.iter', 'builtins.reversed') else None
            if it:
                return it[0]
            if it is not None and len(args) > 1:
                return args[1]
        return I.call(f, args, kw)

    def ev_super(self, e):
        I = self.I
        if e.args:
            c = self.ev(e.args[0])
            s = self.ev(e.args[1])
        else:
            c = self.fun.cls if self.fun is not None else None
            a = self.fun.node.args
            nm = (a.posonlyargs + a.args)[0].arg
            s = self.getname(nm)
        return ExtObj('super', cls=c, selfv=s)

    def ev_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_index(e.slice)
        return self.I.lib.getitem(o, k)

    def ev_index(self, s):
        return self.ev(s)

    def ev_Slice(self, s):
        f = lambda x: self.ev(x) if x is not None else NONE
        return SliceV(f(s.lower), f(s.upper), f(s.step))

    def ev_Starred(self, e):
        return self.ev(e.value)

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def comp(self, gens, emit):
        """run comprehension generators over known iterables"""
        I = self.I

        def go(k):
            if k == len(gens):
                emit()
                return
            g = gens[k]
            it = self.ev(g.iter)
            seq = I.lib.iterate(it)
            if seq is None:
                raise SymComp(g, it)
            for x in list(seq):
                if isinstance(x, Guarded):
                    raise Unsupported('guarded list in comprehension')
                self.assign(g.target, x)
                ok = ONE
                for c in g.ifs:
                    v = self.cond(c)
                    if v is None:
                        raise Unsupported('comprehension filter')
                    ok = T.and_(ok, v)
                if ok is ZERO:
                    continue
                if ok is not ONE:
                    raise Unsupported('comprehension filter')
                go(k + 1)
        go(0)

    def _child(self):
        I = self.I
        eid = I.alloc(EnvRec({}, self.env))
        fr = Frame(I, eid, self.mod, self.fun, self.qual)
        return fr

    def listcomp(self, e):
        fr = self._child()
        out = []
        try:
            fr.comp(e.generators, lambda: out.append(fr.ev(e.elt)))
            return out
        except SymComp as s:
            if len(e.generators) == 1 and not e.generators[0].ifs:
                info = self.I.lib.sym_iter(s.it)
                if info is not None:
                    n, jv, elem, start = info
                    self.I.event('loopstart', tag='map', n=n, j=jv)
                    fr.assign(e.generators[0].target, elem)
                    v = fr.ev(e.elt)
                    self.I.event('loopend', tag='map')
                    return SymSeq(n, jv, v)
            return None

    def ev_ListComp(self, e):
        r = self.listcomp(e)
        if r is None:
            return self.I.top('comprehension')
        if isinstance(r, SymSeq):
            return self.I.mklist((), r)
        return self.I.mklist(r)

    ev_SetComp = ev_ListComp

    def ev_GeneratorExp(self, e):
        r = self.listcomp(e)
        if r is None:
            return self.I.top('generator')
        if isinstance(r, SymSeq):
            return r
        return Tup(r)

    def ev_DictComp(self, e):
        fr = self._child()
        d = {}

        def emit():
            d[self.I.key(fr.ev(e.key))] = fr.ev(e.value)
        try:
            fr.comp(e.generators, emit)
        except SymComp:
            return self.I.top('dictcomp')
        return self.I.mkdict(d)


class SymComp(Exception):
    def __init__(self, g, it):
        self.g, self.it = g, it


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


# ------------------------------------------------------------------ shapes
def shape_vars(shape):
    """per axis list of index variables (right aligned numbering)"""
    nd = len(shape)
    return [[ix(('r', nd - 1 - i, j)) for j in range(len(d))] for i, d in enumerate(shape)]


def extent(d):
    p = ONE
    for c in d:
        p = T.mul(p, c)
    return p


def mkdim(p):
    """Poly -> dim (tuple of components)"""
    p = P(p)
    if p is ONE:
        return ()
    return (p,)


def solve_index(I, var, base):
    """solve I(var) == base for var.  returns (guard, solution) or None"""
    if I is T.atom(var):
        return ONE, base
    s = T.solve_lin(T.sub(I, base), var)
    if s is not None:
        return ONE, s
    a = T.single_atom(I)
    if a is not None and a.kind == 'B' and a.args[0] == 'enum':
        op, exts, bodies, outs, lvl = a.args
        (v,), (mask,) = T.open_binder(a)
        inner = solve_index(outs[0], var, T.rank(exts[0], v, mask, base))
        if inner is None:
            return None
        g = T.subst(mask, {v: base})
        return T.mul(g, inner[0]), inner[1]
    if a is not None and a.kind == 'arr' and 'perm' in T.ARR_PROP.get(a.args[0], ()):
        idx = a.args[1]
        if any(var in i.fv for i in idx[:-1]):
            return None
        pos = T.perminv(a.args[0], idx[:-1], base)
        inner = solve_index(idx[-1], var, pos)
        if inner is None:
            return None
        return inner
    return None
