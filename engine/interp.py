"""Symbolic interpreter of Python source: generates the proof obligations from the text of the functions as it is.

Loops over symbolic sequences are summarised by inferred invariants that are checked inductively (summarise);
branches are merged or explored; exceptions of the program are values (PyExc)."""
import ast
import os
import z3
from .vals import *
from .changes import Changes
from .ctx import *
from . import raw, seqs, text as T


class PyExc(Exception):
    """an exception of the interpreted program"""

    def __init__(self, cls, args=(), attrs=None):
        super().__init__(cls, args)
        self.cls, self.eargs, self.attrs = cls, tuple(args), dict(attrs or {})

    def __str__(self):
        return '%s%r' % (getattr(self.cls, '__name__', self.cls), self.eargs)


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Frame:
    def __init__(self, parent=None, module=None):
        self.vars, self.parent, self.module = {}, parent, module
        self.nonlocals, self.globals = set(), set()
        self.id = serial()
        self.frozen = False


class Closure:
    def __init__(self, node, frame, name, cls=None):
        self.node, self.frame, self.name, self.cls = node, frame, name, cls
        self.defaults, self.kwdefaults = [], {}

    def __repr__(self):
        return '<function %s>' % self.name


class Class:
    def __init__(self, name, frame, bases):
        self.name, self.frame, self.bases = name, frame, bases


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f
        self.__name__ = name

    def __repr__(self):
        return '<builtin %s>' % self.name


class TypeV:
    """a built-in type"""

    def __init__(self, name, f=None):
        self.__name__, self.f = name, f

    def __repr__(self):
        return '<type %s>' % self.__name__


class Bound:
    def __init__(self, obj, name, f):
        self.obj, self.name, self.f = obj, name, f


class ModuleV:
    def __init__(self, name, attrs=None, frame=None):
        self.name, self.attrs, self.frame = name, attrs or {}, frame


class SetV:
    def __init__(self, items):
        self.items = tuple(items)


class SliceV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Range:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


HOST_NAMES = set(dir(__import__('builtins')))
PYEXC = {n: getattr(__builtins__, n) if not isinstance(__builtins__, dict) else __builtins__[n] for n in (
    'Exception', 'BaseException', 'KeyError', 'ValueError', 'TypeError', 'IndexError', 'AttributeError', 'NameError',
    'OSError', 'IOError', 'RuntimeError', 'NotImplementedError', 'ZeroDivisionError', 'OverflowError', 'LookupError',
    'ArithmeticError', 'UnicodeDecodeError', 'UnicodeEncodeError', 'UnicodeError', 'StopIteration', 'FileNotFoundError',
    'AssertionError', 'EOFError', 'PermissionError', 'UserWarning', 'DeprecationWarning', 'Warning')}


def raise_py(name, *args):
    raise PyExc(PYEXC[name], args)


class Interp:
    def __init__(self, ctx, repo, verif):
        self.ctx, self.repo, self.verif = ctx, repo, verif
        self.trail = []
        self.modules = {}
        self.loading, self.static = 0, []
        self.changes_ = None
        self.depth = 0
        self.steps = 0
        self.trees = {}
        self.files = {}
        self.on_call = None        # hook: contract for a function (name -> handler)
        self.contracts = {}
        self.frozen_ok = False
        self.merge_dicts = False
        self.used = set()          # functions of the repository interpreted
        self.loops = []            # summarised loops (function, line, invariant kinds)
        self.cur = []
        self.raw = None
        self.alts = False
        self.PyExc, self.NoMerge, self.BreakX, self.ContinueX = PyExc, NoMerge, BreakX, ContinueX
        from . import lib
        self.lib = lib
        self.builtins = lib.make_builtins(self)

    def fresh_path(self):
        self.trail = []
        self.modules = {}
        self.depth = 0
        self.cur = []
        self.raw = None
        self.alts = False

    # ------------------------------------------------ journal
    def lasting(self, obj):
        """module variables, class attributes, default values and what they hold outlive a call: a function that changes
        them depends on what was called before, which its contract does not describe"""
        if not self.loading and any(a < obj.id <= b for a, b in self.static):
            raise Unsupported('change of something that outlives the call')

    def changes(self):
        if self.changes_ is None:
            self.changes_ = Changes(os.path.join(self.repo, 'pyuff'))
        return self.changes_

    def current(self, m, name, v):
        """the value a module starts with is the value now, if nothing changes it"""
        if not self.loading and m.name.partition('.')[0] == 'pyuff' and self.changes().of_name(name) and not isinstance(
                v, (ModuleV, ModuleLazy)):
            raise Unsupported('%s.%s, which some function changes' % (m.name, name))
        return v

    def unstated(self, o, name):
        """attribute of an object of whose other attributes the precondition says nothing"""
        m = self.class_attr(o.cls, name)
        if isinstance(m, Closure):
            return m
        if not self.changes().of_object(name):
            return m
        r = self.changes().initial(o.cls.name, name)
        if r is None or r[1] is None:
            raise Unsupported('attribute %s, which the precondition does not determine' % name)
        fr = Frame(o.cls.frame.parent, o.cls.frame.module)
        a = r[0].args
        if any(isinstance(x, ast.Name) and x.id not in [y.arg for y in a.args[:2]] and not (
                x.id in self.builtins or self.defined(fr.parent, x.id)) for x in ast.walk(r[1])):
            raise Unsupported('attribute %s, which the precondition does not determine' % name)
        fr.vars[a.args[0].arg] = o
        if len(a.args) > 1:
            fr.vars[a.args[1].arg] = o.attrs['_filename']
        v = self.eval(r[1], fr)
        if isinstance(v, (HObj, HDict, HList, Arr)):
            raise Unsupported('attribute %s, which the precondition does not determine' % name)
        return v

    def defined(self, fr, name):
        while fr is not None:
            if name in fr.vars:
                return True
            fr = fr.parent
        return False

    def setvar(self, frame, name, val):
        self.lasting(frame)
        self.trail.append((frame, 'v', name, frame.vars.get(name, None), name in frame.vars))
        frame.vars[name] = val

    def delvar(self, frame, name):
        self.lasting(frame)
        self.trail.append((frame, 'v', name, frame.vars.get(name, None), name in frame.vars))
        frame.vars.pop(name, None)

    def setfield(self, obj, field, val):
        if obj.frozen and not self.frozen_ok:
            raise Unsupported('change of an object that is one of many in a summarised loop')
        self.lasting(obj)
        self.trail.append((obj, 'f', field, getattr(obj, field), True))
        setattr(obj, field, val)

    def setattr_(self, obj, name, val):
        self.lasting(obj)
        self.trail.append((obj, 'a', name, obj.attrs.get(name), name in obj.attrs))
        obj.attrs[name] = val

    def get_loc(self, loc):
        obj, kind, name = loc
        if kind == 'v':
            return obj.vars[name] if name in obj.vars else Undef('unbound')
        if kind == 'a':
            return obj.attrs[name] if name in obj.attrs else Undef('unbound')
        return getattr(obj, name)

    def set_loc(self, loc, val):
        obj, kind, name = loc
        if kind == 'v':
            if isinstance(val, Undef) and val.why == 'unbound':
                self.delvar(obj, name)
            else:
                self.setvar(obj, name, val)
        elif kind == 'a':
            self.setattr_(obj, name, val)
        else:
            self.frozen_ok, o = True, self.frozen_ok
            try:
                self.setfield(obj, name, val)
            finally:
                self.frozen_ok = o

    def rollback(self, mark, maxid=None):
        """undo the changes since mark, of objects that existed at serial maxid (all if None)."""
        while len(self.trail) > mark:
            obj, kind, name, old, had = self.trail.pop()
            if maxid is not None and obj.id > maxid:
                continue
            if kind == 'v':
                if had:
                    obj.vars[name] = old
                else:
                    obj.vars.pop(name, None)
            elif kind == 'a':
                if had:
                    obj.attrs[name] = old
                else:
                    obj.attrs.pop(name, None)
            else:
                setattr(obj, name, old)

    def touched(self, mark, maxid):
        out, seen = [], set()
        for obj, kind, name, _, _ in self.trail[mark:]:
            if obj.id > maxid:
                continue
            k = (id(obj), kind, name)
            if k not in seen:
                seen.add(k)
                out.append((obj, kind, name))
        return out

    # ------------------------------------------------ modules
    def module_file(self, name):
        parts = name.split('.')
        root = self.repo if parts[0] == 'pyuff' else self.verif if parts[0] == 'contracts' else None
        if root is None:
            return None
        p = os.path.join(root, *parts)
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        m = self.lib.native_module(self, name)
        if m is not None:
            self.modules[name] = m
            return m
        path = self.module_file(name)
        if path is None or not os.path.exists(path):
            m = ModuleV(name, {'__opaque__': True})
            self.modules[name] = m
            return m
        if path not in self.trees:
            with open(path, encoding='utf-8') as f:
                self.trees[path] = ast.parse(f.read(), path)
        first = serial()
        self.loading += 1
        fr = Frame(None, None)
        m = ModuleV(name, None, fr)
        fr.module = m
        fr.vars['__name__'] = name
        self.modules[name] = m
        mark = len(self.trail)
        try:
            self.exec_module(self.trees[path], fr, name, path.endswith('__init__.py'))
        finally:
            self.loading -= 1
            self.static.append((first, serial()))
        del self.trail[mark:]       # a module stays loaded
        return m

    def exec_module(self, tree, fr, name, is_pkg):
        fr.pkg = name if is_pkg else name.rpartition('.')[0]
        for st in tree.body:
            if isinstance(st, ast.If) and isinstance(st.test, ast.Compare):
                continue        # if __name__ == '__main__'
            if isinstance(st, ast.Expr):
                continue        # documentation, warnings.simplefilter(...)
            self.exec(st, fr)

    def mod_attr(self, m, name):
        if m.frame is not None:
            if name in m.frame.vars:
                return self.current(m, name, m.frame.vars[name])
            f = self.module_file(m.name + '.' + name)
            if f and os.path.exists(f):
                return self.load(m.name + '.' + name)
            raise_py('AttributeError', name)
        if name in m.attrs:
            return m.attrs[name]
        if '__opaque__' in m.attrs:
            raise Unsupported('%s.%s' % (m.name, name))
        sub = self.lib.native_module(self, m.name + '.' + name)
        if sub is not None:
            return sub
        raise Unsupported('%s.%s is not modelled' % (m.name, name))

    def func(self, dotted):
        mod, _, fn = dotted.rpartition('.')
        m = self.load(mod)
        return self.mod_attr(m, fn)

    # ------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, Closure):
            return self.call_closure(f, list(args), kw)
        if isinstance(f, Builtin):
            return f.f(self, list(args), kw)
        if isinstance(f, TypeV):
            if f.f is None:
                raise Unsupported('call of type %s' % f.__name__)
            return f.f(self, list(args), kw)
        if isinstance(f, Bound):
            if isinstance(f.f, Closure):
                return self.call_closure(f.f, [f.obj] + list(args), kw)
            return f.f(self, f.obj, list(args), kw)
        if isinstance(f, Class):
            o = HObj(f)
            init = self.class_attr(f, '__init__')
            if init is not None:
                self.call_closure(init, [o] + list(args), kw)
            return o
        if isinstance(f, type) and issubclass(f, BaseException):
            return PyExc(f, args)
        raise Unsupported('call of %r' % (f,))

    def class_attr(self, c, name):
        if name in c.frame.vars:
            return c.frame.vars[name]
        for b in c.bases:
            if isinstance(b, Class):
                r = self.class_attr(b, name)
                if r is not None:
                    return r
        return None

    def call_closure(self, f, args, kw):
        qn = f.name
        h = self.contracts.get(qn)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion too deep')
        try:
            fr = Frame(f.frame, f.frame.module if f.frame else None)
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if len(args) > len(names):
                if a.vararg is None:
                    raise_py('TypeError', 'too many positional arguments')
                fr.vars[a.vararg.arg] = STuple(Seq([Items(args[len(names):])]))
                args = args[:len(names)]
            elif a.vararg is not None:
                fr.vars[a.vararg.arg] = STuple(Seq([]))
            for n, v in zip(names, args):
                fr.vars[n] = v
            kw = dict(kw)
            rest = names[len(args):]
            nd = len(f.defaults)
            for n in rest:
                if n in kw:
                    fr.vars[n] = kw.pop(n)
                else:
                    k = names.index(n) - (len(names) - nd)
                    if k < 0:
                        raise_py('TypeError', 'missing argument %s' % n)
                    fr.vars[n] = f.defaults[k]
            for x in a.kwonlyargs:
                if x.arg in kw:
                    fr.vars[x.arg] = kw.pop(x.arg)
                elif x.arg in f.kwdefaults:
                    fr.vars[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise_py('TypeError', 'missing argument %s' % x.arg)
            if kw:
                if a.kwarg is None:
                    raise_py('TypeError', 'unexpected keyword argument %s' % sorted(kw)[0])
                fr.vars[a.kwarg.arg] = HDict([(k, True, v) for k, v in kw.items()])
            elif a.kwarg is not None:
                fr.vars[a.kwarg.arg] = HDict()
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if f.frame is not None and f.frame.module is not None and f.frame.module.name.startswith('pyuff'):
                self.used.add(f.frame.module.name + '.' + f.name)
            self.cur.append(f.name)
            try:
                self.block(f.node.body, fr)
            except ReturnX as r:
                return r.v
            finally:
                self.cur.pop()
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------ names
    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Undef):
                    return self.resolve_undef(v, lambda x: self.setvar(f, name, x))
                if f.parent is None and f.module is not None and f.module.frame is f:
                    return self.current(f.module, name, v)
                return v
            f = f.parent
        if name in self.builtins:
            return self.builtins[name]
        if name in PYEXC:
            return PYEXC[name]
        if name in HOST_NAMES:
            raise Unsupported('built-in %s' % name)
        raise_py('NameError', name)

    def resolve_undef(self, v, store):
        if v.n is None:
            raise Unsupported('use of a value that is not determined (%s)' % v.why)
        if self.ctx.decide(mkbool(v.n >= 1)):
            store(v.value)
            if isinstance(v.value, Undef):
                raise Unsupported('use of a value that is not determined (%s)' % v.why)
            return v.value
        store(v.init)
        if isinstance(v.init, Undef):
            if v.init.n is not None:
                return self.resolve_undef(v.init, store)
            raise_py('NameError', 'unbound')
        return v.init

    def assign_name(self, fr, name, val):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.vars:
                f = f.parent
        elif name in fr.globals:
            while f.parent is not None:
                f = f.parent
        elif getattr(fr, 'comp', False) and False:
            pass
        self.setvar(f, name, val)

    # ------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps & 255 == 0 and self.ctx.deadline:
            import time
            if time.time() > self.ctx.deadline:
                raise Unsupported('time budget of the verification run exhausted')
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        if self.alts and isinstance(st, JOINED):
            return self.joined(lambda: m(st, fr))
        return m(st, fr)

    # ------------------------------------------------ values of several kinds (F06)
    def force(self, v):
        """the one of the alternatives that it is on this path"""
        while type(v) in (Alt, NpElt):
            if type(v) is NpElt:
                v = v.v
                continue
            for c, x in v.alts[:-1]:
                if self.ctx.decide(c):
                    break
            else:
                c, x = v.alts[-1]
                self.ctx.assume(c)
            v = x
        return v

    def joined(self, run):
        """a statement whose paths are joined after it: the paths it takes are explored here; what they change becomes a value
        that depends on their conditions"""
        ctx = self.ctx
        mark, maxid = len(self.trail), seqs_serial()
        ends, dec = [], []
        while True:
            ctx.push([], 'join')
            sc = ctx.scopes[-1]
            sc.dec, sc.pos, sc.conds = dec, 0, []
            depth = len(ctx.scopes) - 1
            end, keep = None, False
            try:
                try:
                    run()
                    dead = False
                except (PyExc, ReturnX, BreakX, ContinueX) as e:
                    end, dead = e, False
                except Infeasible:
                    dead = True
                dec = list(sc.dec[:sc.pos])
                keep = not dec and not ends and not dead
                facts = [a for a, lev, dep in ctx.assm_depth if lev == depth] if keep else []
                feas = keep or not dead and ctx.feasible()
                conds = z3.And(list(sc.conds))
                changes = [(l, self.get_loc(l)) for l in self.touched(mark, maxid)] if feas and not keep else []
            finally:
                ctx.pop()
                if not keep:
                    self.rollback(mark, maxid)
            if keep:
                for a in facts:
                    ctx.assume(a)
                if end is not None:
                    raise end
                return
            if feas:
                ends.append((conds, end, changes))
            while dec and dec[-1] is False:
                dec.pop()
            if not dec:
                break
            dec[-1] = False
        if not ends:
            raise Infeasible()
        if any(isinstance(e, (ReturnX, BreakX, ContinueX)) for _, e, _ in ends):
            return run()
        bad = [c for c, e, _ in ends if e is not None]
        if bad:
            if len(bad) == len(ends) or ctx.decide(mkbool(z3.Or(bad))):
                return run()
            ends = [x for x in ends if x[1] is None]
        order, vals = [], {}
        for k, (_, _, ch) in enumerate(ends):
            for l, v in ch:
                if lkey(l) not in vals:
                    vals[lkey(l)] = [(self.get_loc(l),)] * len(ends)
                    order.append(l)
                vals[lkey(l)][k] = (v,)
        news = []
        for l in order:
            vs = [v for v, in vals[lkey(l)]]
            if l[1] == 'v' and any(isinstance(v, Undef) for v in vs):
                if not all(v is vs[0] for v in vs):
                    news.append((l, Undef('differs between paths')))
                continue
            new = vs[-1]
            try:
                for (c, _, _), v in list(zip(ends, vs))[-2::-1]:
                    new = self.merge(c, v, new, l)
            except NoMerge:
                if l[1] != 'v':
                    return run()
                new = Alt([(c, v) for (c, _, _), v in zip(ends, vs)])
            news.append((l, new))
        for l, v in news:
            self.set_loc(l, v)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Return(self, st, fr):
        raise ReturnX(self.eval(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr):
        raise BreakX()

    def x_Continue(self, st, fr):
        raise ContinueX()

    def x_Global(self, st, fr):
        fr.globals.update(st.names)

    def x_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def x_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise_py('AssertionError')

    def x_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                self.setvar(fr, a.asname, self.load(a.name))
            else:
                top = a.name.split('.')[0]
                self.setvar(fr, top, self.load(top) if top != 'pyuff' else ModuleLazy(self, 'pyuff'))

    def x_ImportFrom(self, st, fr):
        if st.level:
            f = fr
            while f.parent is not None:
                f = f.parent
            pkg = f.pkg.split('.')
            pkg = pkg[:len(pkg) - (st.level - 1)]
            name = '.'.join(pkg + ([st.module] if st.module else []))
        else:
            name = st.module
        m = self.load(name)
        for a in st.names:
            if a.name == '*':
                src = m.frame.vars if m.frame is not None else m.attrs
                for k, v in src.items():
                    if not k.startswith('_'):
                        self.setvar(fr, k, v)
            else:
                try:
                    v = self.mod_attr(m, a.name)
                except (Unsupported, PyExc):
                    v = Undef('import %s.%s' % (name, a.name))
                self.setvar(fr, a.asname or a.name, v)

    def x_FunctionDef(self, st, fr):
        c = Closure(st, fr, st.name)
        c.defaults = [self.eval(d, fr) for d in st.args.defaults]
        c.kwdefaults = {a.arg: self.eval(d, fr) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        v = c
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('staticmethod',):
                v.static = True
                continue
            raise Unsupported('decorator')
        self.setvar(fr, st.name, v)

    def x_ClassDef(self, st, fr):
        bases = [self.eval(b, fr) for b in st.bases]
        cf = Frame(fr, fr.module)
        c = Class(st.name, cf, bases)
        for s in st.body:
            self.exec(s, cf)
        # methods close over the module, not the class body
        for k, v in cf.vars.items():
            if isinstance(v, Closure):
                v.frame = fr
                v.cls = c
                v.name = st.name + '.' + v.name
        self.setvar(fr, st.name, c)

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            new = self.lib.binop(self, type(st.op).__name__, cur, self.eval(st.value, fr), inplace=True)
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            new = self.lib.binop(self, type(st.op).__name__, self.getattr(o, t.attr), self.eval(st.value, fr), inplace=True)
            self.set_attr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            new = self.lib.binop(self, type(st.op).__name__, self.lib.getitem(self, o, i), self.eval(st.value, fr), inplace=True)
            self.lib.setitem(self, o, i, new)
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            for e, x in zip(t.elts, self.lib.unpack(self, v, len(t.elts))):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.lib.setitem(self, o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def set_attr(self, o, name, v):
        if isinstance(o, HObj):
            self.setattr_(o, name, v)
        else:
            raise Unsupported('attribute assignment on %r' % (o,))

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.vars:
                    raise_py('NameError', t.id)
                self.delvar(fr, t.id)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr))
            else:
                raise Unsupported('del')

    def x_Raise(self, st, fr):
        if st.exc is None:
            if not self.handling:
                raise Unsupported('raise without exception')
            raise self.handling[-1]
        e = self.eval(st.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = PyExc(e, ())
        if isinstance(e, Class):
            e = PyExc(e, ())
        if isinstance(e, PyExc):
            raise PyExc(e.cls, e.eargs, e.attrs)
        raise Unsupported('raise %r' % (e,))

    handling = ()

    def exc_match(self, e, t):
        if t is None:
            return True
        if isinstance(t, STuple):
            return any(self.exc_match(e, x) for x in self.lib.items(self, t))
        if isinstance(t, type) and isinstance(e.cls, type):
            return issubclass(e.cls, t)
        if isinstance(t, type) and isinstance(e.cls, Class):
            return t in (Exception, BaseException)
        return e.cls is t

    def x_Try(self, st, fr):
        def fin():
            if st.finalbody:
                self.block(st.finalbody, fr)
        try:
            try:
                self.block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    t = self.eval(h.type, fr) if h.type is not None else None
                    if self.exc_match(e, t):
                        if h.name:
                            self.setvar(fr, h.name, e)
                        old = self.handling
                        self.handling = tuple(old) + (e,)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                if st.orelse:
                    self.block(st.orelse, fr)
        except (PyExc, ReturnX, BreakX, ContinueX):
            fin()
            raise
        fin()

    def x_With(self, st, fr):
        objs = []
        for it in st.items:
            o = self.eval(it.context_expr, fr)
            objs.append(o)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, o, fr)
        def close():
            for o in reversed(objs):
                self.call(self.getattr(o, 'close'), [])
        try:
            self.block(st.body, fr)
        except (PyExc, ReturnX, BreakX, ContinueX):
            close()
            raise
        close()

    # ------------------------------------------------ branches
    def truth(self, v, decide=True):
        t = self.lib.truth(self, v)
        if isinstance(t, bool):
            return t
        if not decide:
            return t
        return self.ctx.decide(t)

    def x_Match(self, st, fr):
        s = self.force(self.eval(st.subject, fr))
        for case in st.cases:
            if self.matches(case.pattern, s, fr) and (
                    case.guard is None or self.decided(self.lib.truth(self, self.eval(case.guard, fr)))):
                self.block(case.body, fr)
                return

    def decided(self, c):
        return self.ctx.decide(c.e) if isinstance(c, SBool) else bool(c)

    def matches(self, p, s, fr):
        if isinstance(p, ast.MatchValue):
            return self.decided(self.lib.truth(self, self.lib.compare(self, 'Eq', s, self.eval(p.value, fr))))
        if isinstance(p, ast.MatchSingleton):
            if isinstance(p.value, bool) and isinstance(s, SBool):
                return self.decided(s) is p.value
            return s is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, s, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, s, fr):
                return False
            if p.name is not None:
                self.assign(ast.copy_location(ast.Name(id=p.name, ctx=ast.Store()), p), s, fr)
            return True
        raise Unsupported('pattern %s' % type(p).__name__)

    def x_If(self, st, fr):
        c = self.lib.truth(self, self.eval(st.test, fr))
        if isinstance(c, SBool):
            if self.ctx.prove(c.e):
                c = True
            elif self.ctx.prove(z3.Not(c.e)):
                c = False
        if isinstance(c, bool):
            self.block(st.body if c else st.orelse, fr)
            return
        try:
            self.merge_branches(c.e, lambda: self.block(st.body, fr), lambda: self.block(st.orelse, fr))
            return
        except NoMerge:
            pass
        if self.ctx.decide(c.e):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def merge_branches(self, cond, f1, f2):
        mark, maxid = len(self.trail), seqs_serial()
        ends = []
        for c, f in ((cond, f1), (z3.Not(cond), f2)):
            self.ctx.push([], 'branch')
            try:
                self.ctx.assume(c)
                f()
                locs = self.touched(mark, maxid)
                ends.append([(l, self.get_loc(l)) for l in locs])
            except (PyExc, ReturnX, BreakX, ContinueX):
                raise NoMerge()
            except (Unsupported, NoMerge):
                raise NoMerge()
            finally:
                self.ctx.pop()
                self.rollback(mark, maxid)
        keys, order = {}, []
        for k, es in enumerate(ends):
            for l, v in es:
                q = (id(l[0]), l[1], l[2])
                if q not in keys:
                    keys[q] = [l, None, None]
                    order.append(q)
                keys[q][1 + k] = (v,)
        news = []
        for q in order:
            l, a, b = keys[q]
            cur = self.get_loc(l)
            va = a[0] if a else cur
            vb = b[0] if b else cur
            news.append((l, self.merge(cond, va, vb, l)))
        for l, v in news:
            self.set_loc(l, v)

    def merge(self, c, a, b, loc=None):
        """if c then a else b (NoMerge when that has no representation)."""
        if a is b:
            return a
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise NoMerge()
        if type(a) is Alt or type(b) is Alt:
            return Alt([(c, a), (z3.Not(c), b)])
        conc = (bool, int, float, str, bytes, complex)
        if isinstance(a, conc) and isinstance(b, conc) and type(a) is type(b) and a == b:
            return a
        if loc is not None and loc[2] == 'entries':
            return self.merge_entries(c, a, b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(z3.If(c, zb(a), zb(b)))
        if is_num(a) and is_num(b) and not isinstance(a, Quot) and not isinstance(b, Quot):
            if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
                return mkreal(z3.If(c, zr(a), zr(b)))
            return mkint(z3.If(c, zi(a), zi(b)))
        if isinstance(a, (SCplx, complex)) and isinstance(b, (SCplx, complex)):
            re1, im1 = self.lib.cparts(a)
            re2, im2 = self.lib.cparts(b)
            return SCplx(self.merge(c, re1, re2), self.merge(c, im1, im2))
        if is_text(a) and is_text(b):
            ea, eb = self.lib.atom_of(a), self.lib.atom_of(b)
            if ea is not None and eb is not None and isinstance(a, bytes) == isinstance(b, bytes):
                return Text([FAtom(0, '<', z3.If(c, ea, eb))], False)
            raise NoMerge()
        if isinstance(a, Seq) and isinstance(b, Seq):
            try:
                la, lb = seqs.seq_len(self.ctx, a), seqs.seq_len(self.ctx, b)
                if not self.ctx.prove(zi(la) == zi(lb)):
                    raise NoMerge()
                return seqs.zip_seq(self.ctx, [a, b], lambda x, y: self.merge(c, x, y))
            except (Unsupported, seqs.Misaligned):
                raise NoMerge()
        if type(a) is type(b) and isinstance(a, HList):
            return HList(self.merge(c, a.seq, b.seq))
        if type(a) is type(b) and isinstance(a, HDict) and self.merge_dicts:
            b.frozen = True
            return froz(HDict(self.merge_entries(c, a.entries, b.entries)), a)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.nd == b.nd and a.dt == b.dt:
            return Arr(self.merge(c, a.seq, b.seq), a.dt, a.nd)
        raise NoMerge()

    def merge_entries(self, c, ea, eb):
        def keyed(e):
            # integer keys by their terms; different terms must be different integers
            q = [(('int', z3.simplify(zi(k)).sexpr()) if isinstance(k, (int, SInt)) else k, k, p, v) for k, p, v in e]
            return [x[0] for x in q], {x[0]: x[2:] for x in q}, {x[0]: x[1] for x in q}
        na, da, ka = keyed(ea)
        nb, db, kb = keyed(eb)
        for x in nb:
            if x in da:
                if type(x) is KeyGroup and not self.ctx.prove(ka[x].n == kb[x].n):
                    raise NoMerge()
                continue
            for y in na:
                if (type(x) is KeyGroup or isinstance(kb[x], (int, SInt))) and \
                        (type(y) is KeyGroup or isinstance(ka[y], (int, SInt))):
                    if type(x) is KeyGroup and type(y) is KeyGroup:
                        raise NoMerge()
                    if self.lib.key_eq(self, *((ka[y], kb[x]) if type(y) is KeyGroup else (kb[x], ka[y]))) is not False:
                        raise NoMerge()
        ks = {**kb, **ka}
        out = []
        for k in na + [k for k in nb if k not in da]:
            pa, va = da.get(k, (False, None))
            pb, vb = db.get(k, (False, None))
            if pa is pb and va is vb:
                out.append((ks[k], pa, va))
                continue
            if type(k) is KeyGroup and (pa is not True or pb is not True):
                raise NoMerge()
            if pa is False:
                v = vb
            elif pb is False:
                v = va
            else:
                # the value of a branch in which the key is certainly absent is irrelevant
                v = self.merge(c, va, vb)
            zp = z3.simplify(z3.If(c, _pz(pa), _pz(pb)))
            if self.ctx.prove(zp):
                zp = True
            out.append((ks[k], zp, v))
        return tuple(out)

    # ------------------------------------------------ loops
    def x_For(self, st, fr):
        it = self.eval(st.iter, fr)
        if isinstance(it, HObj) and it.cls == 'iter' and any(isinstance(x, ast.Name) and x.id == 'next' for b in st.body for x in ast.walk(b)):
            return self.for_iter(st, fr, it)
        seq = self.lib.iter_seq(self, it)

        def body(v):
            def turn():
                self.assign(st.target, v, fr)
                try:
                    self.block(st.body, fr)
                except ContinueX:
                    pass
            self.joined(turn) if self.alts else turn()
        try:
            self.run_pieces(seq, body, st)
        except BreakX:
            return
        if st.orelse:
            self.block(st.orelse, fr)

    def for_iter(self, st, fr, it):
        """a loop over an iterator whose body takes further values from it"""
        ctx = self.ctx
        stuck = 0

        def test():
            n = seqs.seq_len(ctx, it.attrs['seq'])
            return n >= 1 if isinstance(n, int) else mkbool(zi(n) >= 1)

        def once():
            v = self.lib.b_next(self, [it], {})
            self.assign(st.target, v, fr)
            try:
                self.block(st.body, fr)
            except ContinueX:
                pass
        leaves = any(isinstance(x, ast.Break) for x in ast.walk(st))
        for _ in range(400):
            c = test()
            if isinstance(c, SBool) and ctx.prove(z3.Not(c.e)):
                c = False
            if c is False:
                if st.orelse:
                    self.block(st.orelse, fr)
                return
            if not leaves and self.try_consume(st, (it, 'a', 'seq'), lambda s: s, lambda v: v, once, test):
                stuck = 0
                continue
            if isinstance(c, SBool):
                stuck += 1
                if stuck > 40:
                    break
                if not ctx.decide(c.e):
                    continue
            try:
                once()
            except BreakX:
                return
        raise Unsupported('loop over an iterator without bound')

    def consumed(self, st, fr, once, test):
        """a list that the loop takes from the front, by name in its condition"""
        for x in ast.walk(st.test):
            v = fr.vars.get(x.id) if isinstance(x, ast.Name) else None
            if not isinstance(v, HList):
                continue
            bound = any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) for b in st.body for y in ast.walk(b))
            if bound:
                if self.try_consume(st, (fr, 'v', x.id), HList, lambda v: v.seq if isinstance(v, HList) else None, once, test):
                    return True
            elif any(self.takes(y, x.id) for b in st.body for y in ast.walk(b)) and \
                    self.try_consume(st, (v, 'f', 'seq'), lambda s: s, lambda v: v, once, test):
                return True
        return False

    @staticmethod
    def takes(node, name):
        """node may remove values from the list called name"""
        def named(x):
            return isinstance(x, ast.Name) and x.id == name
        if isinstance(node, ast.Delete):
            return any(isinstance(t, ast.Subscript) and named(t.value) for t in node.targets)
        if not isinstance(node, ast.Call):
            return False
        f = node.func
        if isinstance(f, ast.Attribute) and named(f.value):
            return f.attr in ('pop', 'remove', 'popleft', '__delitem__')
        if isinstance(f, ast.Name) and f.id in ('len', 'range', 'enumerate', 'iter', 'list', 'tuple', 'any', 'all', 'sum', 'min', 'max'):
            return False
        return any(named(a) for a in node.args)

    def try_consume(self, st, loc, wrap, unwrap, once, test, nested=False):
        """a sequence taken from the front: after k groups it starts with its k-th group"""
        ctx = self.ctx
        seq = unwrap(self.get_loc(loc))
        pieces = [p for p in seq.pieces if not (isinstance(p, Items) and not p.v)]
        g = self.gen_at(Seq(pieces), 0, nested) if pieces else None
        if g is None or not any(p is g or isinstance(p, Gen) and p.j is g.j for p in pieces[:1]):
            return False
        post = pieces[1:]
        j = fresh_int('wh')
        n = g.n
        seqs.off(ctx, g, z3.IntVal(1))
        states = {}

        def state(k):
            k = z3.simplify(z3.IntVal(k) if isinstance(k, int) else k)
            if k.sexpr() not in states:
                states[k.sexpr()] = wrap(Seq([seqs.shift(g, k, z3.simplify(n - k))] + post))
            return states[k.sexpr()]

        def step(_):
            rest = seqs.shift(g, z3.simplify(j + 1), z3.simplify(n - j - 1))
            here = list(seqs.parts_seq(self.settle(seqs.group_at(g, j))).pieces)
            self.set_loc(loc, wrap(Seq(here + [rest] + post)))
            for _i in range(64):
                v = self.get_loc(loc)
                s = unwrap(v)
                if s is None:
                    raise Unsupported('the sequence is replaced')
                ps = [p for p in s.pieces if not (isinstance(p, Items) and not p.v) and
                      not (isinstance(p, Gen) and p.j is not rest.j and ctx.prove(p.n <= 0))]
                if ps and isinstance(ps[0], Gen) and ps[0].j is rest.j and repr(ps) == repr([rest] + post):
                    self.set_loc(loc, state(j + 1))
                    return
                if not any(isinstance(p, Gen) and p.j is rest.j and repr(p) == repr(rest) for p in ps):
                    raise Unsupported('the sequence leaves the group')
                if isinstance(ps[0], Gen) and self.try_consume(st, loc, wrap, unwrap, once, test, True):
                    continue
                if not ctx.prove(zb(test())):
                    if not ctx.decide(zb(test())):
                        raise Unsupported('loop condition inside a group')
                once()
            raise Unsupported('group too long')
        mark = len(self.trail)
        try:
            self.summarise(n, j, step, set(), st, None, None, {lkey(loc): state}, True)
            return True
        except (Unsupported, NoMerge, PyExc) as e:
            self.rollback(mark)
            if os.environ.get('VDEBUG'):
                print('CONSUME', getattr(st, 'lineno', '?'), loc[2], type(e).__name__, e)
            return False

    def run_pieces(self, seq, body, node):
        for p in seq.pieces:
            if isinstance(p, Items):
                for v in p.v:
                    body(v)
            elif isinstance(p, Gen):
                self.run_gen(p, body, node)
            else:
                raise Unsupported('iteration over %r' % (p,))

    def run_group(self, parts, body, node):
        for x in parts:
            if isinstance(x, Splice):
                self.run_pieces(x.seq, body, node)
            else:
                body(x)

    def run_gen(self, g, body, node):
        n = z3.simplify(g.n)
        for k in range(0, 9):
            if z3.is_int_value(n):
                break
            if self.ctx.prove(n == k):
                n = z3.IntVal(k)
        if z3.is_int_value(n):
            for q in range(n.as_long()):
                self.run_group(seqs.group_at(g, q), body, node)
            return
        if self.ctx.prove(z3.And(n >= 0, n <= 1)):
            # a group that is there or not
            if self.ctx.decide(n >= 1):
                self.run_group(seqs.group_at(g, 0), body, node)
            return
        own = set()
        for x in g.parts:
            collect_ids(x, own)

        def run(j):
            if j is None:
                self.run_group(g.parts, body, node)
            else:
                self.run_group([subst(x, [(g.j, j)]) for x in g.parts], body, node)
        try:
            self.summarise(n, g.j, run, own, node, lambda: seqs.shift(g, 1, n - 1), body)
        except T.NeedGroup as e:
            if not e.j.eq(g.j) or e.k < 2 or e.k > 64:
                raise
            q, r = T.divmod_const(self.ctx, n, e.k)
            if not self.ctx.prove(q >= 0):
                raise
            jq = fresh_int('gr')
            big = seqs.Gen(q, jq, [subst(x, [(g.j, e.k * jq + i)]) for i in range(e.k) for x in g.parts])
            self.run_gen(big, body, node)
            for i in range(r):
                self.run_group([subst(x, [(g.j, e.k * q + i)]) for x in g.parts], body, node)

    def summarise(self, n, j, run, own, node, rest=None, body=None, cursors=None, peeled=False):
        """effect of the loop `for 0 <= j < n: run(None)` whose body is generic in j.

        Invariants are guessed per written location and checked for every j (base case: the guess at 0 is the value on
        entry; step: the body takes the guess at j to the guess at j+1)."""
        ctx = self.ctx
        mark, maxid = len(self.trail), seqs_serial()
        n0 = z3.IntVal(0)
        rng = z3.And(j >= 0, j < n)
        # discovery, at j == 0
        err = None
        ctx.push([j], 'trial')
        locs, ends = [], {}
        try:
            ctx.assume(rng)
            ctx.assume(j == 0)
            if not ctx.feasible():
                return
            run(None)
        except (PyExc, ReturnX, BreakX, Unsupported) as e:
            err = e
        finally:
            locs = self.touched(mark, maxid)
            for l in locs:
                ends[lkey(l)] = self.get_loc(l)
            ctx.pop()
            self.rollback(mark)
        hyp = {}

        def guess(l):
            init = self.get_loc(l)
            end = ends.get(lkey(l), init)
            if cursors and lkey(l) in cursors:
                return ('cursor', init, cursors[lkey(l)])
            if id(l[0]) in own:
                return ('own', init)
            if isinstance(init, Undef):
                return ('temp', init)
            if same(init, end):
                return ('const', init)
            if is_text(init) and is_text(end) and has_prefix(end, init):
                return ('text', init, fresh_name('h'))
            if isinstance(init, Seq) and isinstance(end, Seq) and l[2] == 'seq' and seq_prefix(end, init):
                return ('seq', init, fresh_name('h'))
            if stored(ctx, l, init, end):
                return ('store', init, fresh_name('h'))
            if isinstance(init, (int, SInt)) and not isinstance(init, bool) and isinstance(end, (int, SInt)):
                d = z3.simplify(zi(end) - zi(init))
                if j.decl().name() not in free_consts(d) and z3.is_int_value(d):
                    return ('lin', init, d.as_long())
                return ('sum', init, fresh_int('sm'))
            if l[2] == 'entries' and new_key(ctx, init, end, j) is not None:
                return ('kgroup', init, new_key(ctx, init, end, j))
            if l[2] == 'entries':
                return ('entries', init, changed_keys(init, end))
            return ('temp', init)

        order = []
        for l in locs:
            order.append(l)
            hyp[lkey(l)] = guess(l)
        for rnd in range(24):
            paths = []
            dec = []
            redo = False
            while True:
                ctx.push([j], 'loop')
                sc = ctx.scopes[-1]
                sc.dec, sc.pos, sc.conds = dec, 0, []
                m2 = len(self.trail)
                bad = None
                try:
                    ctx.assume(rng)
                    feas = ctx.feasible()
                    out = {}
                    if feas:
                        for l in order:
                            self.start_value(l, hyp[lkey(l)], j)
                        try:
                            run(None)
                            exc = None
                        except (PyExc, BreakX, ReturnX) as e:
                            exc = e
                        except Unsupported as e:
                            if not isinstance(e, LoopDep) or True:
                                exc = None
                                bad = e
                        if ctx.feasible():
                            new = [l for l in self.touched(m2, maxid) if lkey(l) not in hyp]
                            for l in new:
                                redo = True
                            if not redo and bad is None and exc is None:
                                for l in order:
                                    e = self.get_loc(l)
                                    ok, val = self.check_step(l, hyp[lkey(l)], e, j)
                                    if not ok:
                                        nh = self.weaken(l, hyp[lkey(l)], e, j)
                                        if hyp[lkey(l)][0] == 'entries':
                                            ks = changed_keys(hyp[lkey(l)][1], e) | hyp[lkey(l)][2]
                                            if ks != hyp[lkey(l)][2] and len(e) == len(hyp[lkey(l)][1]):
                                                nh = hyp[lkey(l)][:2] + (ks,)
                                        if nh is None:
                                            bad = Unsupported('loop at line %s: no invariant found for %s' % (
                                                getattr(node, 'lineno', '?'), l[2]))
                                        else:
                                            hyp[lkey(l)] = nh
                                            redo = True
                                    out[lkey(l)] = val
                            elif redo:
                                pass
                            paths.append((list(sc.conds), out, exc))
                        else:
                            bad = None
                    dec = list(sc.dec[:sc.pos])
                finally:
                    newlocs = [l for l in self.touched(m2, maxid) if lkey(l) not in hyp]
                    for l in newlocs:
                        ends.setdefault(lkey(l), self.get_loc(l))
                    ctx.pop()
                    self.rollback(m2, maxid)
                for l in newlocs:
                    # guess from the value on entry only: refined by weakening
                    order.append(l)
                    hyp[lkey(l)] = guess(l)
                    redo = True
                if redo:
                    break
                if bad is not None:
                    break
                while dec and dec[-1] is False:
                    dec.pop()
                if not dec:
                    break
                dec[-1] = False
            if redo:
                continue
            break
        else:
            bad = Unsupported('no invariant found')
        if isinstance(bad, T.NeedGroup) and bad.j.eq(j):
            raise bad
        if os.environ.get('VDEBUG') and (bad is not None or any(p[2] is not None for p in paths)):
            print('LOOP', getattr(node, 'lineno', '?'), 'peeled' if peeled else '', bad, [p[2] for p in paths],
                  [(l[2], hyp[lkey(l)][0]) for l in order], 'discovery', err, 'paths', [p[0] for p in paths])
        if bad is not None or any(p[2] is not None for p in paths):
            if not peeled and rest is not None and body is not None:
                # first iteration by itself
                if not ctx.decide(mkbool(n >= 1)):
                    return
                run(n0)
                g2 = rest()
                own2 = set()
                for x in g2.parts:
                    collect_ids(x, own2)
                if ctx.prove(g2.n == 0):
                    return

                def run2(jj):
                    self.run_group(g2.parts if jj is None else [subst(x, [(g2.j, jj)]) for x in g2.parts], body, node)
                return self.summarise(g2.n, g2.j, run2, own2, node, None, None, cursors, True)
            if bad is not None:
                raise bad
            exc = [p for p in paths if p[2] is not None]
            if len(paths) == 1 and not paths[0][0]:
                if ctx.decide(mkbool(n >= 1)):
                    e = exc[0][2]
                    if isinstance(e, PyExc):
                        raise PyExc(e.cls, [a if isinstance(a, (str, int)) else 'value' for a in e.eargs])
                    raise Unsupported('break or return in a summarised loop')
                return
            if not all(isinstance(p[2], PyExc) for p in exc):
                raise Unsupported('break or return in some iterations of a loop')
            outer = set()
            for sc in ctx.scopes:
                outer |= sc.bound
            for conds, _, e in exc:
                # raised in some iteration, or in none
                k = fresh_int('it')
                some = z3.And(k >= 0, k < n, *[z3.substitute(c, (j, k)) for c in conds])
                if ctx.check_sat(some) == z3.unsat:
                    continue
                if outer & (free_consts(some) - {k.decl().name()}):
                    raise Unsupported('exception in some iterations of an inner loop')
                if ctx.decide(z3.Bool(fresh_name('raised'))):
                    ctx.assume(some)
                    raise PyExc(e.cls, [a if isinstance(a, (str, int)) else 'value' for a in e.eargs])
                ctx.assume(z3.ForAll([k], z3.Not(some)))
            paths = [p for p in paths if p[2] is None]
            if not paths:
                raise Infeasible()
        self.loops.append((self.cur[-1] if self.cur else '', getattr(node, 'lineno', 0),
                           sorted({hyp[lkey(l)][0] for l in order})))
        if not paths:
            # no iteration
            if not ctx.prove(n <= 0):
                raise Unsupported('loop without an outcome')
            return
        # effect
        for l in order:
            h = hyp[lkey(l)]
            vals = [(c, o[lkey(l)]) for c, o, _ in paths]
            self.finish(l, h, vals, n, j)

    def start_value(self, l, h, j):
        k = h[0]
        if k == 'const' or k == 'own':
            return
        if k == 'text':
            b = isinstance(h[1], bytes) or isinstance(h[1], Text) and h[1].b
            self.set_loc(l, Text([Hole(h[2])], b))
        elif k == 'seq':
            self.set_loc(l, Seq([HolePiece(h[2], fresh_int('hl'))]))
        elif k == 'store':
            self.set_loc(l, Seq([HoleArr(h[2], seqs.seq_len_e(self.ctx, h[1]), (), h[1], j)]))
        elif k == 'lin':
            self.set_loc(l, mkint(zi(h[1]) + h[2] * j))
        elif k == 'sum':
            self.set_loc(l, SInt(h[2]))
        elif k == 'cursor':
            self.set_loc(l, h[2](j))
        elif k == 'kgroup':
            self.set_loc(l, h[1] + ((KeyGroup(j, fresh_int('kg'), *h[2]), True, Undef('added in a loop')),))
        elif k in ('temp', 'entries'):
            if l[1] == 'f':
                if k == 'entries':
                    self.set_loc(l, tuple((a, b, Undef('rewritten in a loop')) if a in h[2] else (a, b, c)
                                          for a, b, c in h[1]))
                return
            self.set_loc(l, Undef('value of an earlier iteration'))

    def check_step(self, l, h, end, j):
        k = h[0]
        ctx = self.ctx
        if k == 'const':
            return same(h[1], end) or self.prove_same(h[1], end), None
        if k == 'own':
            return True, end
        if k == 'text':
            if isinstance(end, Text) and end.segs and isinstance(end.segs[0], Hole) and end.segs[0].tag == h[2] and \
                    not any(has_hole(s) for s in end.segs[1:]):
                return True, end.segs[1:]
            return False, None
        if k == 'seq':
            if end.pieces and isinstance(end.pieces[0], HolePiece) and end.pieces[0].tag == h[2] and \
                    not any(isinstance(p, HolePiece) for p in end.pieces[1:]):
                return True, end.pieces[1:]
            return False, None
        if k == 'store':
            p = end.pieces[0] if isinstance(end, Seq) and len(end.pieces) == 1 else None
            if not isinstance(p, HoleArr) or p.tag != h[2] or not all(ctx.prove(i == j) for i, _ in p.w):
                return False, None
            return True, p.w[-1:]
        if k == 'lin':
            if isinstance(end, (int, SInt)) and not isinstance(end, bool):
                return ctx.prove(zi(end) == zi(h[1]) + h[2] * (j + 1)), None
            return False, None
        if k == 'sum':
            if not isinstance(end, (int, SInt)) or isinstance(end, bool):
                return False, None
            nm = h[2].decl().name()
            d = z3.simplify(z3.substitute(zi(end), (h[2], z3.IntVal(0))))
            if not ctx.prove(zi(end) == h[2] + d):
                return False, None
            for c in ctx.scopes[-1].conds:
                if nm in free_consts(c):
                    return False, None
            return True, d
        if k == 'cursor':
            if isinstance(end, Seq):
                # set by the step itself, to the value it has shown it to have
                return end is h[2](j + 1), None
            return ctx.prove(zi(end) == zi(h[2](j + 1))), None
        if k == 'kgroup':
            # one more entry, under the next key
            m = len(h[1])
            if len(end) != m + 2 or not all(same(tuple(x), tuple(y)) for x, y in zip(h[1], end)):
                return False, None
            (a, p, v), (b, q, w) = end[m:]
            if type(a) is not KeyGroup or a.f.name() != h[2][0].name() or not isinstance(v, Undef) or q is not True or \
                    not isinstance(b, (int, SInt)) or not ctx.prove(zi(b) == h[2][0](j + h[2][1])):
                return False, None
            return True, w
        if k == 'entries':
            # the keys stay, the values of the changed ones are rewritten by every iteration
            if len(end) != len(h[1]):
                return False, None
            for (a, p, v), (b, q, w) in zip(h[1], end):
                if a != b or not (p is q or not isinstance(p, bool) and not isinstance(q, bool) and p.eq(q)):
                    return False, None
                if a in h[2] and isinstance(w, Undef) or a not in h[2] and not same(v, w):
                    return False, None
            return True, end
        if k == 'temp':
            if l[1] == 'f':
                # content of a list or array rewritten as a whole
                return self.store_step(l, h, end, j)
            return True, end
        raise Unsupported(k)

    def store_step(self, l, h, end, j):
        return same(h[1], end), end

    def weaken(self, l, h, end, j):
        if h[0] in ('const', 'seq') and stored(self.ctx, l, h[1], end):
            return ('store', h[1], fresh_name('h'))
        if h[0] in ('const', 'lin') and isinstance(h[1], (int, SInt)) and not isinstance(h[1], bool):
            return ('sum', h[1], fresh_int('sm'))
        if h[0] in ('entries', 'const') and l[2] == 'entries' and new_key(self.ctx, h[1], end, j) is not None:
            return ('kgroup', h[1], new_key(self.ctx, h[1], end, j))
        if h[0] in ('const', 'lin', 'text', 'sum'):
            return ('temp', h[1])
        return None

    def prove_same(self, a, b):
        if is_num(a) and is_num(b) and not isinstance(a, Quot) and not isinstance(b, Quot):
            return self.ctx.prove(zr(a) == zr(b))
        return False

    def finish(self, l, h, vals, n, j):
        k = h[0]
        ctx = self.ctx
        if k == 'const':
            return
        if k == 'own':
            v = vals[-1][1]
            for c, w in reversed(vals[:-1]):
                v = self.merge(z3.And(*c) if c else z3.BoolVal(True), w, v, l)
            self.set_loc(l, v)
        elif k == 'text':
            init = to_text(h[1])
            if all(not v for _, v in vals):
                return
            if len(vals) == 1:
                self.set_loc(l, from_text(Text(list(init.segs) + [RepS(n, j, norm_segs(vals[0][1]))], init.b)))
                return
            split = self.edge_split(vals, n, j)
            if split:
                kind, a, b = split
                if kind == 'last':
                    segs = [RepS(z3.simplify(n - 1), j, norm_segs(a))] + [sub_seg(s, [(j, n - 1)]) for s in b]
                else:
                    j1 = fresh_int('pf')
                    segs = [sub_seg(s, [(j, z3.IntVal(0))]) for s in b] + \
                        [RepS(z3.simplify(n - 1), j1, [sub_seg(s, [(j, j1 + 1)]) for s in norm_segs(a)])]
                if ctx.decide(mkbool(n >= 1)):
                    self.set_loc(l, from_text(Text(list(init.segs) + segs, init.b)))
                return
            body = []
            for c, v in vals:
                if v:
                    body.append(RepS(z3.If(z3.And(*c), z3.IntVal(1), z3.IntVal(0)), fresh_int('g'), norm_segs(v)))
            self.set_loc(l, from_text(Text(list(init.segs) + [RepS(n, j, body)], init.b)))
        elif k == 'seq':
            if all(not v for _, v in vals):
                return

            def parts(v):
                out = []
                for p in v:
                    if isinstance(p, Items):
                        out.extend(p.v)
                    else:
                        out.append(Splice(Seq([p])))
                return out
            init = h[1].pieces
            if len(vals) == 1:
                self.set_loc(l, Seq(tuple(init) + (Gen(n, j, parts(vals[0][1])),)))
                return
            marks = raw.filtered(self, vals, n, j)
            if marks is not None:
                self.set_loc(l, Seq(tuple(init) + marks.pieces))
                return
            split = self.edge_split(vals, n, j)
            if split:
                kind, a, b = split
                if ctx.decide(mkbool(n >= 1)):
                    if kind == 'last':
                        new = (Gen(z3.simplify(n - 1), j, parts(a)),) + sub_seq(Seq(b), [(j, n - 1)]).pieces
                    else:
                        new = sub_seq(Seq(b), [(j, z3.IntVal(0))]).pieces + \
                            (seqs.shift(Gen(n, j, parts(a)), 1, n - 1),)
                    self.set_loc(l, Seq(tuple(init) + new))
                return
            body = []
            for c, v in vals:
                if v:
                    g = fresh_int('g')
                    body.append(Splice(Seq([Gen(z3.If(z3.And(*c), z3.IntVal(1), z3.IntVal(0)), g, parts(v))])))
            self.set_loc(l, Seq(tuple(init) + (Gen(n, j, body),)))
        elif k == 'store':
            if not any(w for _, w in vals):
                return
            if not ctx.prove(n >= 0) and not ctx.decide(mkbool(n >= 0)):
                return
            ctx.push([j])
            try:
                ctx.assume(z3.And(j >= 0, j < n))
                out = None
                for c, w in reversed(vals):
                    v = w[0][1] if w else seqs.index(ctx, h[1], mkint(j))
                    out = v if out is None else self.merge(z3.And(*c) if c else z3.BoolVal(True), v, out)
            except NoMerge:
                raise Unsupported('different values stored by the iterations of a loop')
            finally:
                ctx.pop()
            rest = seqs.split_at(ctx, h[1], mkint(n))[1] if not ctx.prove(n == seqs.seq_len_e(ctx, h[1])) else Seq([])
            self.set_loc(l, Seq((Gen(n, j, [out]),) + rest.pieces))
        elif k == 'lin':
            self.set_loc(l, mkint(zi(h[1]) + h[2] * n) if ctx.prove(n >= 0) else Undef('loop'))
        elif k == 'sum':
            tot = vals[-1][1]
            for c, d in reversed(vals[:-1]):
                tot = z3.If(z3.And(*c) if c else z3.BoolVal(True), d, tot)
            self.set_loc(l, mkint(zi(h[1]) + self.lib.big_sum(ctx, n, j, tot)))
        elif k == 'cursor':
            self.set_loc(l, h[2](n))
        elif k == 'kgroup':
            if not ctx.prove(n >= 0) and not ctx.decide(mkbool(n >= 0)):
                return
            v = vals[-1][1]
            ctx.push([j], 'map')
            self.merge_dicts, was = True, self.merge_dicts
            try:
                ctx.assume(z3.And(j >= 0, j < n))
                for c, w in reversed(vals[:-1]):
                    v = self.merge(z3.And(*c) if c else z3.BoolVal(True), w, v)
            except NoMerge:
                raise Unsupported('different values added by the iterations of a loop')
            finally:
                self.merge_dicts = was
                ctx.pop()
            i = fresh_int('kg')
            self.set_loc(l, h[1] + ((KeyGroup(n, i, *h[2]), True, subst(v, [(j, i)])),))
        elif k == 'entries':
            v = vals[0][1]
            if len(vals) > 1 or not ctx.prove(n >= 1):
                if len(vals) > 1:
                    for c, w in vals[1:]:
                        if not same(w, v):
                            raise Unsupported('dictionary changed differently by the iterations of a loop')
                if not ctx.decide(mkbool(n >= 1)):
                    return
            self.set_loc(l, tuple((a, b if b is True else z3.substitute(b, (j, n - 1)), subst_free(c, j, n - 1))
                                  for a, b, c in v))
        elif k == 'temp':
            if l[1] == 'f':
                self.set_loc(l, vals[0][1])
                return
            if len(vals) == 1:
                v = vals[0][1]
                if isinstance(v, Undef):
                    self.set_loc(l, Undef('loop'))
                    return
                try:
                    v = subst_free(v, j, n - 1)
                except Unsupported:
                    v = Undef('loop')
                self.set_loc(l, Undef('after a loop', n, v, h[1]))
            else:
                v0 = vals[0][1]
                if all(same(v0, v) for _, v in vals[1:]) and not isinstance(v0, Undef) and not mentions_any(v0, j):
                    self.set_loc(l, Undef('after a loop', n, v0, h[1]))
                else:
                    self.set_loc(l, Undef('loop'))

    def edge_split(self, vals, n, j):
        """('last', body of all but the last, body of the last) if the paths are divided that way."""
        ctx = self.ctx
        if len(vals) != 2:
            return None
        (c0, v0), (c1, v1) = vals
        ctx.push([j])
        try:
            ctx.assume(z3.And(j >= 0, j < n))
            a = z3.And(*c0)
            for kind, e in (('last', j < n - 1), ('first', j >= 1)):
                if ctx.prove(a == e):
                    return kind, v0, v1
                if ctx.prove(a == z3.Not(e)):
                    return kind, v1, v0
        finally:
            ctx.pop()
        return None

    def x_While(self, st, fr):
        ctx = self.ctx
        st = tested_at_top(st)
        stuck = 0
        if raw.scan(self, st, fr):
            if st.orelse:
                raise Unsupported('else of a loop')
            return
        for it in range(400):
            c = self.lib.truth(self, self.eval(st.test, fr))
            if isinstance(c, SBool) and ctx.prove(z3.Not(c.e)):
                c = False
            if c is False:
                if st.orelse:
                    self.block(st.orelse, fr)
                return
            if self.while_summary(st, fr):
                stuck = 0
                continue
            if isinstance(c, SBool):
                stuck += 1
                if stuck > 40:
                    break
                if not ctx.decide(c.e):
                    if st.orelse:
                        self.block(st.orelse, fr)
                    return
            try:
                self.block(st.body, fr)
            except ContinueX:
                pass
            except BreakX:
                return
        raise Unsupported('while loop without bound')

    def visible_seqs(self, fr):
        f, out, seen = fr, [], set()
        while f is not None and f.module is not None:
            for k, v in f.vars.items():
                if isinstance(v, (HList, STuple, Arr)) and id(v) not in seen:
                    seen.add(id(v))
                    out.append(v)
            f = f.parent
            if f is not None and f.parent is None:
                break
        return out

    def while_summary(self, st, fr, counters=True, nested=False):
        """try to run many iterations of a while loop at once; True if done."""
        ctx = self.ctx
        if any(isinstance(x, ast.Break) for x in ast.walk(st)):
            return False
        # which integers does the body change?
        mark, maxid = len(self.trail), seqs_serial()

        def once():
            try:
                self.block(st.body, fr)
            except ContinueX:
                pass

        def test():
            return self.lib.truth(self, self.eval(st.test, fr))
        ctx.push([], 'trial')
        try:
            t = test()
            ctx.assume(zb(t))
            if not ctx.feasible():
                return False
            once()
            ints = []
            for l in self.touched(mark, maxid):
                e = self.get_loc(l)
                if l[1] in 'va' and isinstance(e, (int, SInt)) and not isinstance(e, bool):
                    ints.append((l, e))
        except (PyExc, ReturnX, BreakX, Unsupported) as e:
            if os.environ.get('VDEBUG'):
                print('WHILE', st.lineno, 'trial', type(e).__name__, e)
            ints = None
        finally:
            ctx.pop()
            self.rollback(mark)
        if self.consumed(st, fr, once, test):
            return True
        if ints is None:
            return self.rewrite_guess(st, fr, once, test)
        ints = [(l, self.get_loc(l), e) for l, e in ints]
        ints = [(l, i, e) for l, i, e in ints if isinstance(i, (int, SInt)) and not same(i, e)]
        tnames = {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)}
        # 1. a cursor into a sequence
        for l, c0, e in ints:
            if l[1] != 'v' or l[2] not in tnames:
                continue
            for s in self.visible_seqs(fr):
                g = self.gen_at(s.seq, c0, nested)
                if g is None:
                    continue
                if self.try_cursor(st, fr, l, c0, g, once, test):
                    return True
                if isinstance(s, HList) and self.try_rewrite(st, fr, l, c0, s, g, once, test):
                    return True
        # 2. a counter
        for l, c0, e in ints if counters else ():
            if l[1] != 'v' or l[2] not in tnames:
                continue
            d = z3.simplify(zi(e) - zi(c0))
            if not z3.is_int_value(d) or not isinstance(st.test, ast.Compare) or len(st.test.ops) != 1:
                continue
            if self.try_count(st, fr, l, c0, d.as_long(), once, test):
                return True
        return False

    def rewrite_guess(self, st, fr, once, test):
        """a cursor found by its name, where a single step of it cannot be followed before its group is known"""
        names = {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)}
        for x in ast.walk(st):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in names:
                names.discard(x.target.id)
                c0 = fr.vars.get(x.target.id)
                if isinstance(c0, bool) or not isinstance(c0, (int, SInt)):
                    continue
                for s in self.visible_seqs(fr):
                    g = self.gen_at(s.seq, c0) if isinstance(s, HList) else None
                    if g is not None and any(isinstance(x, Splice) for x in g.parts) and \
                            self.try_rewrite(st, fr, (fr, 'v', x.target.id), c0, s, g,
                                             once, test):
                        return True
        return False

    def settle(self, parts):
        """the parts of a group, with the conditions of what is there or not in all of its repetitions decided"""
        ctx = self.ctx

        def conds(parts, bound, acc):
            for x in parts:
                if isinstance(x, Splice):
                    for p in x.seq.pieces:
                        if isinstance(p, Gen):
                            c = seqs.guard(p)
                            if c is not None and not (free_consts(c) & bound):
                                acc.append(c)
                            conds(p.parts, bound | {p.j.decl().name()}, acc)
            return acc

        def put(parts):
            out = []
            for x in parts:
                if isinstance(x, Splice):
                    new = []
                    for p in x.seq.pieces:
                        if isinstance(p, Gen):
                            c = seqs.guard(p)
                            if c is not None and ctx.prove(c):
                                new += list(seqs.parts_seq(put(seqs.group_at(p, 0))).pieces)
                                continue
                            if c is not None and ctx.prove(z3.Not(c)):
                                continue
                            p = Gen(p.n, p.j, put(p.parts), p.off)
                        new.append(p)
                    for q in new:
                        out += list(q.v) if isinstance(q, Items) else [Splice(Seq([q]))]
                else:
                    out.append(x)
            return out
        cs = conds(parts, set(), [])
        if not cs:
            return parts
        for c in cs:
            ctx.decide(c)
        return put(parts)

    def gen_at(self, s, pos, nested=False):
        """the piece of symbolic length that starts at a position."""
        ctx = self.ctx
        at = z3.IntVal(0)
        try:
            for p in s.pieces:
                if isinstance(p, Gen) and not z3.is_int_value(p.n) and ctx.prove(at == zi(pos)):
                    if not ctx.prove(p.n <= 1):
                        return p
                elif isinstance(p, Gen) and not z3.is_int_value(p.n) and ctx.prove(at < zi(pos)):
                    for k in (1, 2):
                        if ctx.prove(p.n >= k) and ctx.prove(at + seqs.off(ctx, p, z3.IntVal(k)) == zi(pos)):
                            if not nested and not ctx.decide(mkbool(p.n > k)):
                                break
                            if ctx.prove(p.n <= k + 1):
                                return None
                            return seqs.shift(p, k, z3.simplify(p.n - k))
                at = at + seqs.piece_len(ctx, p)
        except Unsupported:
            pass
        return None

    def try_cursor(self, st, fr, l, c0, g, once, test):
        ctx = self.ctx
        j = fresh_int('wh')
        n = g.n

        def at(k):
            return mkint(zi(c0) + seqs.off(ctx, g, k if not isinstance(k, int) else z3.IntVal(k)))

        def run(_):
            seqs.off_step(ctx, g, j)
            goal = zi(at(j + 1))
            for _i in range(64):
                if not ctx.prove(zb(test())):
                    if not ctx.decide(zb(test())):
                        raise Unsupported('loop condition inside a group')
                once()
                cur = self.get_loc(l)
                if ctx.prove(zi(cur) == goal):
                    return
                if not ctx.prove(zi(cur) < goal):
                    raise Unsupported('the cursor leaves the group')
            raise Unsupported('group too long')
        mark = len(self.trail)
        try:
            # condition, checked for all groups inside run
            self.summarise(n, j, run, set(), st, None, None, {lkey(l): at}, True)
            return True
        except (Unsupported, NoMerge, PyExc) as e:
            self.rollback(mark)
            if os.environ.get('VDEBUG'):
                print('CURSOR', getattr(st, 'lineno', '?'), l[2], type(e).__name__, e)
            return False

    def try_rewrite(self, st, fr, l, c0, lst, g, once, test):
        """a cursor into a list whose groups the loop rewrites while it passes them: after k groups the list starts with
        k rewritten groups, the cursor is at its k-th old one, and the rest is as it was"""
        ctx = self.ctx
        j = fresh_int('wh')
        n = g.n
        pieces = lst.seq.pieces
        at = [i for i, p in enumerate(pieces) if p is g or isinstance(p, Gen) and p.j is g.j]
        if len(at) != 1:
            return False
        pre, post = list(pieces[:at[0]]), list(pieces[at[0] + 1:])
        pos0 = z3.simplify(sum([seqs.piece_len(ctx, p) for p in pre], z3.IntVal(0)))
        if not ctx.prove(pos0 == zi(c0)):
            return False
        loc = (lst, 'f', 'seq')
        new = None
        seqs.off(ctx, g, z3.IntVal(1))

        def head(k):
            return [Gen(k, new.j, new.parts)] if new is not None else []

        states = {}

        def state(k):
            k = z3.simplify(z3.IntVal(k) if isinstance(k, int) else k)
            key = (new is None, k.sexpr())
            if key not in states:
                states[key] = Seq(pre + head(k) + [seqs.shift(g, k, z3.simplify(n - k))] + post)
            return states[key]

        def cursor(k):
            k = z3.IntVal(k) if isinstance(k, int) else k
            return mkint(zi(c0) + (seqs.off(ctx, new, k) if new is not None else 0))

        def run(_):
            """from the k-th old group to the next one; the list before it and after it is found by its pieces"""
            if new is not None:
                seqs.off_step(ctx, new, j)
            rest = seqs.shift(g, z3.simplify(j + 1), z3.simplify(n - j - 1))
            before = pre + head(j)
            here = list(seqs.parts_seq(self.settle(seqs.group_at(g, j))).pieces)
            settled[0] = Seq(here)
            self.setfield(lst, 'seq', Seq(before + here + [rest] + post))
            for _i in range(64):
                ps = list(lst.seq.pieces)
                here = [i for i, p in enumerate(ps) if p is rest or isinstance(p, Gen) and p.j is rest.j]
                if len(here) != 1:
                    raise Unsupported('the following groups are changed')
                cur = self.get_loc(l)
                # where the rest starts
                start = z3.simplify(sum([seqs.piece_len(ctx, p) for p in ps[:here[0]]], z3.IntVal(0)))
                if ctx.prove(zi(cur) == start):
                    if [repr(p) for p in ps[here[0] + 1:]] != [repr(p) for p in post] or \
                            [repr(p) for p in ps[:len(before)]] != [repr(p) for p in before]:
                        raise Unsupported('other parts of the list are changed')
                    return Seq(ps[len(before):here[0]])
                if not ctx.prove(zi(cur) < start):
                    # (possibly nothing is left of it)
                    if not ctx.prove(zi(cur) <= start) or not self.while_summary(st, fr, False, True):
                        raise Unsupported('the cursor leaves the group')
                    continue
                if not ctx.prove(zb(test())):
                    if not ctx.decide(zb(test())):
                        raise Unsupported('loop condition inside a group')
                if not self.while_summary(st, fr, False, True):
                    once()
            raise Unsupported('group too long')

        mark = len(self.trail)
        settled = [None]
        try:
            # what a group becomes: found at the first one, checked for all of them below
            ctx.push([j], 'trial')
            try:
                ctx.assume(z3.And(j == 0, j < n))
                found = run(None)
            finally:
                ctx.pop()
                self.rollback(mark)
            parts = []
            for p in found.pieces:
                parts += list(p.v) if isinstance(p, Items) else [Splice(Seq([p]))]
            kept = repr(found) == repr(settled[0])
            new = g if kept else Gen(n, j, parts)

            def step(_):
                got = run(None)
                want = settled[0] if kept else seqs.parts_seq(seqs.group_at(new, j))
                if repr(got) != repr(want):
                    self.same_groups(got, want)
                self.setfield(lst, 'seq', state(j + 1))
            self.summarise(n, j, step, set(), st, None, None, {lkey(l): cursor, lkey(loc): state}, True)
            return True
        except (Unsupported, NoMerge, PyExc) as e:
            self.rollback(mark)
            if os.environ.get('VDEBUG'):
                import traceback
                print('REWRITE', getattr(st, 'lineno', '?'), l[2], ''.join(traceback.format_exc()[-900:]))
            return False

    def same_groups(self, got, want):
        from . import same as SM
        try:
            SM.value_same(self.ctx, HList(got), HList(want), 'group')
        except SM.Differ as e:
            raise Unsupported('the groups are not rewritten alike: %s' % e)

    def try_count(self, st, fr, l, c0, d, once, test):
        ctx = self.ctx
        j = fresh_int('wh')
        # find the bound: the test as a function of the counter
        v = fresh_int('cv')
        mark = len(self.trail)
        ctx.push([v], 'trial')
        try:
            self.set_loc(l, SInt(v))
            t = test()
        except (PyExc, Unsupported):
            return False
        finally:
            ctx.pop()
            self.rollback(mark)
        if not isinstance(t, SBool):
            return False
        te = z3.simplify(t.e)
        # number of iterations: te(c0 + d*k) for all k < N, not at N; te must be linear: v </<= B
        N = None
        terms = None
        for cand in linear_bound(te, v):
            op, B = cand
            span = None
            if op == 'lt' and d > 0:
                span = B - zi(c0)
            elif op == 'gt' and d < 0:
                span = zi(c0) - B
            if span is None:
                continue
            span = z3.simplify(span)
            a = abs(d)
            if a == 1:
                N = span
            else:
                q, r = T.divmod_const(ctx, span, a)
                N = z3.simplify(q + (1 if r else 0))
        if N is None:
            return False
        if not ctx.prove(N >= 0):
            if not ctx.decide(mkbool(N >= 0)):
                return False
        if z3.is_int_value(N) or ctx.prove(N <= 1):
            return False

        def at(k):
            return mkint(zi(c0) + d * (k if not isinstance(k, int) else z3.IntVal(k)))

        def run(_):
            if not ctx.prove(zb(test())):
                raise Unsupported('loop condition')
            once()
        mark = len(self.trail)
        try:
            self.summarise(N, j, run, set(), st, None, None, {lkey(l): at}, True)
            return True
        except (Unsupported, NoMerge, PyExc):
            self.rollback(mark)
            return False

    # ------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def elts(self, es, fr):
        pieces = []
        for x in es:
            if isinstance(x, ast.Starred):
                pieces.extend(self.lib.iter_seq(self, self.eval(x.value, fr)).pieces)
            else:
                pieces.append(Items([self.eval(x, fr)]))
        return Seq(pieces)

    def e_List(self, e, fr):
        return HList(self.elts(e.elts, fr))

    def e_Tuple(self, e, fr):
        return STuple(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.lib.make_set(self.lib.concrete_items(self.elts(e.elts, fr)))

    def e_Dict(self, e, fr):
        d = HDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(self, d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.lib.dict_set(self, d, kk, self.eval(v, fr))
        return d

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, o, name):
        if isinstance(o, ModuleLazy):
            o = self.load(o.name)
        if isinstance(o, ModuleV):
            return self.mod_attr(o, name)
        if isinstance(o, HObj) and isinstance(o.cls, Class):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Undef):
                    return self.resolve_undef(v, lambda x: self.setattr_(o, name, x))
                return v
            m = self.unstated(o, name) if o.open else self.class_attr(o.cls, name)
            if isinstance(m, Closure):
                return m if getattr(m, 'static', False) else Bound(o, name, m)
            if m is not None:
                return m
            raise_py('AttributeError', name)
        if isinstance(o, Class):
            m = self.class_attr(o, name)
            if m is None:
                raise_py('AttributeError', name)
            if not isinstance(m, Closure) and not self.loading and self.changes().of_object(name):
                raise Unsupported('%s.%s, which some function changes' % (o.name, name))
            return m
        return self.lib.attr(self, o, name)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.lib.getitem(self, o, self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[None if x is None else self.eval(x, fr) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'globals' and not e.args and not e.keywords:
            f = fr
            while f is not None and 'globals' not in f.vars:
                top, f = f, f.parent
            if f is None:
                d = HDict([(k, True, v) for k, v in top.vars.items()])
                d.frozen = True
                return d
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(f, Builtin) and f.name == 'pack':
                    args.append(self.lib.Star(self.lib.iter_seq(self, v)))
                else:
                    args.extend(self.lib.items(self, v))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                for kk, p, vv in v.entries:
                    if type(kk) is not str:
                        raise_py('TypeError', 'keywords must be strings')
                    if p is True or self.ctx.decide(p):
                        kw[kk] = vv
            else:
                kw[k.arg] = v
        if isinstance(f, Builtin) and f.name in ('locals', 'globals', 'super'):
            raise Unsupported(f.name)
        if self.alts and not isinstance(f, (Closure, Class)) and not (isinstance(f, Bound) and (
                isinstance(f.f, Closure) or isinstance(f.obj, (HDict, HList)))) and \
                getattr(f, 'name', getattr(f, '__name__', '')) not in PASSING:
            fun = lambda v: self.force(v) if type(v) is Alt else v
            args, kw = [fun(v) for v in args], {k: fun(v) for k, v in kw.items()}
        return self.call(f, args, kw)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        return self.lib.binop(self, type(e.op).__name__, a, self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.lib.truth(self, v)
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t.e))
        return self.lib.unop(self, type(e.op).__name__, v)

    def under(self, cond, f):
        """f() where cond holds; None-tuple when it cannot be evaluated without deciding cond."""
        self.ctx.push([], 'branch')
        mark = len(self.trail)
        try:
            self.ctx.assume(cond)
            r = f()
            if len(self.trail) != mark:
                raise NoMerge()
            return r
        except (PyExc, Unsupported):
            raise NoMerge()
        finally:
            self.ctx.pop()
            if len(self.trail) != mark:
                self.rollback(mark)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        return self.boolop(is_and, list(e.values), fr)

    def boolop(self, is_and, vals, fr):
        v = self.eval(vals[0], fr)
        if len(vals) == 1:
            return v
        t = self.lib.truth(self, v)
        if isinstance(t, SBool):
            if self.ctx.prove(t.e):
                t = True
            elif self.ctx.prove(z3.Not(t.e)):
                t = False
        if isinstance(t, bool):
            if t != is_and:
                return v
            return self.boolop(is_and, vals[1:], fr)
        try:
            w = self.under(t.e if is_and else z3.Not(t.e), lambda: self.boolop(is_and, vals[1:], fr))
            if isinstance(v, (SBool, bool)) and isinstance(w, (SBool, bool)):
                return mkbool(z3.And(t.e, zb(w)) if is_and else z3.Or(t.e, zb(w)))
            return self.merge(t.e, w, v) if is_and else self.merge(t.e, v, w)
        except NoMerge:
            pass
        if self.ctx.decide(t.e) != is_and:
            return v
        return self.boolop(is_and, vals[1:], fr)

    def e_IfExp(self, e, fr):
        c = self.lib.truth(self, self.eval(e.test, fr))
        if isinstance(c, SBool):
            if self.ctx.prove(c.e):
                c = True
            elif self.ctx.prove(z3.Not(c.e)):
                c = False
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr)
        try:
            a = self.under(c.e, lambda: self.eval(e.body, fr))
            b = self.under(z3.Not(c.e), lambda: self.eval(e.orelse, fr))
            return self.merge(c.e, a, b)
        except NoMerge:
            pass
        return self.eval(e.body if self.ctx.decide(c.e) else e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            v = self.lib.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            v = self.lib.truth(self, v)
            if v is False:
                return False
            res = v if res is True else res if v is True else mkbool(z3.And(zb(res), zb(v)))
            left = right
        return res

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ''
                if v.conversion == 115:
                    x = self.lib.to_str(self, x)
                elif v.conversion == 114:
                    raise Unsupported('!r')
                out.append(self.lib.fmt(self, x, spec))
        return T.concat(*out) if out else ''

    def e_Lambda(self, e, fr):
        c = Closure(e, fr, '<lambda>')
        c.defaults = [self.eval(d, fr) for d in e.args.defaults]
        return c

    # comprehensions are loops that append
    def comp(self, gens, fr, leaf):
        cf = Frame(fr, fr.module)
        acc = HList(Seq([]))
        self.setvar(cf, '.acc', acc)

        def level(k):
            if k == len(gens):
                v = leaf(cf)
                self.setfield(acc, 'seq', Seq(acc.seq.pieces + (Items([v]),)))
                return
            g = gens[k]
            it = self.eval(g.iter, fr if k == 0 else cf)

            def body(v):
                self.assign(g.target, v, cf)
                conds = [c for c in g.ifs]
                if conds:
                    self.cond_chain(conds, cf, lambda: level(k + 1))
                else:
                    level(k + 1)
            self.run_pieces(self.lib.iter_seq(self, it), body, g.target)
        level(0)
        return acc

    def cond_chain(self, conds, cf, then):
        for c in conds:
            if not self.truth(self.eval(c, cf)):
                return
        then()

    def e_ListComp(self, e, fr):
        return HList(self.comp(e.generators, fr, lambda cf: self.eval(e.elt, cf)).seq)

    def e_GeneratorExp(self, e, fr):
        return HList(self.comp(e.generators, fr, lambda cf: self.eval(e.elt, cf)).seq)

    def e_SetComp(self, e, fr):
        return self.lib.make_set(self.lib.concrete_items(self.comp(e.generators, fr, lambda cf: self.eval(e.elt, cf)).seq))

    def e_DictComp(self, e, fr):
        g = e.generators[0]
        it = self.lib.iter_seq(self, self.eval(g.iter, fr)) if len(e.generators) == 1 and self.alts else None
        if it is not None and all(isinstance(p, Items) for p in it.pieces):
            cf = Frame(fr, fr.module)
            d = HDict()
            self.setvar(cf, '.acc', d)

            def put(conds):
                if not conds:
                    return self.lib.dict_set(self, d, self.eval(e.key, cf), self.eval(e.value, cf))
                c = self.lib.truth(self, self.eval(conds[0], cf))
                if isinstance(c, SBool):
                    try:
                        return self.merge_branches(c.e, lambda: put(conds[1:]), lambda: None)
                    except NoMerge:
                        c = self.ctx.decide(c.e)
                if c:
                    put(conds[1:])
            for p in it.pieces:
                for v in p.v:
                    self.assign(g.target, v, cf)
                    self.joined(lambda: put(list(g.ifs)))
            return d
        acc = self.comp(e.generators, fr,
                        lambda cf: STuple(Seq([Items([self.eval(e.key, cf), self.eval(e.value, cf)])])))
        d = HDict()
        for t in self.lib.concrete_items(acc.seq):
            k, v = self.lib.items(self, t)
            self.lib.dict_set(self, d, k, v)
        return d


JOINED = (ast.If, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Assert, ast.Delete)
PASSING = ('dict', 'list', 'tuple', 'zip', 'enumerate', 'iter', 'reversed')


class ModuleLazy:
    def __init__(self, I, name):
        self.name = name


def _pz(p):
    return z3.BoolVal(p) if isinstance(p, bool) else p


def seqs_serial():
    from . import vals
    return vals._serial[0]


def stored(ctx, l, init, end):
    """was an element of a list or array replaced?"""
    if l[1] != 'f' or l[2] != 'seq' or not isinstance(init, Seq) or not isinstance(end, Seq):
        return False
    try:
        return ctx.prove(seqs.seq_len_e(ctx, init) == seqs.seq_len_e(ctx, end))
    except Unsupported:
        return False


def new_key(ctx, init, end, j):
    """(f, off) if an iteration adds an entry with key f(j + off), f(0), f(1), ... being distinct"""
    if len(end) != len(init) + 1 or not isinstance(end[-1][0], SInt) or \
            not all(same(tuple(x), tuple(y)) for x, y in zip(init, end)):
        return None
    e = end[-1][0].e
    if not z3.is_app(e) or e.decl().name() not in ctx.keyfuns or e.num_args() != 1:
        return None
    off = z3.simplify(e.arg(0) - j)
    return None if j.decl().name() in free_consts(off) else (e.decl(), off)


def changed_keys(init, end):
    old = {a: v for a, p, v in init}
    return frozenset(a for a, p, v in end if a not in old or not same(old[a], v))


_TOP = {}


def tested_at_top(st):
    """`while a: if b: break; ...` as `while a and not b: ...` (there is no other break, nor an else)"""
    if id(st) in _TOP:
        return _TOP[id(st)][1]
    new = st
    f = st.body[0]
    if not st.orelse and isinstance(f, ast.If) and not f.orelse and len(f.body) == 1 and isinstance(f.body[0], ast.Break) \
            and len(st.body) > 1 and sum(isinstance(x, ast.Break) for x in ast.walk(st)) == 1 and not any(
            isinstance(x, ast.Continue) for x in ast.walk(f)):
        t = ast.UnaryOp(op=ast.Not(), operand=f.test)
        if isinstance(f.test, ast.Compare) and len(f.test.ops) == 1:
            no = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                  ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}[type(f.test.ops[0])]
            if no in (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot) or any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' for x in ast.walk(f.test)):
                # (the order of numbers is total; a length is one)
                t = ast.Compare(left=f.test.left, ops=[no()], comparators=f.test.comparators)
        if not (isinstance(st.test, ast.Constant) and st.test.value):
            t = ast.BoolOp(op=ast.And(), values=[st.test, t])
        new = ast.While(test=t, body=st.body[1:], orelse=[])
        ast.fix_missing_locations(ast.copy_location(new, st))
    _TOP[id(st)] = (st, new)
    return new


def lkey(l):
    return (id(l[0]), l[1], l[2])


def collect_ids(v, acc):
    if isinstance(v, (HList, Arr, STuple, Splice)):
        acc.add(id(v))
        for p in v.seq.pieces:
            if isinstance(p, Items):
                for x in p.v:
                    collect_ids(x, acc)
            elif isinstance(p, Gen):
                for x in p.parts:
                    collect_ids(x, acc)
    elif isinstance(v, HDict):
        acc.add(id(v))
        for _, _, x in v.entries:
            collect_ids(x, acc)
    elif isinstance(v, HObj):
        acc.add(id(v))
        for x in v.attrs.values():
            collect_ids(x, acc)


def has_hole(s):
    return isinstance(s, Hole) or isinstance(s, RepS) and any(has_hole(x) for x in s.segs)


def same_seg(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Lit):
        return a.s == b.s
    if isinstance(a, RepS):
        return a.n.eq(b.n) and a.j.eq(b.j) and len(a.segs) == len(b.segs) and all(map(same_seg, a.segs, b.segs))
    for k in a.__slots__:
        x, y = getattr(a, k), getattr(b, k)
        if isinstance(x, z3.ExprRef):
            if not isinstance(y, z3.ExprRef) or not x.eq(y):
                return False
        elif x != y:
            return False
    return True


def same(a, b):
    """syntactically the same value"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (bool, int, float, str, bytes, complex)) or a is None:
        return a == b
    if isinstance(a, (SInt, SReal, SBool)):
        return a.e.eq(b.e)
    if isinstance(a, SCplx):
        return same(a.re, b.re) and same(a.im, b.im)
    if isinstance(a, Raw):
        return a.lo.eq(b.lo) and a.hi.eq(b.hi) and a.case == b.case
    if isinstance(a, Text):
        return a.b == b.b and len(a.segs) == len(b.segs) and all(map(same_seg, a.segs, b.segs))
    if isinstance(a, STuple):
        return same(a.seq, b.seq)
    if isinstance(a, Seq):
        return len(a.pieces) == len(b.pieces) and all(x is y or type(x) is type(y) and isinstance(x, Items) and
                                                     len(x.v) == len(y.v) and all(map(same, x.v, y.v))
                                                     for x, y in zip(a.pieces, b.pieces))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    return False


def has_prefix(end, init):
    e, i = to_text(end), to_text(init)
    if e.b != i.b:
        return False
    es, si = list(e.segs), list(i.segs)
    for k, s in enumerate(si):
        if k >= len(es):
            return False
        if isinstance(s, Lit) and isinstance(es[k], Lit) and k == len(si) - 1:
            if not es[k].s.startswith(s.s):
                return False
        elif not same_seg(s, es[k]):
            return False
    return True


def seq_prefix(end, init):
    es, si = end.pieces, init.pieces
    for k, p in enumerate(si):
        if k >= len(es):
            return False
        if p is es[k]:
            continue
        if isinstance(p, Items) and isinstance(es[k], Items) and k == len(si) - 1 and len(es[k].v) >= len(p.v) and \
                all(map(same, p.v, es[k].v)):
            continue
        return False
    return True


def mentions_any(v, j):
    return j.decl().name() in value_consts(v)


def subst_free(v, j, k):
    if isinstance(v, (Frame, Closure, Builtin, HObj, Undef)) or v is None:
        return v
    if not mentions_any(v, j):
        return v
    return subst(v, [(j, k)])


def linear_bound(te, v):
    """[(op, B)] when the formula says v < B ('lt') or v > B ('gt')."""
    out = []
    neg = False
    if z3.is_not(te):
        neg = True
        te = te.arg(0)
    k = te.decl().kind() if z3.is_app(te) else None
    ops = {z3.Z3_OP_LT: '<', z3.Z3_OP_LE: '<=', z3.Z3_OP_GT: '>', z3.Z3_OP_GE: '>='}
    if k not in ops:
        return out
    op = ops[k]
    if neg:
        op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
    terms, const = T.lin(te.arg(0) - te.arg(1))
    key = v.sexpr()
    if key not in terms or abs(terms[key][1]) != 1:
        return out
    c = terms[key][1]
    rest = T.from_lin({q: x for q, x in terms.items() if q != key}, const)
    if v.decl().name() in free_consts(rest):
        return out
    # c*v + rest op 0
    if c == -1:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        B = rest
    else:
        B = -rest
    B = z3.simplify(B)
    if op == '<':
        out.append(('lt', B))
    elif op == '<=':
        out.append(('lt', z3.simplify(B + 1)))
    elif op == '>':
        out.append(('gt', B))
    else:
        out.append(('gt', z3.simplify(B - 1)))
    return out
