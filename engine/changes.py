"""What the functions of the package change that outlives a call: module variables, class attributes, object attributes.

A syntactic over-approximation by name, over every function of every module of the package.  The verifier refuses to give
such a name the value that the module starts with, or a value that the precondition of an object does not state."""
import ast
import os

CHANGING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'sort', 'reverse', 'add',
            'discard', 'appendleft', 'popleft', 'extendleft', 'rotate', 'fill', 'resize', 'put', 'itemset', 'send',
            'intersection_update', 'difference_update', 'symmetric_difference_update', 'write', '__setitem__', '__delitem__',
            '__next__', '__iadd__', 'subtract', 'move_to_end'}


class Changes:
    def __init__(self, root):
        self.names, self.attrs = set(), set()     # of module variables; of anything reached through an attribute
        self.set_attrs = {}                       # attribute -> [(class, function, value or None)]
        self.any = False                          # something changes names that are computed
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith('.py'):
                    try:
                        with open(os.path.join(d, f), encoding='utf-8') as h:
                            tree = ast.parse(h.read())
                    except (OSError, SyntaxError, ValueError):
                        continue
                    self.walk(tree, None)

    def walk(self, node, cls):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                self.walk(n, n.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                self.function(n, cls)
            else:
                self.walk(n, cls)

    def function(self, fn, cls):
        a = fn.args
        here = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        out = set()
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        nodes = [n for b in body for n in ast.walk(b)]
        for n in nodes:
            if isinstance(n, ast.Global):
                out.update(n.names)
            elif isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                here.add(n.id)
        self.names |= out
        here -= out

        def change(e):
            while isinstance(e, (ast.Subscript, ast.Starred)):
                e = e.value
            if isinstance(e, ast.Attribute):
                self.attrs.add(e.attr)
            elif isinstance(e, ast.Name) and e.id not in here:
                self.names.add(e.id)
            elif isinstance(e, (ast.Tuple, ast.List)):
                for x in e.elts:
                    target(x)
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('globals', 'vars'):
                self.any = True

        def target(t, value=None):
            if isinstance(t, ast.Attribute):
                own = isinstance(t.value, ast.Name) and a.args and t.value.id == a.args[0].arg
                self.set_attrs.setdefault(t.attr, []).append((cls if own else None, getattr(fn, 'name', None), fn, value))
                if not own:
                    self.attrs.add(t.attr)
            elif not isinstance(t, ast.Name):
                change(t)
        for n in nodes:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t, n.value)
            elif isinstance(n, ast.AnnAssign):
                target(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                target(n.target)
                if isinstance(n.target, ast.Attribute):
                    change(n.target)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.For, ast.comprehension)):
                target(n.target)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        target(i.optional_vars)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    if n.func.attr in CHANGING:
                        change(n.func.value)
                    elif n.func.attr == '__setattr__':
                        self.any = True
                elif isinstance(n.func, ast.Name):
                    if n.func.id in ('next', 'delattr') and n.args:
                        change(n.args[0])
                    if n.func.id in ('setattr', 'delattr') and len(n.args) > 1:
                        if isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                            self.attrs.add(n.args[1].value)
                            self.set_attrs.setdefault(n.args[1].value, []).append((None, None, fn, None))
                        else:
                            self.any = True
            elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                self.any = True

    def of_name(self, name):
        """a module variable or class attribute with this name may change"""
        return self.any or name in self.names or name in self.attrs

    def of_object(self, name):
        """a value of this name may be given to an object, or changed"""
        return self.any or name in self.attrs or name in self.set_attrs

    def initial(self, cls, name):
        """(function, expression): the one place where objects of the class are given this attribute is their __init__"""
        s = self.set_attrs.get(name, [])
        if not self.any and name not in self.attrs and len(s) == 1 and s[0][0] == cls and s[0][1] == '__init__':
            return s[0][2], s[0][3]
