"""Behaviour-preserving rewrites of the code of a property: the verifier and the search have to accept them (a test against
false alarms).

python3-vt tools/refactor.py PID N SEED [K]   -> one line per variant of K rewrites; FALSE when the verifier refuses it"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
from mutate import files, funcs

BLOCKS = ('body', 'orelse', 'finalbody')


def blocks(f):
    """(list of statements, index) for every statement of a function"""
    for n in ast.walk(f):
        for k in BLOCKS:
            b = getattr(n, k, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, ast.stmt):
                        yield b, i


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def has(n, *types):
    ns = n if isinstance(n, list) else [n]
    return any(isinstance(x, types) for m in ns for x in ast.walk(m))


def parse1(s):
    return ast.parse(s).body[0]


def fresh(rng, f):
    used = names(f) | {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
    while True:
        n = rng.choice(['tmp', 'aux', 'val', 'item', 'part', 'res', 'cur', 'out']) + rng.choice(['', '_', '1', '2', '_x', '_new'])
        if n not in used:
            return n


def own_stmts(f):
    """statements of f outside nested functions"""
    out = []

    def go(b):
        for i, s in enumerate(b):
            out.append((b, i))
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for k in BLOCKS:
                x = getattr(s, k, None)
                if isinstance(x, list):
                    go(x)
            for h in getattr(s, 'handlers', []):
                go(h.body)
    go(f.body)
    return out


def first_expr(s):
    """an expression of the statement that is evaluated before everything else in it"""
    e = None
    if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
        e = s.value
    elif isinstance(s, ast.If):
        e = s.test
    elif isinstance(s, ast.For):
        e = s.iter
    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        return (s.value, 'args', 0) if s.value.args and isinstance(s.value.func, (ast.Name, ast.Attribute)) and \
            isinstance(getattr(s.value.func, 'value', ast.Name()), ast.Name) and not isinstance(s.value.args[0], ast.Starred) else None
    if e is None:
        return None
    if isinstance(e, ast.Compare):
        return (e, 'left', None)
    if isinstance(e, ast.BoolOp):
        return (e, 'values', 0)
    if isinstance(e, ast.BinOp):
        return (e, 'left', None)
    if isinstance(e, ast.Call) and e.args and isinstance(e.func, (ast.Name, ast.Attribute)) and \
            isinstance(getattr(e.func, 'value', ast.Name()), ast.Name) and not isinstance(e.args[0], ast.Starred):
        return (e, 'args', 0)
    return None


def r_temp(f, rng):
    c = []
    for b, i in own_stmts(f):
        p = first_expr(b[i])
        if p is None:
            continue
        v = getattr(p[0], p[1])
        v = v if p[2] is None else v[p[2]]
        if isinstance(v, (ast.Constant, ast.Name, ast.GeneratorExp)) or has(v, ast.Lambda, ast.NamedExpr):
            continue
        # (a test of a while or elif is evaluated elsewhere)
        c.append((b, i, p, v))
    if not c:
        return None
    b, i, p, v = rng.choice(c)
    n = fresh(rng, f)
    nm = ast.Name(n, ast.Load())
    if p[2] is None:
        setattr(p[0], p[1], nm)
    else:
        getattr(p[0], p[1])[p[2]] = nm
    b.insert(i, ast.Assign([ast.Name(n, ast.Store())], v))
    return 'temp ' + ast.unparse(v)[:40]


def r_invert(f, rng):
    c = [b[i] for b, i in own_stmts(f) if isinstance(b[i], ast.If) and b[i].orelse]
    if not c:
        return None
    s = rng.choice(c)
    s.test = ast.UnaryOp(ast.Not(), s.test)
    s.body, s.orelse = s.orelse, s.body
    return 'invert line %d' % s.lineno


def r_nest(f, rng):
    c = [b[i] for b, i in own_stmts(f) if isinstance(b[i], ast.If) and isinstance(b[i].test, ast.BoolOp) and
         isinstance(b[i].test.op, ast.And) and not b[i].orelse]
    if not c:
        return None
    s = rng.choice(c)
    vs = s.test.values
    rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
    s.test, s.body = vs[0], [ast.If(rest, s.body, [])]
    return 'nest line %d' % s.lineno


def r_update(f, rng):
    c = [(b, i) for b, i in own_stmts(f) if isinstance(b[i], ast.Expr) and isinstance(b[i].value, ast.Call) and
         isinstance(b[i].value.func, ast.Attribute) and b[i].value.func.attr == 'update' and len(b[i].value.args) == 1 and
         isinstance(b[i].value.args[0], ast.Dict) and all(b[i].value.args[0].keys)]
    if not c:
        return None
    b, i = rng.choice(c)
    call = b[i].value
    d = call.args[0]
    if len(d.keys) > 1:
        return None
    b[i:i + 1] = [ast.Assign([ast.Subscript(call.func.value, k, ast.Store())], v) for k, v in zip(d.keys, d.values)]
    return 'update -> store'


def r_store(f, rng):
    c = [(b, i) for b, i in own_stmts(f) if isinstance(b[i], ast.Assign) and len(b[i].targets) == 1 and
         isinstance(b[i].targets[0], ast.Subscript) and isinstance(b[i].targets[0].slice, ast.Constant) and
         isinstance(b[i].targets[0].slice.value, str) and isinstance(b[i].targets[0].value, ast.Name)]
    if not c:
        return None
    b, i = rng.choice(c)
    t = b[i].targets[0]
    b[i] = ast.Expr(ast.Call(ast.Attribute(ast.Name(t.value.id, ast.Load()), 'update', ast.Load()),
                             [ast.Dict([t.slice], [b[i].value])], []))
    return 'store -> update'


def r_while(f, rng):
    c = [(b, i) for b, i in own_stmts(f) if isinstance(b[i], ast.For) and isinstance(b[i].target, ast.Name) and
         isinstance(b[i].iter, ast.Call) and isinstance(b[i].iter.func, ast.Name) and b[i].iter.func.id == 'range' and
         len(b[i].iter.args) <= 2 and not has(b[i].body, ast.Continue) and not b[i].orelse]
    if not c:
        return None
    b, i = rng.choice(c)
    s = b[i]
    k, n, e = s.target.id, fresh(rng, f), fresh(rng, f)
    if n == e:
        e = e + 'end'
    a = s.iter.args if len(s.iter.args) == 2 else [ast.Constant(0)] + s.iter.args
    new = ast.parse('%s = A\n%s = B\nwhile %s < %s:\n    %s = %s\n    pass\n    %s += 1' % (n, e, n, e, k, n, n)).body
    new[0].value, new[1].value = a
    new[2].body[1:2] = s.body
    b[i:i + 1] = new
    return 'for -> while line %d' % s.lineno


def r_enum(f, rng):
    c = [(b, i) for b, i in own_stmts(f) if isinstance(b[i], ast.For) and isinstance(b[i].target, ast.Name) and
         ast.unparse(b[i].iter).startswith(('range(len(', 'range(0, len(')) and isinstance(b[i].iter.args[-1], ast.Call) and
         isinstance(b[i].iter.args[-1].args[0], ast.Name) and len(b[i].iter.args) <= 2]
    if not c:
        return None
    b, i = rng.choice(c)
    s = b[i]
    x = s.iter.args[-1].args[0].id
    if x in names(ast.Module(s.body, []), (ast.Store, ast.Del)):
        return None
    v = fresh(rng, f)
    k = s.target.id

    class R(ast.NodeTransformer):
        def visit_Subscript(self, n):
            self.generic_visit(n)
            if isinstance(n.ctx, ast.Load) and ast.unparse(n) == '%s[%s]' % (x, k):
                return ast.Name(v, ast.Load())
            return n
    if any(isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and ast.unparse(n.value) == x for m in s.body for n in ast.walk(m)):
        return None
    s.body = [R().visit(m) for m in s.body]
    s.target = ast.Tuple([ast.Name(k, ast.Store()), ast.Name(v, ast.Store())], ast.Store())
    s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [ast.Name(x, ast.Load())], [])
    return 'enumerate line %d' % s.lineno


def r_comp(f, rng):
    """x = [e for ...] -> loop"""
    c = [(b, i) for b, i in own_stmts(f) if isinstance(b[i], ast.Assign) and len(b[i].targets) == 1 and
         isinstance(b[i].targets[0], ast.Name) and isinstance(b[i].value, ast.ListComp)]
    if not c:
        return None
    b, i = rng.choice(c)
    s = b[i]
    lc = s.value
    t = s.targets[0].id
    bound = set().union(*[names(g.target) for g in lc.generators])
    others = set()
    for q in ast.walk(f):
        if isinstance(q, ast.Name):
            others.add(q.id)
    inside = sum(1 for q in ast.walk(lc) if isinstance(q, ast.Name) and q.id in bound)
    total = sum(1 for q in ast.walk(f) if isinstance(q, ast.Name) and q.id in bound)
    if t in names(lc) or inside != total:
        return None
    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [lc.elt], []))]
    for g in reversed(lc.generators):
        for q in reversed(g.ifs):
            body = [ast.If(q, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()))] + body
    return 'comprehension -> loop line %d' % s.lineno


def r_noop(f, rng):
    c = own_stmts(f)
    b, i = rng.choice(c)
    n = rng.choice([lambda: ast.Pass(), lambda: parse1('%s = 0' % fresh(rng, f)), lambda: parse1('assert True'),
                    lambda: parse1('"""a remark"""'), lambda: parse1('if False:\n    pass'), lambda: parse1('%s = None' % fresh(rng, f)),
                    lambda: parse1('del_%s = []' % fresh(rng, f))])()
    b.insert(i, n)
    return 'no-op'


def r_rename(f, rng):
    loc = set()
    for b, i in own_stmts(f):
        s = b[i]
        if isinstance(s, ast.Assign):
            for t in s.targets:
                loc |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(s, ast.For):
            loc |= names(s.target)
    args = {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
    glob = {x for s in ast.walk(f) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
    loc -= args | glob
    if has(f, ast.FunctionDef) and len([1 for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda))]) > 1:
        return None
    if not loc:
        return None
    x, y = rng.choice(sorted(loc)), fresh(rng, f)
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id == x:
            n.id = y
        if isinstance(n, ast.ExceptHandler) and n.name == x:
            return None
    return 'rename %s' % x


def r_member(f, rng):
    """x in [a, b] -> x in (a, b); x in d.keys() -> x in d; == turned round"""
    c = [n for n in ast.walk(f) if isinstance(n, ast.Compare) and len(n.ops) == 1]
    rng.shuffle(c)
    for n in c:
        r = n.comparators[0]
        if isinstance(n.ops[0], (ast.In, ast.NotIn)):
            if isinstance(r, ast.List):
                n.comparators[0] = ast.Tuple(r.elts, ast.Load())
                return 'in list -> in tuple'
            if isinstance(r, ast.Tuple):
                n.comparators[0] = ast.List(r.elts, ast.Load())
                return 'in tuple -> in list'
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == 'keys':
                n.comparators[0] = r.func.value
                return 'in keys'
        elif isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant):
            n.left, n.comparators[0] = r, n.left
            return 'turn ==' + ast.unparse(n)[:40]
        elif isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            n.left, n.comparators[0] = r, n.left
            n.ops[0] = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()
            return 'turn <' + ast.unparse(n)[:40]
    return None


def r_percent(f, rng):
    """'..%s..' % (a, b) -> format of the parts joined"""
    c = [n for n in ast.walk(f) if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and
         isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple) and len(n.right.elts) >= 2 and '*' not in n.left.value and
         not any(isinstance(x, ast.Starred) for x in n.right.elts)]
    if not c:
        return None
    n = rng.choice(c)
    import re
    bits = re.findall(r'(?:[^%]|%%)*%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]|(?:[^%]|%%)+$', n.left.value)
    k = sum(1 for x in bits if re.search(r'%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]$', x))
    if ''.join(bits) != n.left.value or k != len(n.right.elts) or k < 2:
        return None
    cut = rng.randrange(1, k)
    a = ast.BinOp(ast.Constant(''.join(bits[:cut])), ast.Mod(), ast.Tuple(n.right.elts[:cut], ast.Load()))
    d = ast.BinOp(ast.Constant(''.join(bits[cut:])), ast.Mod(), ast.Tuple(n.right.elts[cut:], ast.Load()))
    n.left, n.op, n.right = a, ast.Add(), d
    return 'split format line %d' % n.lineno


def r_write(f, rng):
    """two writes that follow one another -> one; or one write of a sum -> two"""
    def wr(s):
        return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
            s.value.func.attr == 'write' and len(s.value.args) == 1
    c = [(b, i) for b, i in own_stmts(f) if wr(b[i])]
    rng.shuffle(c)
    for b, i in c:
        a = b[i].value.args[0]
        if i + 1 < len(b) and wr(b[i + 1]) and ast.unparse(b[i + 1].value.func) == ast.unparse(b[i].value.func) and rng.random() < .5:
            x = b[i + 1].value.args[0]
            if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mod) and isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
                b[i].value.args[0] = ast.BinOp(a, ast.Add(), x)
                del b[i + 1]
                return 'join writes line %d' % b[i].lineno
        n = fresh(rng, f)
        b[i:i + 1] = [ast.Assign([ast.Name(n, ast.Store())], a),
                      ast.Expr(ast.Call(b[i].value.func, [ast.Name(n, ast.Load())], []))]
        return 'write of a variable line %d' % getattr(b[i + 1], 'lineno', 0)
    return None


def r_aug(f, rng):
    c = [(b, i) for b, i in own_stmts(f) if isinstance(b[i], ast.AugAssign) and isinstance(b[i].target, ast.Name) and
         isinstance(b[i].value, (ast.Constant, ast.Subscript, ast.Name, ast.BinOp, ast.JoinedStr)) and isinstance(b[i].op, ast.Add)]
    if not c:
        return None
    b, i = rng.choice(c)
    s = b[i]
    b[i] = ast.Assign([ast.Name(s.target.id, ast.Store())], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
    return 'augmented line %d' % s.lineno


def r_helper(f, rng, tree):
    """a run of statements becomes a function of the module"""
    c = []
    for b, i in own_stmts(f):
        for k in (1, 2, 3, 5, 8):
            part = b[i:i + k]
            if len(part) < k:
                break
            if has(part, ast.Return, ast.Yield, ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.Global, ast.Nonlocal,
                   ast.ImportFrom, ast.Import, ast.Delete, ast.GeneratorExp, ast.DictComp, ast.NamedExpr):
                continue
            if any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in part):
                continue
            ok = True
            for s in part:      # break and continue must stay inside
                def loose(n, inloop):
                    if isinstance(n, (ast.Break, ast.Continue)) and not inloop:
                        return True
                    return any(loose(x, inloop or isinstance(n, (ast.For, ast.While))) for x in ast.iter_child_nodes(n))
                ok = ok and not loose(s, False)
            if ok:
                c.append((b, i, k))
    if not c:
        return None
    b, i, k = rng.choice(c)
    part = b[i:i + k]
    mod = ast.Module(part, [])
    stores = names(mod, (ast.Store,))
    stores |= {h.name for h in ast.walk(mod) if isinstance(h, ast.ExceptHandler) and h.name}
    allnames = names(f) | {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
    localv = names(f, (ast.Store,)) | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
    # assigned at the top level of the part or before: it is bound afterwards
    sure = set()
    for s in part:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                sure |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(s, ast.With):
            for it in s.items:
                if it.optional_vars is not None:
                    sure |= names(it.optional_vars)
    loads = names(mod, (ast.Load,)) & localv
    inner = {x.id for q in f.body for x in [] if False}
    if any(isinstance(n, ast.FunctionDef) and n is not f for n in ast.walk(f)):
        return None
    # what may be unbound before or after is left alone
    lineno = part[0].lineno if hasattr(part[0], 'lineno') else 0
    before = set(a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg))
    for q in f.body:       # surely bound before: top-level assignments of the enclosing blocks
        pass

    def bound_before():
        out = set(before)

        def go(blk):
            acc = set()
            for s in blk:
                if s is part[0]:
                    return acc, True
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        acc |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for kk in BLOCKS:
                    x = getattr(s, kk, None)
                    if isinstance(x, list):
                        extra = names(s.target) if isinstance(s, ast.For) and kk == 'body' else set()
                        if isinstance(s, ast.With):
                            for it in s.items:
                                if it.optional_vars is not None:
                                    extra |= names(it.optional_vars)
                        r, hit = go(x)
                        if hit:
                            return acc | extra | r, True
                for h in getattr(s, 'handlers', []):
                    r, hit = go(h.body)
                    if hit:
                        return acc | ({h.name} if h.name else set()) | r, True
            return acc, False
        r, hit = go(f.body)
        return (out | r) if hit else out
    bb = bound_before()
    need = set()
    seen = set()
    for s in part:
        need |= (names(s, (ast.Load,)) & localv) - seen
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            need.add(s.target.id)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                seen |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    inside_bound = set()
    for n in ast.walk(mod):
        if isinstance(n, ast.For):
            inside_bound |= names(n.target)
    for n in ast.walk(mod):
        if isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    inside_bound |= names(it.optional_vars)
    need -= (inside_bound - bb)
    rest_loads = set()
    # names used elsewhere in the function
    count_f, count_m = {}, {}
    for n in ast.walk(f):
        if isinstance(n, ast.Name):
            count_f[n.id] = count_f.get(n.id, 0) + 1
    for n in ast.walk(mod):
        if isinstance(n, ast.Name):
            count_m[n.id] = count_m.get(n.id, 0) + 1
    outs = {x for x in stores if count_f[x] > count_m.get(x, 0)} if stores else set()
    inloop = True
    if not outs <= (sure | bb):
        return None
    need |= {x for x in outs if x not in sure}
    if not need <= bb | inside_bound:
        return None
    if any(x in need and x not in bb for x in inside_bound):
        return None
    # a name stored in a loop or branch of the part and read in it before: reads of itself
    for x in stores:
        if x not in need and x not in sure and x not in inside_bound and x in names(mod, (ast.Load,)):
            return None
        if x in bb and x not in need and x in names(mod, (ast.Load,)) and x not in sure:
            return None
    nm = '_part_%d' % rng.randrange(1000)
    args = sorted(need)
    outs = sorted(outs)
    fn = ast.parse('def %s(%s):\n    pass' % (nm, ', '.join(args))).body[0]
    fn.body = list(part)
    call = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(a, ast.Load()) for a in args], [])
    if outs:
        fn.body.append(ast.Return(ast.Name(outs[0], ast.Load()) if len(outs) == 1 else
                                  ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load())))
        b[i:i + k] = [ast.Assign([ast.Name(outs[0], ast.Store()) if len(outs) == 1 else
                                  ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())], call)]
    else:
        b[i:i + k] = [ast.Expr(call)]
    # after the imports
    at = len(tree.body)
    tree.body.insert(at, fn)
    return 'helper of %d statements at line %d' % (k, lineno)


def r_const(f, rng, tree):
    """a literal becomes a constant of the module"""
    c = []
    for n in ast.walk(f):
        for k, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            if isinstance(n, (ast.JoinedStr, ast.FormattedValue, ast.Expr)):
                continue
            for q, x in enumerate(vs):
                if isinstance(x, ast.Constant) and isinstance(x.value, (str, int, float, bytes)) and not isinstance(x.value, bool) \
                        and x.value != '':
                    c.append((n, k, q if isinstance(v, list) else None, x))
    if not c:
        return None
    n, k, q, x = rng.choice(c)
    nm = '_C%d' % rng.randrange(1000)
    if q is None:
        setattr(n, k, ast.Name(nm, ast.Load()))
    else:
        getattr(n, k)[q] = ast.Name(nm, ast.Load())
    at = 0
    while at < len(tree.body) and (isinstance(tree.body[at], (ast.Import, ast.ImportFrom)) or isinstance(tree.body[at], ast.Expr)):
        at += 1
    tree.body.insert(at, ast.Assign([ast.Name(nm, ast.Store())], x))
    return 'constant %r' % (x.value,)


def r_swap(f, rng):
    """two assignments of constants or names that do not concern one another change places"""
    c = []
    for b, i in own_stmts(f):
        if i + 1 < len(b) and all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and
                                  not has(s.value, ast.Call) for s in b[i:i + 2]):
            x, y = b[i], b[i + 1]
            if has(x.value, ast.Subscript, ast.BinOp) and has(y.value, ast.Subscript, ast.BinOp):
                continue
            if x.targets[0].id not in names(y) and y.targets[0].id not in names(x):
                c.append((b, i))
    if not c:
        return None
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return 'swap'


def r_elif(f, rng):
    """if a: return/raise; rest -> if a: ... else: rest (and back)"""
    c = [(b, i) for b, i in own_stmts(f) if isinstance(b[i], ast.If) and not b[i].orelse and b[i].body and
         isinstance(b[i].body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b)]
    if not c:
        return None
    b, i = rng.choice(c)
    b[i].orelse = b[i + 1:]
    del b[i + 1:]
    return 'else after exit line %d' % b[i].lineno


def r_ternary(f, rng):
    c = [(b, i) for b, i in own_stmts(f) if isinstance(b[i], ast.If) and len(b[i].body) == 1 and len(b[i].orelse) == 1 and
         all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in b[i].body + b[i].orelse) and
         b[i].body[0].targets[0].id == b[i].orelse[0].targets[0].id]
    if not c:
        c2 = [(b, i) for b, i in own_stmts(f) if isinstance(b[i], ast.Assign) and isinstance(b[i].value, ast.IfExp) and
              len(b[i].targets) == 1]
        if not c2:
            return None
        b, i = rng.choice(c2)
        s = b[i]
        b[i] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
        return 'if expression -> if'
    b, i = rng.choice(c)
    s = b[i]
    b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
    return 'if -> if expression line %d' % s.lineno


ALL = [r_temp, r_temp, r_invert, r_invert, r_nest, r_update, r_store, r_while, r_while, r_enum, r_enum, r_comp, r_comp, r_noop,
       r_rename, r_member, r_percent, r_write, r_aug, r_helper, r_helper, r_helper, r_const, r_swap, r_elif, r_elif, r_ternary]


def rewrite(src, pid, rng, k):
    tree = ast.parse(src)
    what = []
    for _ in range(60):
        fs = list(funcs(tree, pid))
        if not fs or len(what) >= k:
            break
        f = rng.choice(fs)
        if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant):
            f.body = f.body[1:] or [ast.Pass()]
        r = rng.choice(ALL)
        before = copy.deepcopy(tree)
        d = r(f, rng, tree) if r in (r_helper, r_const) else r(f, rng)
        ast.fix_missing_locations(tree)
        if d is None:
            tree = before
            continue
        what.append('%s: %s' % (f.name, d))
        tree = ast.parse(ast.unparse(tree))
    return ast.unparse(tree), what


def one(a):
    pid, seed, k, full = a
    rng = random.Random(seed)
    w = tempfile.mkdtemp(prefix='ref')
    keep = False
    try:
        shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns('.git', 'data', 'docs', 'tests'))
        what = []
        fl = files(pid)
        fl = [x for x in fl if 'tools' not in x] or fl
        for f in rng.sample(fl, min(len(fl), k if len(fl) > 3 else 1)):
            src = open(w + '/r/' + f).read()
            new, d = rewrite(src, pid, rng, k)
            open(w + '/r/' + f, 'w').write(new)
            what += ['%s:%s' % (os.path.basename(f), x) for x in d]
        env = dict(os.environ, VERIF_REPO=w + '/r', PYTHONPATH=HERE + ':' + w + '/r', TMPDIR=w, PYTHONDONTWRITEBYTECODE='1',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

        def run(cmd, out, t):
            try:
                p = subprocess.run(cmd, env=env, cwd=w, capture_output=True, text=True, timeout=t)
                return json.load(open(out)), p
            except subprocess.TimeoutExpired:
                return 'timeout', None
            except (OSError, ValueError):
                return None, p
        s, p = run([sys.executable, '-m', 'engine.search', pid, w + '/s.json', '--seconds', '3', '--seed', '7'], w + '/s.json', 40)
        v, q = run([sys.executable, '-m', 'engine.verify', pid, w + '/v.json', '--jobs', '1', '--seconds', '400'], w + '/v.json', 450)
        con = 'hang' if s == 'timeout' else 'crash' if s is None else 'bad' if s['fail'] else 'harness' if s['harness'] else 'ok'
        ver = 'timeout' if v == 'timeout' else 'crash' if v is None else 'ok' if v['ok'] else 'bad'
        why = v['failed'][0]['name'] + ' | ' + str(v['failed'][0]['why'])[-200:].replace('\n', ' ') if ver == 'bad' else \
            q.stderr[-300:] if ver == 'crash' else ''
        tag = 'CHANGED' if con != 'ok' else 'quiet' if ver == 'ok' else 'FALSE'
        if tag == 'FALSE':
            d = '/tmp/w/ref/%s_%d' % (pid, seed)
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(w + '/r', d)
        return '%s %s seed=%d %s | verifier %s %s %s' % (tag, pid, seed, '; '.join(what), ver, why,
                                                     s['fail']['message'][:150] if con == 'bad' else '')
    except Exception as e:
        return 'TOOL %s seed=%d %r' % (pid, seed, e)
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    k = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
        for l in ex.map(one, [(pid, seed * 10000 + i, k, False) for i in range(n)]):
            print(l, flush=True)
