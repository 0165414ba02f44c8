"""Generate the obligations of a property from the current source of the repository, and discharge them.

python3-vt -m engine.verify PID OUT.json [--tier quick|thorough] [-v]"""
import argparse
import itertools
import json
import os
import random
import sys
import time
import traceback
import z3
import contracts
from engine import gen, seqs, same as SM
from engine.cmp import to_json
from engine.ctx import Ctx, Infeasible, LoopDep, NoMerge, Obligation
from engine.interp import Interp, PyExc, BreakX, ReturnX
from engine.same import Differ, value_same, text_same
from engine.symb import SymS, ModelVals, lift, clone
from engine.text import ProgErr, slice_text, text_len
from engine.vals import *
from engine import builders, convert, lib, repair, session, text as T, trusted

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def lacking_case(r, d, o):
    import copy
    bad = copy.deepcopy(d)
    out = lambda n: z3.is_false(r.model.eval(z3.Bool(n), model_completion=True)) if n in r.seen(r.model) else False
    miss = [(k,) for k in d if isinstance(k, str) and out('has:' + k)]
    if r.miss == 'elements':
        val = lambda n: r.model.eval(z3.Int(n), model_completion=True).as_long()
        ks = [k for k in d if type(k) is int]
        k = ks[min(val('lacking kind'), len(ks) - 1)] if ks else None
        i = min(val('lacking'), len(d[k]) - 1) if ks else 0
        miss += [(k, i, x) for x in d[k][i] if out('its:' + str(x))] if ks else []
    elif r.miss is not None:
        miss += [(r.miss, -1, x) for x in d[r.miss][-1] if out('its:' + str(x))]
    for path in miss:
        t = bad
        for x in path[:-1]:
            t = t[x]
        del t[path[-1]]
    return {'kind': 'missing', 'old': b'', 'pid': r.kind, 'd': bad, 'o': o, 'miss': miss, 'first': [], 'next': (r.kind, d, o)}


CASES = {'R%02d' % i: lambda r, d, o: {'d': d, 'o': o, 'mode': 'add'} for i in range(1, 17)}
CASES.update({
    'F04': lambda r, d, o: {'sets': [(r.kind, d, o)], 'big': False, 'sel': None},
    'F05': lambda r, d, o: {'pid': r.kind, 'd': d, 'o': o},
    'F07': lambda r, d, o: lacking_case(r, d, o),
    'F10': lambda r, d, o: {'pid': r.kind, 'd': d, 'o': o, 'header': False},
})


def zb_(p):
    return z3.BoolVal(p) if isinstance(p, bool) else p


class Run:
    def __init__(self, pid, tier, seconds, verbose=False, part=(0, 1)):
        self.pid, self.tier, self.verbose, self.part = pid, tier, verbose, part
        self.shapes = {}           # shape -> [ordinal, paths, paths that are not contradictory at their end]
        self.t0 = time.time()
        self.deadline = self.t0 + seconds
        self.ctx = Ctx(timeout_ms=4000 if tier == 'quick' else 20000, deadline=self.deadline)
        self.ctx.shape = None
        self.I = Interp(self.ctx, REPO, VERIF)
        self.failed, self.candidates, self.names = [], [], {}
        self.bounded = []
        self.assumed = []

    @staticmethod
    def seen(model):
        return {x.name() for x in model.decls()}

    # -- obligations
    def good(self, name):
        self.names[name] = self.names.get(name, 0) + 1

    def bad(self, name, why, model=None):
        self.failed.append({'name': name, 'why': why, 'path': {k: v if isinstance(v, (str, int)) else repr(v) for k, v in self.ctx.shape.picks.items()} if self.ctx.shape else {}})
        if self.verbose:
            print('FAILED', name, self.failed[-1]['path'], '\n   ', why)
        if model is not None and self.ctx.shape is not None:
            self.candidate(model)

    def candidate(self, model):
        """the instance of the precondition that a model describes"""
        if getattr(self, 'make_case', None) and len(self.candidates) < 12:
            try:
                c = to_json(self.make_case(model))
                if c not in self.candidates:
                    self.candidates.append(c)
            except Exception:
                if os.environ.get('VDEBUG'):
                    traceback.print_exc()
            return
        if self.pid not in CASES or len(self.candidates) >= 12 or self.kind not in contracts.R:
            return
        try:
            from engine import concrete
            sh = self.ctx.shape
            S = gen.ModelS(random.Random(1), ([1], [1.0], ['a']), ModelVals(model, sh), sh.path)
            self.model = model
            sp = concrete.spec(S.path.pop(0))
            d, o = sp.make(S)
            c = to_json(CASES[self.pid](self, d, o))
            if c not in self.candidates:
                self.candidates.append(c)
        except Exception:
            if os.environ.get('VDEBUG'):
                traceback.print_exc()

    def mine(self, S):
        """is this shape one for this process?"""
        k = repr(S.path)
        if k not in self.shapes:
            self.shapes[k] = [len(self.shapes), 0, 0]
        if self.shapes[k][0] % self.part[1] != self.part[0]:
            return None
        self.shapes[k][1] += 1
        return self.shapes[k]

    def oblige(self, name, f):
        """run a proof; its outcome is the obligation of that name on this path"""
        try:
            r = f()
        except Differ as e:
            self.bad(name, e.msg, getattr(e, 'model', None))
            return None, False
        except PyExc as e:
            m = self.ctx.small_model(z3.BoolVal(True), self.ctx.sizes)
            self.bad(name, 'raises %s' % e, m)
            return None, False
        except Infeasible:
            raise
        except (Unsupported, NoMerge, ProgErr, seqs.Misaligned, seqs.OutOfRange) as e:
            if os.environ.get('VDEBUG'):
                traceback.print_exc()
            self.bad(name, 'not discharged: %s %s' % (type(e).__name__, e),
                     self.ctx.small_model(z3.BoolVal(True), self.ctx.sizes))
            return None, False
        self.good(name)
        return r, True

    def module(self, pid):
        return contracts.load(pid)

    # -- interpreted contracts
    def spec(self, m, fn, *args):
        f = self.I.func(m.__name__ + '.' + fn)
        return self.I.call(f, list(args), {})

    def files(self, c):
        self.I.files = {"F": c}

    def fresh(self):
        self.I.fresh_path()
        self.ctx.shape = None
        self.ctx.sizes = []
        self.I.files = {}
        self.I.contracts = {}
        self.make_case = None
        for a in ('open_hook', 'exists_hook'):
            if hasattr(self.I, a):
                delattr(self.I, a)

    # -- the UFF object
    def uff(self, **attrs):
        """an object in an arbitrary state, with the given attributes (see F01 for what refresh establishes)"""
        self.I.contracts['UFF.refresh'] = self.refresh
        u = HObj(self.I.func('pyuff.pyuff.UFF'))
        u.open = True
        u.attrs.update({'_filename': 'F', '_refreshed': True})
        u.attrs.update(attrs)
        return u

    def refresh(self, I, f, a, kw):
        """contract of UFF.refresh (discharged in F01): the index describes the current content, if there is a file"""
        u = a[0]
        c = I.files['F']
        I.setattr_(u, '_refreshed', bool(c.attrs.get('exists', True)))
        I.setattr_(u, '.indexed', c.attrs['t'])
        for k in ('_n_sets', '_set_types', '_set_formats'):
            I.setattr_(u, k, HObj('report', {'of': c.attrs['t'], 'what': k}))
        return u.attrs['_refreshed']

    def opaque(self, name, lo=0):
        n = z3.Int('len_' + name)
        self.ctx.assume(z3.And(n >= lo, n < 10 ** 12), 0)
        return Opq(z3.Const(name, AtomSort), n)

    def method(self, u, name, *args, **kw):
        return self.I.call(self.I.getattr(u, name), list(args), kw)

    # -- R
    def write(self, m, d, o, mode='add'):
        """the text that _write_set adds to a file with any (terminated) content"""
        I = self.I
        pre = Text([self.opaque('earlier'), Lit('\n')], True)
        content = HObj('content', {'t': pre})
        I.files = {'F': content}
        self.method(self.uff(), '_write_set', d, mode, force_double=o.get('force_double', True))
        t = to_text(content.attrs['t'])
        if mode == 'overwrite':
            return from_text(t)
        if not (len(t.segs) >= 2 and t.segs[0] is pre.segs[0] and isinstance(t.segs[1], Lit) and
                t.segs[1].s.startswith('\n')):
            SM.differ(self.ctx, 'the earlier content of the file changed: %s' % SM.show(list(t.segs)))
        return from_text(Text([Lit(t.segs[1].s[1:])] + list(t.segs[2:]), True))

    def block(self, lay):
        """the part of the text that a reader is given"""
        t = to_text(lay)
        tail = '    -1\n'
        last = t.segs[-1]
        if not (isinstance(last, Lit) and last.s.endswith(tail)):
            raise Unsupported('layout without closing delimiter')
        return from_text(Text(list(t.segs[:-1]) + [Lit(last.s[:-len(tail)])], t.b))

    def read(self, m, blk, header_only=False, kind=None):
        """what _read_set gives for a block in the middle of a file"""
        I = self.I
        pre, post = self.opaque('before'), self.opaque('after', 1)
        n = z3.Int('len_block')
        self.ctx.assume(z3.And(n >= 1, n < 10 ** 12), 0)
        blk = Text(to_text(blk).segs, True)
        content = HObj('content', {'t': Text([pre, Opq(z3.Const('block', AtomSort), n), post], True), 'chunks': (
            (Text([pre], True), pre.ln), (blk, n), (Text([post], True), post.ln))})
        I.files = {'F': content}

        def ints(*v):
            return Arr(Seq([Items(list(v))]), 'i')
        u = self.uff(_n_sets=3, _set_types=ints(SInt(z3.Int('type0')), kind or m.TYPE, SInt(z3.Int('type2'))),
                     _set_formats=ints(SInt(z3.Int('fmt0')), SInt(z3.Int('fmt1')), SInt(z3.Int('fmt2'))),
                     _block_ind=Arr(Seq([Items([ints(0, SInt(z3.Int('end0'))),
                                                ints(SInt(pre.ln), SInt(pre.ln + n - 1)),
                                                ints(SInt(z3.Int('start2')), SInt(z3.Int('end2')))])]), 'i', 2))
        return self.method(u, '_read_set', 1, header_only=header_only)

    def over(self, pids, fn):
        """fn(m, d, o, lifted o, shape) for every shape of the data-sets of the given kinds"""
        for pid in pids:
            m = self.module(pid)

            def path():
                self.fresh()
                self.kind = pid
                S = SymS(self.ctx)
                S.path.append(pid)
                S.picks['kind'] = pid
                d, o = m.shape(S)
                mine = self.mine(S)
                if mine is None or not self.ctx.feasible():
                    return
                fn(m, d, o, lift(o), S)
                mine[2] += self.ctx.feasible()
            self.ctx.explore(path)

    def names_of(self, m):
        return [m.FUNCS[k].rsplit('.', 1)[1] for k in ('writer', 'reader')]

    def prop_r(self):
        def check(m, d, o, od, S):
            fw, fr = self.names_of(m)
            mode = S.choose('mode', ['add', 'overwrite']) if self.pid == 'R05' else 'add'
            given = clone(d)
            lay = self.spec(m, 'layout', clone(d), od)
            got, ok = self.oblige(fw + ': writes the data-set without an exception', lambda: self.write(m, given, o, mode))
            if ok:
                self.oblige(fw + ': the text written is layout(d)', lambda: text_same(
                    self.ctx, Text(to_text(got).segs, False), Text(to_text(lay).segs, False), 'text'))
            if mode == 'overwrite':
                return
            self.reads(m, fr, d, od, lay, 'expect', '')
            if self.pid == 'R05':
                self.reads(m, fr, d, od, self.spec(m, 'layout_big', clone(d), od), 'expect_big', ' (other byte order)')
        self.over([self.pid], check)
        if hasattr(self.module(self.pid), 'refused'):
            self.refuses()

    def refuses(self):
        """the writer refuses the data-sets of another precondition"""
        m = self.module(self.pid)

        def path():
            self.fresh()
            self.kind = self.pid
            S = SymS(self.ctx)
            S.path.append('refused')
            d = m.refused(S)
            mine = self.mine(S)
            if mine is None or not self.ctx.feasible():
                return

            def case(model):
                from engine import concrete
                c = gen.ModelS(random.Random(1), ([1], [1.0], ['a']), ModelVals(model, S), S.path[1:])
                return {'refused': concrete.spec(self.pid).m.refused(c)}
            self.ctx.shape, self.make_case = S, case
            S.picks['refused'] = True

            def run():
                try:
                    self.write(m, d, {})
                except PyExc:
                    return
                SM.differ(self.ctx, 'no exception')
            self.oblige('%s: %s is refused' % (self.names_of(m)[0], m.refused.__doc__), run)
            mine[2] += self.ctx.feasible()
        self.ctx.explore(path)

    def reads(self, m, fr, d, od, lay, expect, tag):
        exp = self.spec(m, expect, clone(d), od)
        blk = self.block(lay)
        res, ok = self.oblige(fr + ': reads layout(d) without an exception' + tag, lambda: self.read(m, blk))
        if ok:
            self.dict_same(fr, res, exp, tag, 'expect(d)')

    def dict_same(self, fr, res, exp, tag, what):
        if not isinstance(res, HDict):
            self.bad(fr + ': gives a dictionary' + tag, repr(res))
            return
        ee = {k: (p, v) for k, p, v in exp.entries}
        self.oblige('%s: the keys of the result are those of %s%s' % (fr, what, tag),
                    lambda: self.keys_same(res, exp, self.kind == 'R16'))
        for k, (p, v) in ee.items():
            for k2, q, g in res.entries:
                if k2 == k:
                    self.oblige('%s: result[%r] == %s[%r]%s' % (fr, k, what, k, tag),
                                lambda: value_same(self.ctx, HDict([(k2, p, g)]), HDict([(k, p, v)]), ''))

    # -- F04
    def prop_f04(self):
        def check(m, d, o, od, S):
            fr = self.names_of(m)[1]
            for lay, tag in [('layout', '')] + [('layout_big', ' (other byte order)')] * (self.kind == 'R05'):
                blk = self.block(self.spec(m, lay, clone(d), od))
                full, ok = self.oblige('%s: full read without an exception%s' % (fr, tag), lambda: self.read(m, blk))
                head, ok2 = self.oblige('%s: header-only read without an exception%s' % (fr, tag),
                                        lambda: self.read(m, blk, True))
                if not (ok and ok2):
                    continue
                if m.TYPE == 58:
                    def there():
                        for k in ('x', 'data'):
                            if not any(a == k and p is True and isinstance(v, Arr) for a, p, v in full.entries):
                                SM.differ(self.ctx, '%r is missing from the full read' % k)
                    self.oblige('%s: the full read has the data%s' % (fr, tag), there)
                    full = HDict([(k, p, None if k in ('x', 'data') else v) for k, p, v in full.entries])
                self.dict_same(fr, head, full, tag, 'full read')
        self.over(contracts.R, check)

    # -- F05
    MAY = {'R04': ('ord_data_type', 'n_bytes', 'abscissa_min'), 'R05': ('ord_data_type', 'n_bytes', 'abscissa_min')}

    def prop_f05(self):
        f05 = contracts.load('F05')

        def check(m, d, o, od, S):
            fw = self.names_of(m)[0]
            I = self.I
            extra = S.int('a field of the caller', 10)
            given = clone(d)
            S.set(given, 'a field of the caller', extra)
            before = clone(given)
            text, ok = self.oblige(fw + ': writes the data-set without an exception', lambda: self.write(m, given, o))
            if not ok:
                return
            dflt = I.call(I.func(f05.__name__ + '.defaults'), [self.kind, clone(before), od], {})
            dflt = {k: v for k, p, v in dflt.entries}
            after = {k: (p, v, k) for k, p, v in given.entries}
            opt = I.func('contracts.spec.opt')
            for k, p, v in before.entries:
                what = '%s: the field %r keeps its value' % (fw, k)

                def kept():
                    q, g, k2 = after.get(k, (False, None, k))
                    if q is not True and not self.ctx.prove(z3.Implies(zb_(p), zb_(q))):
                        SM.differ(self.ctx, '%r disappears' % k, z3.And(zb_(p), z3.Not(zb_(q))))
                    if k in self.MAY.get(self.kind, ()) and not (k == 'ord_data_type' and not o['force_double']):
                        return
                    w = I.call(I.func(f05.__name__ + '.groups_after'), [clone(v)], {}) if k == 'groups' else v
                    value_same(self.ctx, HDict([(k2, p, g)]), HDict([(k, p, w)]), '')
                self.oblige(what, kept)
            for k, v in dflt.items():
                def added():
                    q, g, _ = after.get(k, (False, None, k))
                    if q is not True and not self.ctx.prove(zb_(q)):
                        SM.differ(self.ctx, '%r is not added' % k, z3.Not(zb_(q)))
                    p = {a: b for a, b, c in before.entries}.get(k, False)
                    absent = z3.Not(zb_(p))
                    if p is True:
                        return
                    self.ctx.push([], 'map')
                    try:
                        self.ctx.assume(absent)
                        if self.ctx.feasible():
                            self.default_same(g, v, k)
                    finally:
                        self.ctx.pop()
                self.oblige('%s: the optional field %r is added with its default' % (fw, k), added)
            again, ok = self.oblige(fw + ': writes the same dictionary again', lambda: self.write(m, given, o))
            if ok:
                self.oblige(fw + ': gives the same text again', lambda: text_same(self.ctx, again, text, 'text'))
        self.over(contracts.R, check)

    def default_same(self, g, v, k):
        try:
            return value_same(self.ctx, g, v, k)
        except Differ:
            # 0 and '0' are the same default
            if isinstance(v, (int, float, str)) and isinstance(g, (int, float, str)) and str(v) == str(g):
                return
            raise

    # -- F10
    def prop_f10(self):
        def check(m, d, o, od, S):
            fw, fr = self.names_of(m)
            lay = self.spec(m, 'layout', clone(d), od)
            res, ok = self.oblige(fr + ': reads layout(d) without an exception', lambda: self.read(m, self.block(lay)))
            if not ok:
                return
            got, ok = self.oblige(fw + ': writes what was read without an exception', lambda: self.write(m, res, o))
            if ok:
                self.oblige(fw + ': writes layout(d) again', lambda: text_same(
                    self.ctx, Text(to_text(got).segs, False), Text(to_text(lay).segs, False), 'text'))
        self.over(contracts.R, check)

    # -- file contents
    CONTENTS = ['absent', 'empty', 'ends in a line feed', 'ends in a carriage return', 'ends in another byte']

    def content_of(self, kind, name='old'):
        if kind == 'absent':
            return HObj('content', {'t': b'', 'exists': False})
        if kind == 'empty':
            return HObj('content', {'t': b''})
        old = self.opaque(name)
        if kind == 'ends in another byte':
            last = Opq(z3.Const('last_' + name, AtomSort), z3.IntVal(1))
            self.ctx.assume(z3.And(*[last.e != lit_atom(x) for x in '\n\r'],
                                   T.byteval(last.e) >= 0, T.byteval(last.e) <= 255,
                                   *[T.byteval(last.e) != x for x in (10, 13)]), 0)
        else:
            last = Lit('\n' if kind.endswith('feed') else '\r')
        return HObj('content', {'t': Text([old, last], True)})

    def unchanged(self, c, before):
        if c.attrs.get('exists', True) is not True:
            if before.attrs.get('exists', True) is True:
                SM.differ(self.ctx, 'the file is gone')
        elif before.attrs.get('exists', True) is not True and not (isinstance(c.attrs['t'], bytes) and c.attrs['t'] == b''):
            SM.differ(self.ctx, 'the file was created: %r' % (c.attrs['t'],))
        text_same(self.ctx, c.attrs['t'], before.attrs['t'], 'file content')

    # -- F07
    def maybe(self, d, keys, name):
        """the dictionary, with some fields that may be missing; the conditions under which they are there"""
        has = {k: z3.Bool('%s:%s' % (name, k)) for k in keys}
        return HDict([(k, has[k] if k in has else p, v) for k, p, v in d.entries]), list(has.values())

    def lacking(self, d, paths, path):
        """the dictionary without any non-empty set of required fields: of its own fields, or of those of one of a list
        of groups or elements"""
        d, has = self.maybe(d, [x[0] for x in paths if len(x) == 1], 'has')
        if path is None:
            self.ctx.assume(z3.Not(z3.And(*has)), 0)
            return d
        k = path
        if not isinstance(k, str):
            d = HDict(d.entries)
            lib.own_entry(self.I, d, lib.find_entry(self.I, d, k), k)
        at = lib.find_entry(self.I, d, k)
        v = d.entries[at][2]
        n = seqs.seq_len_e(self.ctx, v.seq)
        i = z3.Int('lacking')
        self.ctx.assume(z3.And(i >= 0, i < n), 0)
        a, rest = seqs.split_at(self.ctx, v.seq, mkint(i))
        c = seqs.split_at(self.ctx, rest, 1)[1]
        g, its = self.maybe(clone(seqs.index(self.ctx, v.seq, mkint(i))), [x[2] for x in paths if len(x) == 3 and (x[0] is k or x[0] == k)], 'its')
        self.ctx.assume(z3.Not(z3.And(*its)), 0)
        return HDict([(x, p, HList(seqs.concat(a, Seq([Items([g])]), c)) if i == at else w)
                      for i, (x, p, w) in enumerate(d.entries)])

    def prop_f07(self):
        f07 = contracts.load('F07')
        req = self.I.func(f07.__name__ + '.required')

        def check(m, d, o, od, S):
            """every writer refuses a data-set that lacks a required field, after any part of the text was written"""
            fw = self.names_of(m)[0]
            if self.kind in ('R15', 'R16'):
                i, n = z3.Int('lacking'), seqs.seq_len_e(self.ctx, lib.dict_get(self.I, d, 'groups').seq)
                self.ctx.assume(z3.And(i >= 0, z3.Or(i < n, n == 0)), 0)
                od = HDict(od.entries + (('lacking', True, SInt(i)),))
            if self.kind == 'R12':
                # any of the elements under any of the keys
                q, n = z3.Int('lacking kind'), seqs.seq_len_e(self.ctx, lib.dict_get(self.I, od, 'kinds').seq)
                self.ctx.assume(z3.And(q >= 0, z3.Or(q < n, n == 0)), 0)
                od = HDict(od.entries + (('lacking', True, SInt(q)),))
            paths = [('type',)] + [tuple(lib.items(self.I, x)) for x in
                                   lib.items(self.I, self.I.call(req, [self.kind, clone(d), od], {}))]
            inner = [x[0] for x in paths if len(x) > 1]
            inner = inner[:1] if inner and not isinstance(inner[0], str) else sorted(set(inner))
            miss = S.choose('lacks', [None] + ['elements' if isinstance(x, SInt) else x for x in inner])
            self.miss = miss
            if miss == 'elements':
                miss = inner[0]
            bad = clone(self.lacking(d, paths, miss))
            name = '%s: a data-set that lacks %s' % (fw, 'required fields' if miss is None else 'required fields of a group or element')
            self.refused(name, 'ends in another byte', lambda u: self.method(
                u, 'write_sets', bad, 'add', force_double=o.get('force_double', True)))
        self.over(contracts.R, check)
        session.refusals(self)

    def refused(self, name, kind, f):
        """f raises, and the content of the file stays as it is"""
        c, before = self.content_of(kind), self.content_of(kind)
        self.I.files = {'F': c}
        u = self.uff()
        raised = False
        try:
            f(u)
        except PyExc:
            raised = True
        except (Unsupported, NoMerge, ProgErr, seqs.Misaligned, seqs.OutOfRange) as e:
            if os.environ.get('VDEBUG'):
                traceback.print_exc()
            self.bad(name + ': raises', 'not discharged: %s %s' % (type(e).__name__, e),
                     self.ctx.small_model(z3.BoolVal(True), self.ctx.sizes))
            return

        def rz():
            if not raised:
                SM.differ(self.ctx, 'no exception')
        self.oblige(name + ': raises', rz)
        self.oblige(name + ': the file content stays', lambda: self.unchanged(c, before))
        self.oblige(name + ': the index describes the file', lambda: text_same(
            self.ctx, u.attrs.get('.indexed', before.attrs['t']), before.attrs['t'], 'indexed content'))

    def prop_f01(self):
        session.scanning(self)

    def prop_f02(self):
        session.writing(self)

    def prop_f03(self):
        session.reading(self)

    def prop_f06(self):
        builders.building(self)

    def prop_f09(self):
        convert.converting(self)

    def prop_f08(self):
        repair.repairing(self)

    def cases(self, f, **lists):
        """f(S, value, ...) for every combination of values, as separate paths"""
        def path():
            self.fresh()
            S = SymS(self.ctx)
            vs = {k: S.choose(k, v) for k, v in lists.items()}
            self.kind = vs.get('kind')
            mine = self.mine(S)
            if mine is None:
                return
            f(S, **vs)
            mine[2] += self.ctx.feasible()
        self.ctx.explore(path)

    def keys_same(self, res, exp, extra):
        ge = {k: p for k, p, v in res.entries}
        for k, p, v in exp.entries:
            if k not in ge:
                if p is True or not self.ctx.prove(z3.Not(p)):
                    SM.differ(self.ctx, '%r is missing' % (k,), p if p is not True else None)
                continue
            SM.groups_same(self.ctx, k, [x for x, _, _ in res.entries if x == k][0], 'the result')
            q = ge[k]
            pz, qz = (z3.BoolVal(x) if isinstance(x, bool) else x for x in (p, q))
            if not self.ctx.prove(pz == qz):
                SM.differ(self.ctx, '%r is there when %s, expected when %s' % (k, q, p), pz != qz)
        ks = {k for k, p, v in exp.entries}
        for k, p, v in res.entries:
            if k not in ks and p is not False and not (p is not True and self.ctx.prove(z3.Not(p))):
                if not (extra and SM.blank(self.ctx, v)):
                    SM.differ(self.ctx, '%r is not expected' % (k,))

    def go(self):
        seqs._offs.clear()
        try:
            f = self.prop_r if self.pid[0] == 'R' else getattr(self, 'prop_' + self.pid.lower(), None)
            if f is None:
                raise Unsupported('no deductive check for %s' % self.pid)
            f()
        except (Unsupported, NoMerge, ProgErr, seqs.Misaligned, seqs.OutOfRange, PyExc) as e:
            if os.environ.get('VDEBUG'):
                traceback.print_exc()
            self.bad('verification-condition generation', '%s %s' % (type(e).__name__, e))
        except Exception:
            self.bad('verification-condition generation', traceback.format_exc()[-1500:])
        for k, (i, a, b) in self.shapes.items():
            if a and not b and not self.failed:
                self.bad('vacuity', 'no path of shape %s is satisfiable' % k)
        return self.result()

    def result(self):
        return {'names': self.names, 'failed': self.failed[:60], 'candidates': self.candidates[:12],
                'assumed': self.assumed, 'used': sorted(self.I.used), 'paths': sum(x[1] for x in self.shapes.values()),
                'queries': self.ctx.queries, 'solver_s': self.ctx.solver_s,
                'loops': sorted({'%s:%s %s' % (a, b, '+'.join(c)) for a, b, c in self.I.loops})}


def work(a):
    pid, tier, seconds, verbose, part = a
    sys.setrecursionlimit(20000)
    return Run(pid, tier, seconds, verbose, part).go()


def run(pid, tier, seconds, verbose=False, jobs=None):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    if jobs == 1:
        rs = [work((pid, tier, seconds, verbose, (0, 1)))]
    else:
        import multiprocessing
        with multiprocessing.get_context('fork').Pool(jobs) as pool:
            rs = pool.map(work, [(pid, tier, seconds, verbose, (i, jobs)) for i in range(jobs)], 1)
    names = {}
    for r in rs:
        for k, v in r['names'].items():
            names[k] = names.get(k, 0) + v
    failed = [f for r in rs for f in r['failed']]
    if not names and not failed:
        failed.append({'name': 'vacuity', 'why': 'no obligation was generated'})
    bad = {f['name'] for f in failed}
    # simplest candidates of each process first
    cands = [c for t in itertools.zip_longest(*[r['candidates'] for r in rs]) for c in t if c is not None]
    return {'ok': not failed,
            'obligations': sorted('%s [%d paths]' % (k, v) for k, v in names.items() if k not in bad),
            'failed': failed[:60], 'candidates': cands[:40],
            'trusted': trusted.base(pid), 'assumptions': trusted.assumptions(pid) + sorted({x for r in rs for x in r['assumed']}),
            'coverage': {'functions_under_contract': sorted({x for r in rs for x in r['used']}),
                         'obligation_instances': sum(names.values()),
                         'paths': sum(r['paths'] for r in rs), 'solver_queries': sum(r['queries'] for r in rs),
                         'solver_s': round(sum(r['solver_s'] for r in rs), 2),
                         'back_end': 'z3 ' + z3.get_version_string(),
                         'loops_summarised': sorted({x for r in rs for x in r['loops']}),
                         'verify_s': round(time.time() - t0, 2)}}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    r = run(a.pid, a.tier, a.seconds or (360 if a.tier == 'quick' else 2700), a.v, a.jobs)
    with open(a.out, 'w') as f:
        json.dump(r, f, indent=1, default=repr)
    print(r['ok'], len(r['obligations']), 'obligations', len(r['failed']), 'failed', r['coverage']['paths'], 'paths',
          r['coverage']['verify_s'], 's', r['coverage']['solver_queries'], 'queries')


if __name__ == '__main__':
    main()
