"""Symbolic harness back end and the path explorer."""
import decimal
import importlib
import random
import sys
import time
import traceback

import z3

from . import core, instrument, models, values, seq
from .common import BaseH, Patches, enc, purge
from .core import (Ctx, Stats, EngineExc, PathEnd, SpecAbort, CaseStop, EngineError)
from .values import SymBool, SymInt, truth, decide, b_and, b_or, new_var, fresh_bits, zb
from .dec import SymDecimal, SymFloat


def struct_eq(a, b):
    """Deep equality as bool/SymBool."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not hasattr(a, '__symvalue__'):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return b_and([struct_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        out = []
        for k, v in a.items():
            f, kk = models.dict_find(b, k)
            if not f:
                return False
            out.append(struct_eq(v, models._raw_get(b, kk)))
        return b_and(out)
    return models.sym_eq(a, b)


class SymH(BaseH):
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.patches = Patches()
        self.reached = set()

    def _in(self, name, v):
        self.ctx.inputs.append((name, v))
        return v

    def call(self, f, *a, **k):
        return models.call(f, *a, **k)

    # -- inputs
    def int(self, name, lo, hi):
        return self._in(name, new_var('in.' + name, lo, hi))

    def bits(self, name, n):
        return self._in(name, fresh_bits('in.' + name, n))

    def bool(self, name):
        return self._in(name, SymBool(z3.Bool('in.' + name)))

    def bytes(self, name, n, bits=False):
        if n == 0:
            return self._in(name, b'')
        if bits:
            chs = [seq.chunk_iv(fresh_bits('in.%s.%d' % (name, i), 8), 1) for i in range(n)]
            return self._in(name, seq.mkbytes(chs))
        return self._in(name, seq.mkbytes([seq.CI(new_var('in.' + name, 0, 256 ** n - 1), n)]))

    def blob(self, name, lo, hi):
        ln = lo if lo == hi else new_var('in.%s.len' % name, lo, hi)
        b = seq.Blob(name, ln)
        return self._in(name, seq.mkbytes([seq.CL(b, 0, ln)]))

    def str(self, name, n, alphabet=None, lo=0, hi=0x10ffff):
        if alphabet is not None:
            al = [ord(c) for c in alphabet]
            cps = []
            for i in range(n):
                v = new_var('in.%s.%d' % (name, i), 0, len(al) - 1)
                cps.append(values.map_fn(v, lambda x: al[x]))
        else:
            cps = [new_var('in.%s.%d' % (name, i), lo, hi) for i in range(n)]
        return self._in(name, seq.mkstr(tuple(cps)))

    def decimal(self, name, lo, hi, exp):
        """lo..hi are coefficients; value = coef * 10**exp"""
        v = new_var('in.' + name, lo, hi)
        return self._in(name, SymDecimal(v, exp))

    def float(self, name, lo, hi, exp):
        """the float written as the literal coef * 10**exp, lo <= coef <= hi"""
        return self._in(name, SymFloat(SymDecimal(new_var('in.' + name, lo, hi), exp)))

    def scaled(self, n, exp):
        """the decimal n * 10**exp, exactly (n >= 0)"""
        return SymDecimal(n, exp)

    def to_float(self, n, exp):
        """the float written as the literal n * 10**exp (at most 15 digits)"""
        return SymFloat(SymDecimal(n, exp))

    def fork(self, name, n):
        k = n if isinstance(n, int) else len(n)
        i = self.ctx.choose_free(k)
        self._in(name, i)
        return i if isinstance(n, int) else n[i]

    def value(self, x):
        """fork over the concrete values of x"""
        return values.concretize_int(x)

    # -- claims
    def assume(self, cond):
        t = truth(cond)
        if t is True:
            return
        if t is False:
            raise PathEnd()
        q = t.quick()
        if q is True:
            return
        if q is False:
            raise PathEnd()
        self.ctx.assume(t.z())
        t.learn(True)

    def _check(self, label, t):
        if isinstance(t, SymBool):
            q = t.quick()
            t = q if q is not None else t.z()
        self.ctx.check(t, label)

    def check(self, label, cond, info=None):
        self._check(label, truth(cond))

    def check_eq(self, label, a, b, info=None):
        self._check(label, truth(struct_eq(a, b)))

    def eq(self, a, b):
        return struct_eq(a, b)

    def observe(self, name, v):
        self.ctx.observations.append((name, v))

    def note(self, *a):
        pass

    def reach(self, label):
        self.reached.add(label)

    def all(self, conds):
        return b_and([truth(c) for c in conds])

    def any(self, conds):
        return b_or([truth(c) for c in conds])

    def control_random(self, limit=None):
        # every outcome of the first `limit` draws (all if None) is explored, later draws yield 0
        self.ctx.rand_limit = limit
        self.patches.set(random._inst, '_randbelow', models.rand_below)


def fresh_decimal():
    decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN,
                                       traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow]))


def extract(ctx, model):
    vals = {}
    for name, v in ctx.inputs:
        vals[name] = enc(seq.eval_any(model, v))
    return vals


def diverse(ctx, n):
    """up to n models of the path, the inputs drawn at random where the path allows it"""
    m = ctx.model()
    if m is None:
        return
    yield m
    rng = random.Random(7)
    vs = []
    for name, v in ctx.inputs:
        v = v.d.coef if isinstance(v, SymFloat) else v.coef if isinstance(v, SymDecimal) else v
        if isinstance(v, SymInt):
            vs.append(v)
    if not vs:
        return
    for _ in range(n - 1):
        ctx.solver.push()
        try:
            rng.shuffle(vs)
            for v in vs[:8]:
                lo, hi = values.bounds(v)
                span = hi - lo
                if rng.random() < .5:
                    span = min(span, 10 ** rng.randrange(1, max(2, len(str(span)) + 1)))
                c = values.zint(v) == lo + rng.randrange(span + 1)
                if ctx.check_sat(c) == z3.sat:
                    ctx.solver.add(c)
            m = ctx.model()
            if m is not None:
                yield m
        finally:
            ctx.solver.pop()


class Result:
    def __init__(self):
        self.candidates = []   # dicts label, values, choices
        self.witnesses = []
        self.errors = []
        self.complete = True
        self.cut = None
        self.unknown = []
        self.reached = set()


MAX_CAND = 12


def explore(case, seed=1, deadline=None, max_witness=3):
    nomerge = set()
    t0 = time.perf_counter()
    total_restarts = 0
    while True:
        r = _explore(case, nomerge, seed, deadline, max_witness)
        if isinstance(r, SpecAbort):
            nomerge.add(r.site)
            total_restarts += 1
            if total_restarts > 400:
                raise EngineError('too many merge restarts')
            continue
        res, stats = r
        break
    out = stats.as_dict()
    out.update(case=case.name, bounds=case.bounds, candidates=res.candidates, witnesses=res.witnesses,
               errors=res.errors, complete=res.complete, cut=res.cut, unknown_labels=sorted(set(res.unknown)),
               reach=sorted(res.reached), restarts=total_restarts, wall_s=round(time.perf_counter() - t0, 3))
    return out


def run_path(case, ctx):
    core.set_ctx(ctx)
    purge()
    random.seed(1)
    fresh_decimal()
    h = SymH(ctx)
    ctx.h = h
    try:
        models.call(case.fn, h, **case.kw)
    finally:
        h.patches.restore()
        core.set_ctx(None)
    return h


def _explore(case, nomerge, seed, deadline, max_witness):
    stats = Stats()
    res = Result()
    pending = [[]]
    npaths, first = 0, None
    t0 = time.perf_counter()
    while pending:
        if deadline and time.perf_counter() > deadline:
            res.complete, res.cut = False, 'time limit with %d branches pending' % len(pending)
            break
        if npaths >= case.max_paths:
            res.complete, res.cut = False, 'path limit with %d branches pending' % len(pending)
            break
        prefix = pending.pop()
        ctx = Ctx(prefix, stats, nomerge, seed, deadline)
        npaths += 1
        before = dict(stats.reached)
        exc = None
        ok = True
        try:
            run_path(case, ctx)
        except PathEnd:
            stats.infeasible += 1
            ok = False
        except SpecAbort as e:
            return e
        except CaseStop as e:
            res.complete, res.cut = False, 'time limit with %d branches pending' % (len(pending) + 1)
            ok = False
            pending = []
        except (EngineError, RecursionError) as e:
            res.errors.append('%s: %s' % (type(e).__name__, e))
            res.complete = False
            ok = False
            # the encoding gives up on this path: at least run the real code on one of its inputs
            if len(res.errors) <= 10:
                core.set_ctx(ctx)
                try:
                    for m in diverse(ctx, 24 if len(res.errors) <= 3 else 4):
                        res.witnesses.append({'values': extract(ctx, m), 'choices': list(ctx.choices), 'obs': [],
                                              'abandoned': True})
                except (EngineExc, Exception):
                    pass
            if len(res.errors) > 40:
                res.cut = 'encoding failed on more than 40 paths'
                break
        except Exception as e:
            exc = e
        res.witnesses.extend(ctx.extra)
        core.set_ctx(ctx)
        try:
            if ok:
                try:
                    m = ctx.model()
                except CaseStop:
                    res.complete, res.cut = False, 'time limit'
                    break
                if m is None and ctx.check_sat() == z3.unsat:
                    stats.infeasible += 1
                    stats.reached = before
                else:
                    stats.paths += 1
                    res.reached |= ctx.h.reached
                    if ctx.incomplete:
                        res.complete = False
                    if exc is not None:
                        tb = traceback.extract_tb(exc.__traceback__)
                        where = ' <- '.join('%s:%s' % (f.name, f.lineno) for f in reversed(tb[-4:]))
                        stats.obligations += 1
                        if m is not None:
                            res.candidates.append({'label': 'uncaught', 'values': extract(ctx, m),
                                                   'choices': list(ctx.choices),
                                                   'detail': '%s: %s at %s' % (type(exc).__name__, exc, where)})
                    for v in ctx.violations:
                        if v.get('unknown'):
                            # no answer from the solver: at least run the real code on some inputs of this path
                            if len(res.unknown) < 4:
                                for mm in diverse(ctx, 6):
                                    res.witnesses.append({'values': extract(ctx, mm), 'choices': list(ctx.choices), 'obs': [],
                                                          'abandoned': True})
                            res.unknown.append(v['label'])
                            res.complete = False
                            continue
                        if sum(1 for c in res.candidates if c['label'] == v['label']) < 3:
                            res.candidates.append({'label': v['label'], 'values': extract(ctx, v['model']),
                                                   'choices': list(ctx.choices)})
                    if m is not None and not ctx.violations and exc is None:
                        nw = sum(1 for w in res.witnesses if not w.get('abandoned'))
                        if nw < max_witness or (npaths % 97 == 0 and nw < 2 * max_witness):
                            obs = []
                            for n, v in ctx.observations:
                                obs.append([n, enc(seq.eval_any(m, v))])
                            res.witnesses.append({'values': extract(ctx, m), 'choices': list(ctx.choices), 'obs': obs})
        except EngineError as e:
            res.errors.append('EngineError: %s' % e)
        finally:
            core.set_ctx(None)
        pending.extend(ctx.alternatives)
        if len(res.unknown) >= 4 and time.perf_counter() - t0 > 90:
            res.complete, res.cut = False, 'the solver gave no answer for %d obligations, %d branches pending' % (len(res.unknown), len(pending))
            break
        if res.candidates and first is None:
            first = time.perf_counter()
        if first is not None and time.perf_counter() - first > 60 and pending:
            res.complete, res.cut = False, 'stopped one minute after the first counterexample'
            break
        if len(res.candidates) >= MAX_CAND:
            res.complete, res.cut = False, 'stopped after %d counterexamples' % len(res.candidates)
            break
    return res, stats
