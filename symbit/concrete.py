"""Replay of recorded inputs through a harness on the real, un-instrumented code.

usage: python -m symbit.concrete FILE   (FILE: json list of jobs) -> json results on stdout
"""
import importlib
import json
import os
import random
import sys
import traceback

from .common import BaseH, Patches, dec, enc, purge


class Skip(BaseException):
    pass


class ConcH(BaseH):
    symbolic = False

    def __init__(self, values, choices):
        self.values = values
        self.choices = list(choices)
        self.failed = []
        self.checked = 0
        self.obs = []
        self.reached = set()
        self.missing = []
        self.patches = Patches()
        self.notes = []

    def _get(self, name, default):
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        return v

    def bits(self, name, n):
        return self._get(name, 0)

    def bool(self, name):
        return bool(self._get(name, False))

    def bytes(self, name, n, bits=False):
        return self._get(name, b'\x00' * n)

    def blob(self, name, lo, hi):
        return self._get(name, b'\x00' * lo)

    def str(self, name, n, alphabet=None, lo=0, hi=0x10ffff):
        return self._get(name, (alphabet[0] if alphabet else chr(lo)) * n)

    def decimal(self, name, lo, hi, exp):
        import decimal
        return self._get(name, decimal.Decimal(lo).scaleb(exp))

    def float(self, name, lo, hi, exp):
        import decimal
        return float(self._get(name, decimal.Decimal(lo).scaleb(exp)))

    def scaled(self, n, exp):
        """the decimal n * 10**exp, exactly (n >= 0)"""
        import decimal
        return decimal.Decimal((0, tuple(map(int, str(n))), exp))

    def to_float(self, n, exp):
        import decimal
        return float(decimal.Decimal((0, tuple(map(int, str(n))), exp)))

    def fork(self, name, n):
        """a finite choice, explored by enumeration of paths"""
        if isinstance(n, int):
            return self._get(name, 0)
        return n[self._get(name, 0)]

    def value(self, x):
        return x

    def assume(self, cond):
        if not cond:
            raise Skip('assumption not satisfied')

    def check(self, label, cond, info=None):
        self.checked += 1
        if not cond:
            self.failed.append((label, repr(info)[:300]))

    def check_eq(self, label, a, b, info=None):
        self.checked += 1
        if not a == b:
            self.failed.append((label, ('%r != %r %s' % (a, b, info or ''))[:600]))

    def note(self, *a):
        self.notes.append(' '.join(map(repr, a))[:300])

    def observe(self, name, v):
        self.obs.append((name, v))

    def reach(self, label):
        self.reached.add(label)

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def eq(self, a, b):
        return a == b

    def rand_below(self, n):
        if self.choices:
            v = self.choices.pop(0)
            return v if v < n else n - 1
        return 0

    def control_random(self, limit=None):
        self.patches.set(random._inst, '_randbelow', self.rand_below)


class SearchH(ConcH):
    """the recorded inputs, varied: looks for real inputs where an uninterpreted function (a hash) takes the value
    that the solver gave it"""

    def __init__(self, values, choices, rng, level):
        super().__init__(values, choices)
        self.rng, self.level, self.used = rng, level, {}
        names = [k for k, v in values.items() if isinstance(v, (bytes, str)) and v]
        if level == 3:
            # a history whose parts agree in all inputs but one
            names = [k.partition('.')[2] for k in values if '.' in k]
        self.one = rng.choice(names) if names and level in (0, 3) else None

    def _vary(self, name, v, f):
        if name in self.used:
            return self.used[name]
        if self.level == 3:
            part, _, rest = name.partition('.')
            twin = [self.used[k] for k in self.used if k.partition('.')[2] == rest] if rest and rest != self.one else []
            if twin and type(twin[0]) is type(v):
                hit, f = True, lambda: twin[0]
            else:
                hit = isinstance(v, (bytes, str)) or rest == self.one
        elif self.level == 0:
            hit = name == self.one
        elif self.level == 1:
            hit = isinstance(v, (bytes, str)) or isinstance(v, int) and not isinstance(v, bool) and self.rng.random() < .2
        else:
            hit = self.rng.random() < .7
        self.used[name] = v = f() if hit else v
        return v

    def _int(self, lo, hi):
        r = self.rng
        k = r.random()
        if k < .15:
            return r.choice([lo, hi, min(hi, lo + 1), max(lo, hi - 1)])
        if k < .5:
            return lo + (r.getrandbits(r.randint(1, max(1, (hi - lo).bit_length()))) % (hi - lo + 1))
        return r.randint(lo, hi)

    def int(self, name, lo, hi):
        return self._vary(name, super().int(name, lo, hi), lambda: self._int(lo, hi))

    def bits(self, name, n):
        return self._vary(name, super().bits(name, n), lambda: self._int(0, 2 ** n - 1))

    def _bytes(self, n, lo, hi):
        """random bytes, or an earlier input with a slight change at one end or anywhere"""
        r = self.rng
        twins = [v for v in self.used.values() if isinstance(v, bytes) and v and (lo <= len(v) <= hi)]
        if r.random() < .2:     # periodic
            p = r.randbytes(r.choice([1, 1, 2, 20, 80]))
            return (p * n)[:n]
        if not twins or r.random() < .6:
            return r.randbytes(n)
        t = r.choice(twins)
        k = r.randrange(5)
        if k == 0 and len(t) < hi:
            return t + r.choice([r.randbytes(1), b'\n', b'\0'])
        if k == 1 and len(t) > lo:
            return t[:-1]
        i = [len(t) - 1, 0, r.randrange(len(t)), len(t) - 1, 0][k]
        return t[:i] + bytes([t[i] ^ r.choice([1, 0x20, 0x80])]) + t[i + 1:]

    def bytes(self, name, n, bits=False):
        return self._vary(name, super().bytes(name, n, bits), lambda: self._bytes(n, n, n))

    def blob(self, name, lo, hi):
        v = super().blob(name, lo, hi)
        n = self._int(lo, hi) if self.level == 3 else len(v)
        return self._vary(name, v, lambda: self._bytes(n, lo, hi))

    def str(self, name, n, alphabet=None, lo=0, hi=0x10ffff):
        v = super().str(name, n, alphabet, lo, hi)
        return self._vary(name, v, lambda: ''.join(
            self.rng.choice(alphabet) if alphabet else chr(self.rng.randint(lo, min(hi, 0xd7ff))) for _ in v) if self.rng.random() < .8 or not v else
            (self.rng.choice(alphabet) if alphabet else chr(self.rng.randint(lo, min(hi, 0xd7ff)))) * len(v))

    def decimal(self, name, lo, hi, exp):
        import decimal
        v = super().decimal(name, lo, hi, exp)
        return self._vary(name, v, lambda: decimal.Decimal(self._int(lo, hi)).scaleb(exp))

    def float(self, name, lo, hi, exp):
        import decimal
        v = super().decimal(name, lo, hi, exp)
        return float(self._vary(name, v, lambda: decimal.Decimal(self._int(lo, hi)).scaleb(exp)))


def search(job):
    """values for which the harness fails on the real code, or None"""
    import contextlib
    import time
    mod = importlib.import_module('props.' + job['module'])
    case = {c.name: c for c in mod.cases(job['tier'])}[job['case']]
    values = {k: dec(v) for k, v in job['values'].items()}
    rng = random.Random(job.get('seed', 1))
    end = time.monotonic() + job['search']
    random.seed(1)
    purge()
    i = 0
    while time.monotonic() < end and i < 20000:
        h = SearchH(values, job.get('choices', []), rng, i % (4 if any('.' in k for k in values) else 3))
        i += 1
        bad = False
        try:
            case.fn(h, **case.kw)
            bad = bool(h.failed)
        except Skip:
            pass
        except Exception:
            bad = True
        finally:
            h.patches.restore()
        if bad:
            j = dict(job, values=dict(job['values'], **{k: enc(v) for k, v in h.used.items()}))
            del j['search']
            res = run_job(j)
            if res['failed']:
                res['values'], res['tries'] = j['values'], i
                return res
            purge()
    return {'status': 'not found', 'failed': [], 'checked': 0, 'missing': [], 'obs': [], 'tries': i}


def run_job(job):
    if job.get('search'):
        return search(job)
    purge()
    mod = importlib.import_module('props.' + job['module'])
    cases = {c.name: c for c in mod.cases(job['tier'])}
    case = cases[job['case']]
    import decimal
    decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN,
                                       traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow]))
    random.seed(1)
    h = ConcH({k: dec(v) for k, v in job['values'].items()}, job.get('choices', []))
    res = {}
    try:
        case.fn(h, **case.kw)
        res['status'] = 'done'
    except Skip:
        res['status'] = 'skipped'
    except Exception as e:
        res['status'] = 'exception'
        h.failed.append(('uncaught', '%s: %s' % (type(e).__name__, e)))
        res['traceback'] = traceback.format_exc()[-1500:]
    finally:
        h.patches.restore()
    if res['status'] == 'skipped':
        h.failed = []
    res['failed'] = h.failed
    res['checked'] = h.checked
    res['missing'] = h.missing
    res['obs'] = [[n, enc(v)] for n, v in h.obs]
    return res


def main(path):
    with open(path) as f:
        jobs = json.load(f)
    out = []
    for j in jobs:
        out.append(run_job(j))
    sys.stdout.write('\n@@RESULT@@' + json.dumps(out))


if __name__ == '__main__':
    sys.path.insert(0, os.environ.get('SYMBIT_REPO', '/repo'))
    sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.dont_write_bytecode = True
    main(sys.argv[1])
