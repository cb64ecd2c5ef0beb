"""Path exploration: one Ctx per executed path, decisions replayed from a prefix,
feasibility and obligations decided by z3."""
import time
import z3


class EngineExc(BaseException):
    """Engine control flow; never caught by instrumented code."""


class PathEnd(EngineExc):
    """The path is infeasible (assume failed) or deliberately cut."""


class SpecAbort(EngineExc):
    """A merged (speculative) evaluation at `site` cannot be merged: redo without."""

    def __init__(self, site=None):
        self.site = site


class CaseStop(EngineExc):
    """Stop exploring this case (limits hit)."""


class EngineError(EngineExc):
    """The machinery cannot give an answer."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.obligations = 0
        self.discharged = 0
        self.syntactic = 0
        self.unknown = 0
        self.stashed = 0
        self.degraded = []
        self.reached = {}
        self.functions = set()

    def as_dict(self):
        return {
            'queries': self.queries, 'solver_s': round(self.solver_s, 3), 'paths': self.paths,
            'infeasible': self.infeasible, 'branches': self.branches, 'obligations': self.obligations,
            'discharged': self.discharged, 'syntactic': self.syntactic, 'unknown': self.unknown,
            'degraded': self.degraded, 'reached': self.reached, 'functions': sorted(self.functions),
        }


CUR = None  # the running Ctx


def set_ctx(c):
    global CUR
    CUR = c


class Ctx:
    QUERY_MS = 10000
    ENUM_CAP = 4096

    def __init__(self, prefix, stats, nomerge=(), seed=0, deadline=None):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alternatives = []
        self.stats = stats
        self.nomerge = nomerge
        self.spec = []
        self.fresh_n = 0
        self.decided = {}
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', self.QUERY_MS)
        self.solver.set('random_seed', seed)
        self.pc = []
        self.inputs = []        # (name, kind, payload) for model extraction
        self.choices = []       # recorded nondeterministic choices
        # value layer
        self.atoms = {}
        self.atom_list = [None]
        self.dom = {}
        self.linb = {}
        self.bit_keys = {}
        self.bit_z = [None]
        self.gf2 = []           # list of (pivot, mask) rows, mask == 0 known
        self.derived_bits = {}
        self.blobs = []
        self.opaque_eq = {}
        self.hash_apps = {}
        self.sigs = []
        self.state = {}
        # results
        self.violations = []
        self.observations = []
        self.incomplete = False
        self.extra = []
        self.keep = []
        self._model = None

    def fresh(self, base='t'):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    # -- solver -------------------------------------------------------------
    def check_sat(self, *extra):
        if self.deadline and time.perf_counter() > self.deadline:
            raise CaseStop('deadline')
        t = time.perf_counter()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set('timeout', self.QUERY_MS)
            s2.set('random_seed', 7)
            for a in self.solver.assertions():
                s2.add(a)
            r = s2.check()
            self.stats.queries += 1
            if r == z3.sat:
                self._model = s2.model()
        elif r == z3.sat:
            self._model = self.solver.model()
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def add(self, cond):
        if cond is True or (cond is not False and z3.is_true(cond)):
            return
        if cond is False:
            cond = z3.BoolVal(False)
        self.pc.append(cond)
        self.solver.add(cond)

    def feasible_now(self):
        return self.check_sat() != z3.unsat

    def entails(self, cond):
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        d = self.decided.get(cond.get_id())
        if d is not None:
            return d[0]
        return self.check_sat(z3.Not(cond)) == z3.unsat

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.add(cond)
        if self.check_sat() == z3.unsat:
            raise PathEnd()

    def branch(self, cond):
        """Decide a z3 condition on this path, recording the alternative."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        d = self.decided.get(k)
        if d is not None:
            return d[0]
        if self.spec:
            if self.check_sat(z3.Not(cond)) == z3.unsat:
                return True
            if self.check_sat(cond) == z3.unsat:
                return False
            raise SpecAbort(self.spec[-1])
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
        else:
            rt = self.check_sat(cond)
            if rt == z3.unsat:
                val, forced = False, True
            else:
                rf = self.check_sat(z3.Not(cond))
                if rf == z3.unsat:
                    val, forced = True, True
                else:
                    val, forced = True, False
                    self.alternatives.append(self.decisions + [(False, False)])
        self.pos += 1
        self.decisions.append((val, forced))
        neg = z3.simplify(z3.Not(cond))
        self.keep.append(cond)
        self.keep.append(neg)
        self.decided[k] = (val,)
        self.decided[neg.get_id()] = (not val,)
        if not forced:
            self.add(cond if val else neg)
        return val

    def choose_free(self, n):
        """Nondeterministic choice of 0..n-1, all explored (no solver needed)."""
        if self.spec and n > 1:
            raise SpecAbort(self.spec[-1])
        for i in range(n - 1):
            if self.pos < len(self.prefix):
                val, forced = self.prefix[self.pos]
            else:
                val, forced = True, False
                self.alternatives.append(self.decisions + [(False, False)])
            self.pos += 1
            self.decisions.append((val, forced))
            if val:
                return i
        return n - 1

    def model(self, *extra):
        r = self.check_sat(*extra)
        if r != z3.sat:
            return None
        return self._model

    def stash(self):
        """about to fix an input to one value: keep some other inputs of this path for replay on the real code"""
        if self.stats.stashed >= 60 or self.spec:
            return
        from .explore import diverse, extract
        try:
            for m in diverse(self, 10):
                self.stats.stashed += 1
                self.extra.append({'values': extract(self, m), 'choices': list(self.choices), 'obs': [], 'abandoned': True})
        except EngineExc:
            pass

    def degrade(self, why):
        self.incomplete = True
        if why not in self.stats.degraded and len(self.stats.degraded) < 50:
            self.stats.degraded.append(why)

    # -- obligations --------------------------------------------------------
    def check(self, cond, label):
        """Obligation: cond (bool or z3) must hold on every model of the path."""
        self.stats.obligations += 1
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1
        if cond is True:
            self.stats.discharged += 1
            self.stats.syntactic += 1
            return True
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        r = self.check_sat(neg)
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        if r == z3.unknown:
            self.violations.append({'label': label, 'unknown': True})
            return False
        self.violations.append({'label': label, 'model': self._model, 'neg': neg})
        return False
