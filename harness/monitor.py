"""The monitor: records what was observed and judges it.

A property module drives the real code (imported from /repo/src) and reports
each observation to a `Monitor`.  The monitor counts every evaluation of an
oracle, keeps the set of distinct non-trivial observations, and collects
violations with everything needed to replay them.
"""
import collections
import math
import traceback


class Stop(Exception):
    """Raised to abandon a case after a violation made the rest meaningless."""


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


class Monitor:
    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0          # oracle evaluations
        self.cases = 0
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = {}
        self.violations = []
        self._ctx = None

    # -- case bookkeeping (used by the runner)
    def begin(self, sub, index, worker):
        self._ctx = {'sub': sub, 'index': index, 'worker': worker}
        self.cases += 1
        self.events['case:' + sub] += 1

    # -- what was observed
    def event(self, kind, n=1):
        self.events[kind] += n

    def saw(self, *key):
        """Record a distinct, non-trivial observation."""
        self.distinct.add(hash(key))

    def sample(self, text):
        sub = self._ctx['sub']
        got = self.samples.setdefault(sub, [])
        if len(got) < 2:
            got.append(short(text, 400))

    # -- oracles
    def expect(self, cond, key, *detail):
        """Evaluate an oracle; `key` names the mechanism that failed."""
        self.evaluations += 1
        self.events['oracle:' + key] += 1
        if not cond:
            self.fail(key, *detail)
            return False
        return True

    def fail(self, key, *detail):
        v = dict(self._ctx or {})
        v['key'] = key
        v['detail'] = short(' '.join(d if isinstance(d, str) else short(d) for d in detail), 1500)
        self.violations.append(v)

    def require(self, cond, key, *detail):
        if not self.expect(cond, key, *detail):
            raise Stop()

    def equal(self, got, want, key, *detail):
        try:
            same = bool(got == want)
        except Exception as err:      # a comparison that cannot be made
            same = False
            detail = detail + (f'comparison raised {err!r}',)
        return self.expect(same, key, *detail, '| got', short(got), '| want', short(want))

    def close(self, got, want, key, *detail, rtol=1e-9, atol=0.0):
        """Numbers or arrays agree, including shape."""
        import numpy
        try:
            g = numpy.asarray(got, dtype=float)
            w = numpy.asarray(want, dtype=float)
            ok = g.shape == w.shape and bool(
                numpy.all(
                    numpy.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
                    | ((g == w))
                )
            )
        except Exception as err:
            ok = False
            detail = detail + (f'comparison raised {err!r}',)
        return self.expect(ok, key, *detail, '| got', short(got), '| want', short(want))

    def refuses(self, func, key, *detail, errors=Exception):
        """`func` must raise; returns the exception."""
        try:
            result = func()
        except errors as err:
            self.expect(True, key)
            return err
        except Exception as err:
            self.expect(False, key, *detail, f'| raised {type(err).__name__}: {err} rather than the documented kind')
            return err
        self.expect(False, key, *detail, '| accepted, giving', short(result))
        return None

    # -- merging of workers
    def dump(self):
        return {
            'evaluations': self.evaluations, 'cases': self.cases,
            'events': dict(self.events), 'distinct': list(self.distinct),
            'samples': self.samples, 'violations': self.violations,
        }

    def absorb(self, d):
        self.evaluations += d['evaluations']
        self.cases += d['cases']
        self.events.update(d['events'])
        self.distinct.update(d['distinct'])
        for k, v in d['samples'].items():
            got = self.samples.setdefault(k, [])
            got.extend(v[:2 - len(got)])
        self.violations.extend(d['violations'])


def where(err):
    """The innermost frame of `err` that lies in the code under test."""
    frames = [f for f in traceback.extract_tb(err.__traceback__)
              if '/repo/src/' in f.filename]
    if not frames:
        return None
    f = frames[-1]
    return f.filename.split('/repo/src/')[-1] + ':' + f.name
