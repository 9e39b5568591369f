"""Symbolic scenarios: run a function on all feasible paths, collect its obligations."""
import traceback
from .sym import *  # noqa
from .load import Pkg


class Scn:
    def __init__(self, ck):
        self.ck = ck
        self.live = []

    def ob(self, c, name, f):
        self.ck.prove('%s: %s' % (self.label, name), c, f)

    def pkg(self, subdir='peak'):
        p = Pkg(subdir)
        self.live.append(p)
        return p

    def run(self, label, fn, expect_raise=(), max_paths=400, timeout_ms=8000):
        """fn(c) makes obligations; an exception of a type in expect_raise ends a path quietly"""
        self.label = label
        ck = self.ck
        self.live = []

        def go(c):
            try:
                return fn(c)
            finally:
                for p in self.live:
                    p.close()
                self.live = []
        try:
            res = explore(go, stats=ck.stats, max_paths=max_paths, timeout_ms=timeout_ms)
        except Exception as e:
            ck.obl(label, 'undecided', 'engine', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))
            return
        n = 0
        for c, (kind, r) in res:
            if kind == 'ok':
                n += 1
            elif isinstance(r, expect_raise):
                n += 1
            else:
                tb = ''.join(traceback.format_exception(r))[-1200:]
                ck.obl(label + ': no exception', 'undecided', 'engine', tb)
        ck.obl(label + ': paths reached', 'proved' if n else 'undecided', 'coverage', '%d paths' % n)
