"""Run the solver's classes as plain Python objects (no class compilation): import before wiring."""
import numba, numba.experimental as ne
import numpy as np


def jitclass(spec):
    def deco(cls):
        names = [s[0] for s in spec]
        types = {s[0]: s[1] for s in spec}
        old = cls.__init__

        def init(self, *a, **kw):
            for n in names:
                t = types[n]
                if isinstance(t, numba.types.Integer):
                    self.__dict__[n] = 0
                elif isinstance(t, numba.types.Float):
                    self.__dict__[n] = 0.0
            old(self, *a, **kw)

        def setattr_(self, k, v):
            t = types.get(k)
            if isinstance(t, numba.types.Integer):
                v = int(v)
            elif isinstance(t, numba.types.Float):
                v = float(v)
            object.__setattr__(self, k, v)
        cls.__init__ = init
        cls.__setattr__ = setattr_

        class ct:
            instance_type = numba.float64
        cls.class_type = ct
        return cls
    return deco


ne.jitclass = jitclass


class _Deferred:
    def define(self, t):
        pass


numba.deferred_type = _Deferred
numba.types.deferred_type = _Deferred


class NP:
    """numpy whose comparisons subtract as they do in compiled code"""
    def __getattr__(self, k):
        return getattr(np, k)

    def greater(self, a, b):
        return np.greater(a, b).astype(int)

    def less(self, a, b):
        return np.less(a, b).astype(int)

    def less_equal(self, a, b):
        return np.less_equal(a, b).astype(int)

    def greater_equal(self, a, b):
        return np.greater_equal(a, b).astype(int)


def patch(*modules):
    for m in modules:
        m.np = NP()
