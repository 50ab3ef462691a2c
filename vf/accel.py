"""Loads the package as if its compiled accelerator were installed.

numba cannot be installed here, so nothing can be compiled. What can be done is
to run the source of the accelerated branches: a stand-in `numba` whose
decorators keep the call rules of the real ones (explicit signatures, exact
array types, C order, ufunc casting and output allocation, generators ended by
StopIteration) and leave the function interpreted. The stand-in exists only
while one more copy of the package is imported; other copies do not see it.
"""
from __future__ import annotations

import functools
import importlib
import inspect
import sys
import types
import warnings

import numpy as np


class Type:
    """A numba type, as far as the package uses them."""

    def __init__(self, name, np_dtype=None):
        self.name, self.np = name, np_dtype and np.dtype(np_dtype)

    def __call__(self, *args):
        if self.np is not None and len(args) == 1 and isinstance(args[0], (int, float, np.number, np.ndarray)):
            return self.np.type(args[0])
        return Signature(self, args)

    def __getitem__(self, k):
        return Array(self, k.ndim if hasattr(k, "ndim") else 1, "A")

    def __repr__(self):
        return self.name

    def accepts(self, v):
        if self.np is not None:
            return isinstance(v, (bool, int, float, np.number, np.bool_))
        return True


class Array(Type):
    def __init__(self, dtype, ndim, layout="A", readonly=False, **_):
        super().__init__(f"Array({dtype},{ndim},{layout})")
        self.dtype, self.ndim, self.layout, self.readonly = dtype, ndim, layout, readonly

    def accepts(self, v):
        return (isinstance(v, np.ndarray) and v.ndim == self.ndim and (self.dtype.np is None or v.dtype == self.dtype.np)
                and (self.layout != "C" or v.flags.c_contiguous) and (self.readonly or v.flags.writeable))


class Bytes(Type):
    def __init__(self, *_a, **_k):
        super().__init__("bytes")

    def accepts(self, v):
        return isinstance(v, bytes)


class Omitted(Type):
    def __init__(self, value=None):
        super().__init__("omitted")

    def accepts(self, v):
        return v is None


class Set(Type):
    def __init__(self, *_a, **_k):
        super().__init__("set")

    def accepts(self, v):
        return isinstance(v, set) and bool(v) and all(isinstance(x, (int, np.integer)) for x in v)


class Optional(Type):
    def __init__(self, of):
        super().__init__(f"optional({of})")
        self.of = of

    def accepts(self, v):
        return v is None or self.of.accepts(v)


class Other(Type):
    """Any other type: says nothing about arguments."""

    def __init__(self, *_a, **_k):
        super().__init__("other")


class Signature:
    def __init__(self, ret, args):
        self.ret, self.args = ret, args

    def accepts(self, args):
        return len(args) <= len(self.args) and all(t.accepts(v) for t, v in zip(self.args, args)) and all(isinstance(t, (Omitted, Optional)) for t in self.args[len(args):])


CALLS: dict[str, int] = {}


def count(kind, fn):
    k = f"{kind}_{fn.__module__.rsplit('.', 1)[-1]}"
    CALLS[k] = CALLS.get(k, 0) + 1


def _sigs(s):
    if s is None:
        return []
    return [x for x in (s if isinstance(s, (list, tuple)) else [s]) if isinstance(x, Signature)]


def _box(v):
    """Values leave compiled code as plain Python objects."""
    if isinstance(v, tuple):
        return tuple(_box(x) for x in v)
    return v.item() if isinstance(v, np.generic) and not isinstance(v, np.bool_) else v


def _gen(g):
    try:
        for v in g:
            yield _box(v)
    except RuntimeError as e:
        if not isinstance(e.__cause__, StopIteration):
            raise


def njit(*a, **_k):
    if a and callable(a[0]) and not isinstance(a[0], (Type, Signature)):
        return njit()(a[0])
    sigs = _sigs(a[0] if a else None)

    def deco(fn):
        isgen = inspect.isgeneratorfunction(fn)

        @functools.wraps(fn)
        def call(*args, **kw):
            if kw:  # compiled functions take keywords too
                args = inspect.signature(fn).bind(*args, **kw).args
            count("jit", fn)
            if sigs and not any(s.accepts(args) for s in sigs):
                raise TypeError(f"No matching definition for argument type(s) of {fn.__name__}: " + ", ".join(f"{type(v).__name__}{getattr(v, 'dtype', '')}" for v in args))
            if isgen:
                return _gen(fn(*args))
            with np.errstate(all="ignore"):
                r = fn(*args)
                ret = next((s.ret for s in sigs if s.accepts(args)), None)
                if ret is not None and ret.np is not None and ret.np.kind in "iu" and isinstance(r, (int, np.integer)) and not isinstance(r, bool):
                    r = np.array([int(r) & 0xFFFFFFFFFFFFFFFF], np.uint64).astype(ret.np)[0]  # results have the width that is declared
            return bool(r) if isinstance(r, np.bool_) else _box(r)

        call.py_func = fn
        return call

    return deco


def guvectorize(ftylist=None, signature=None, **_k):
    def deco(fn):
        sigs = _sigs(ftylist)

        @functools.wraps(fn)
        def call(*args):
            count("gu", fn)
            ins = [np.asarray(v) for v in args[:1]]
            # like any ufunc: the first loop to which the input casts safely
            for s in sigs:
                if np.can_cast(ins[0].dtype, s.args[0].dtype.np, "safe"):
                    break
            else:
                raise TypeError(f"ufunc {fn.__name__!r} not supported for the input types")
            x = np.ascontiguousarray(ins[0], s.args[0].dtype.np)
            x.flags.writeable = not s.args[0].readonly
            # the output is not initialised
            out = np.full(x.shape, 0xA5, np.uint8).astype(s.args[1].dtype.np)
            with np.errstate(all="ignore"):
                fn(x, out)
            return out

        return call

    return deco


NUMS = {"u1": "u1", "u2": "u2", "u4": "u4", "u8": "u8", "i1": "i1", "i2": "i2", "i4": "i4", "i8": "i8", "f4": "f4", "f8": "f8", "b1": "?",
        "uint8": "u1", "uint16": "u2", "uint32": "u4", "uint64": "u8", "int8": "i1", "int16": "i2", "int32": "i4", "int64": "i8",
        "float32": "f4", "float64": "f8", "bool_": "?", "boolean": "?", "intp": "i8", "uintp": "u8"}


def _module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    return m


def stand_in(tbb: bool) -> dict:
    nums = {k: Type(k, v) for k, v in NUMS.items()}

    class NumbaError(Exception):
        pass

    class NumbaWarning(Warning):
        pass

    def fallback(_name):
        return Other

    t = _module("numba.types", Array=Array, Bytes=Bytes, Omitted=Omitted, Set=Set, Optional=Optional, void=Type("void"), none=Type("none"), **nums)
    t.__getattr__ = fallback
    err = _module("numba.errors", NumbaWarning=NumbaWarning, NumbaError=NumbaError, NumbaPerformanceWarning=NumbaWarning)

    def check():
        if not tbb:
            raise ImportError("Intel TBB is not here")

    par = _module("numba.np.ufunc.parallel", _check_tbb_version_compatible=check)
    uf = _module("numba.np.ufunc", parallel=par)
    nnp = _module("numba.np", ufunc=uf)
    jit = lambda *a, **k: njit(*a, **k)
    root = _module("numba", types=t, errors=err, np=nnp, njit=njit, jit=jit, guvectorize=guvectorize, void=t.void, typeof=lambda v: Type(f"typeof({v!r})"),
                   prange=range, __version__="0.58.1", **nums)
    root.core = _module("numba.core", types=t, errors=err)
    return {"numba": root, "numba.types": t, "numba.errors": err, "numba.np": nnp, "numba.np.ufunc": uf, "numba.np.ufunc.parallel": par,
            "numba.core": root.core, "numba.core.types": t, "numba.core.errors": err}


PARTS = ("rxls", "rxls.core", "rxls.biff_enum", "rxls.rels", "rxls.chunk", "rxls.chunk.arrow", "rxls.reader.common", "rxls.reader.xlsx", "rxls.reader.xlsb", "rxls.biff", "rxls.biff_recs",
         "rxls.chunk.casts", "rxls.chunk.chunk", "rxls.series", "rxls.cell", "rxls.constants", "rxls.reader")


def load(tbb: bool) -> dict:
    """Another copy of the package: {module name: module}, with the accelerated branches on."""
    mine = lambda k: k == "rxls" or k.startswith("rxls.") or k == "numba" or k.startswith("numba.")
    saved = {k: v for k, v in sys.modules.items() if mine(k)}
    for k in saved:
        del sys.modules[k]
    sys.modules.update(stand_in(tbb))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for k in PARTS:
                importlib.import_module(k)
            got = {k: v for k, v in sys.modules.items() if k == "rxls" or k.startswith("rxls.")}
    finally:
        for k in [k for k in sys.modules if mine(k)]:
            del sys.modules[k]
        sys.modules.update(saved)
    core = got["rxls.core"]
    if not core.NUMBA_AVAILABLE or core.NUMBA_TBB_AVAILABLE != tbb:
        raise RuntimeError("the accelerated branches are not on")
    return got


class using:
    """While entered, `import rxls...` gives the modules of the given copy."""

    def __init__(self, copy: dict) -> None:
        self.copy = copy

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k == "rxls" or k.startswith("rxls.")}
        for k in self.saved:
            del sys.modules[k]
        sys.modules.update(self.copy)

    def __exit__(self, *_):
        for k in [k for k in sys.modules if k == "rxls" or k.startswith("rxls.")]:
            del sys.modules[k]
        sys.modules.update(self.saved)
