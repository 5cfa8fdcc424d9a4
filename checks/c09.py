"""C09: library calls never modify their arguments or the frames."""

import copy

import numpy as np
import rigid_body_motion as rbm
import xarray as xr
from hypothesis import strategies as st

from lib import model as m
from lib.calls import OPS, Env
from lib.harness import ensure, facet, fail

PROPERTY = "C09"
RULE = (
    "Every public function/method that takes arrays, drawn with generated "
    "arguments (plain, read-only, list-converted or labelled with extra "
    "coordinates and attributes) over a tree of static, moving and discrete "
    "frames: arguments and all lookups compared before/after, the call is "
    "repeated, the first result is overwritten in place and the call is "
    "repeated again. Non-trivial: every case (argument sizes >= 2)."
)


# --- snapshots ---------------------------------------------------------------


def same(a, b, path="value"):
    """Bitwise equality of nested results/arguments; message or None."""
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return path
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return path + " keys"
        for k in a:
            r = same(a[k], b[k], f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(a, (xr.DataArray, xr.Dataset)):
        if not a.identical(b):
            return path
        if isinstance(a, xr.Dataset):
            for v in a.variables:
                if a[v].dtype != b[v].dtype or dict(a[v].attrs) != dict(
                        b[v].attrs):
                    return f"{path}.{v}"
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return path + " shape/dtype"
        eq = (a == b) | ((a != a) & (b != b))
        return None if np.all(eq) else path
    if isinstance(a, rbm.ReferenceFrame):
        return None if a is b else path
    return None if a is b or a == b else path


def dup(x):
    if isinstance(x, (tuple, list)):
        return type(x)(dup(y) for y in x)
    if isinstance(x, dict):
        return {k: dup(v) for k, v in x.items()}
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        c = x.copy(deep=True)
        c.attrs = copy.deepcopy(x.attrs)
        return c
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def overwrite(x):
    """Scribble over a result in place (data only)."""
    if isinstance(x, (tuple, list)):
        for y in x:
            overwrite(y)
    elif isinstance(x, xr.Dataset):
        for v in x.data_vars:
            overwrite(x[v].values)
            x[v].attrs.clear()
    elif isinstance(x, xr.DataArray):
        overwrite(x.values)
        x.attrs.clear()
    elif isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
        if x.dtype.kind == "M":
            x[...] = np.datetime64("1999-01-01", "ns")
        elif x.dtype.kind in "fiu":
            x[...] = 77
        elif x.dtype.kind == "V" or x.dtype.name == "quaternion":
            x[...] = 0


@st.composite
def cases(draw):
    return dict(
        op=draw(st.sampled_from(sorted(OPS))), base=draw(m.bases),
        seed=draw(m.seeds), n=draw(st.integers(5, 8)),
        f=draw(st.lists(st.integers(0, 5), min_size=2, max_size=2)),
        form=draw(st.sampled_from(["plain", "readonly", "fortran",
                                   "dataarray", "dataarray"])),
        flag=draw(st.booleans()),
    )


def tree_state(e):
    out = []
    for i in range(len(e.rfs)):
        for j in (0, 3):
            out.append(rbm.lookup_transform(e.rfs[i], e.rfs[j],
                                            return_timestamps=True))
    return out


@facet(cases(), quick=4000)
def pure(case, rec):
    e = Env(case)
    rec.note()
    rec.label(case["op"])
    before = dup(tree_state(e))
    registry = dict(rbm.registry)
    fn, args, kw = OPS[case["op"]](e)
    a0, k0 = dup(args), dup(kw)

    def check(when):
        bad = same(a0, args, "argument") or same(k0, kw, "keyword")
        if bad:
            fail("%s: %s modified %s", case["op"], bad, when)
        ensure(dict(rbm.registry) == registry, "registry changed")
        bad = same(before, tree_state(e), "lookup")
        if bad:
            fail("%s: frames changed (%s) %s", case["op"], bad, when)

    out = fn(*args, **kw)
    check("by the call")
    ref = dup(out)
    again = fn(*args, **kw)
    bad = same(ref, again, "result")
    if bad:
        fail("%s: %s differs when repeating the call", case["op"], bad)
    check("by the second call")
    overwrite(out)
    overwrite(again)
    check("by overwriting the result")
    third = fn(*args, **kw)
    bad = same(ref, third, "result")
    if bad:
        fail("%s: %s differs after overwriting an earlier result",
             case["op"], bad)
