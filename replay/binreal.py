"""The class Binning of dataobjs.pyx, extracted from its current text and run by Python on the real trv::Binning."""
import os, types
import numpy as np
import cxx, pyreal, pyx

GET = {'bin_min': 'min', 'bin_max': 'max', 'num_bins': 'num', 'bin_edges': 'edges', 'bin_centres': 'centres', 'bin_widths': 'widths', 'scheme': 'scheme', 'space': 'space'}


class Cpp:
    """trv::Binning; members set directly are kept in `put`"""

    def __init__(s, space, scheme):
        s.__dict__.update(put={}, b=cxx.H(cxx.lib().b_new(space.decode(), scheme.decode())))

    def __getattr__(s, k):
        v = cxx.bins_of(s.b)[GET[k]]
        return s.put.get(k, v.encode() if isinstance(v, str) else v)

    def __setattr__(s, k, v):
        GET[k]
        s.put[k] = v if isinstance(v, bytes) else np.array(v, dtype=float) if k in ('bin_edges', 'bin_centres', 'bin_widths') else int(v) if k == 'num_bins' else float(v)

    def set_bins(s, *a):
        s.put.clear()
        L = cxx.lib()
        try:
            (L.b_set3 if len(a) == 3 else L.b_grid)(s.b, *[int(x) if i == len(a) - 1 else float(x) for i, x in enumerate(a)])
        except cxx.Raised as e:
            raise ValueError(str(e))

    def __del__(s): cxx.lib().b_free(s.b)


def Binning():
    x = pyx.Extract(os.path.join(pyreal.SRC, 'dataobjs.pyx'))
    at = x.classes['Binning']

    def cset(o, k, v):
        t = at[k]
        object.__setattr__(o, k, float(v) if t == 'double' else int(v) if t == 'int' else np.array(v, dtype=float).tolist() if t.startswith('vector') else v.decode() if isinstance(v, bytes) else v)
    m = types.ModuleType('triumvirate.dataobjs')
    m.__package__ = 'triumvirate'
    m.__dict__.update(_cset_=cset, _cast_=lambda t, v: {'double': float, 'int': int}.get(t, lambda q: q)(v), _delete_=lambda p: None, CppBinning=Cpp)
    exec(compile(x.tree, x.path, 'exec'), m.__dict__)
    B = m.__dict__['Binning']
    for k, t in at.items():
        if not hasattr(B, k):
            setattr(B, k, 0. if t == 'double' else 0 if t == 'int' else [] if t.startswith('vector') else None)
    return B
