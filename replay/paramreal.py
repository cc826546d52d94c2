"""The class ParameterSet and the functions of parameters.pyx, extracted from their current text and run by Python on the real trv::ParameterSet."""
import os, types, ctypes as ct
import cxx, pyreal, pyx


def Cpp(members):
    class CppParameterSet:
        def __init__(s): s.__dict__['p'] = cxx.H(cxx.lib().p_new())

        def __getattr__(s, k):
            t, L = members[k], cxx.lib()
            if t.endswith('[3]'):
                return [(L.p_getd if 'double' in t else L.p_geti)(s.p, k, i) for i in range(3)]
            if t == 'string':
                v = L.p_gets(s.p, k)
                return v if isinstance(v, bytes) else v.encode()
            return (L.p_getd if t == 'double' else L.p_geti)(s.p, k, 0)

        def __setattr__(s, k, v):
            t = members[k]
            if t == 'string':
                if not isinstance(v, bytes):
                    raise TypeError('expected bytes')
                v = v.decode()
            elif t.endswith('[3]'):
                v = [float(x) if 'double' in t else int(x) for x in v]
                if len(v) != 3:
                    raise ValueError(k)
            elif t == 'double':
                v = float(v)
            else:
                v = v.__index__() if not isinstance(v, float) else int(v)
            cxx.put(s.p, k, v)

        def validate(s, init):
            try:
                cxx.lib().p_validate(s.p, int(bool(init)))
            except cxx.Raised as e:
                raise RuntimeError(str(e))
            return 0
    return CppParameterSet


def load():
    x = pyx.Extract(os.path.join(pyreal.SRC, 'parameters.pyx'))
    at = x.classes['ParameterSet']

    def cset(o, k, v): object.__setattr__(o, k, v.decode() if isinstance(v, bytes) else v)
    m = types.ModuleType('triumvirate.parameters')
    m.__package__ = 'triumvirate'
    m.__dict__.update(__file__=os.path.join(pyreal.SRC, 'parameters.pyx'), _cset_=cset, _cast_=lambda t, v: {'double': float, 'int': int}.get(t, lambda q: q)(v), _delete_=lambda p: None, CppParameterSet=Cpp(x.structs['CppParameterSet'][1]))
    exec(compile(x.tree, x.path, 'exec'), m.__dict__)
    for k, t in at.items():
        if not hasattr(m.ParameterSet, k):
            setattr(m.ParameterSet, k, False if t == 'bool_t' else None)
    return m
