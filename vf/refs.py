"""Factory for 'the function equals this independently written reference' sub-checks."""
import inspect
import fluids
from .core import *

def dropn(case):
    return {k: v for k, v in case.items() if v is not None}

def resolve(name):
    if callable(name): return name
    obj = fluids
    for part in name.split('.'):
        obj = getattr(obj, part)
    return obj

def refsub(prop, func, ref, /, _n=150, _rtol=1e-9, _atol=0.0, _name=None, _label=None, _thorough=None,
           _strategy=None, _nontrivial=None, _hang=60, _post=None, **gens):
    """func: dotted name below fluids (looked up on every call).  ref: reference callable with the same keywords;
    it may raise SkipCase (outside domain) or return an exception class (the call must raise it).
    None-valued arguments are left out of the call, so defaults are exercised too."""
    nm = _name or (func if isinstance(func, str) else func.__name__).replace('.', '_')
    strat = _strategy if _strategy is not None else rec(**gens)
    def fn(ctx, **case):
        case = dropn(case)
        want = ref(**case)
        f = resolve(func)
        if isinstance(want, type) and issubclass(want, BaseException):
            raises(want, f, what='%s(%s)' % (nm, ', '.join('%s=%r' % kv for kv in case.items())), **case)
            ctx.label('raises')
            return
        got = f(**case)
        if _label: ctx.label(_label(**case))
        if _nontrivial: ctx.nontrivial(_nontrivial(**case))
        if isinstance(want, (tuple, list)):
            closes(got, want, _rtol, _atol, nm)
        else:
            close(got, want, _rtol, _atol, nm)
        if _post: _post(got, **case)
    prop.sub(strat, n=_n, thorough=_thorough, name=nm, hang=_hang)(fn)
    return fn

def reffer(prop, **defaults):
    """-> r(func, ref, **gens) with module-wide option defaults (_n, _rtol, ...)."""
    def r(func, ref, /, **g):
        return refsub(prop, func, ref, **{**defaults, **g})
    return r
