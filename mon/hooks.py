"""Event hooks: wrap the public methods of the real classes from outside (no change in
/repo) and count every call, at the API boundary and nested inside the library.  The
hooks only observe; they are the evidence that the deciding code was really reached."""
import functools, importlib, types

REC = None
_depth = [0]
METHODS = ["U_expand", "TN_operation", "TN_contract", "operation_dagger", "params_update", "info"]
CIRCUIT = ["U", "add", "TN_evolution", "TN_contract_evolution", "cir_expectation", "TN_check", "state_init", "clear"]
PSHIFT = ["cal_params_grad", "save_mid_MPS", "cal_params_grad2"]
_installed = False


def _wrap(cls, name):
    fn = cls.__dict__.get(name)
    if not isinstance(fn, types.FunctionType) or getattr(fn, "_verif", False):
        return
    cn = cls.__name__

    @functools.wraps(fn)
    def w(*a, **k):
        rec = REC
        if rec is None:
            return fn(*a, **k)
        try:
            lab = type(a[0]).__name__
        except Exception:
            lab = cn
        rec.events[("nested " if _depth[0] else "call ") + lab + "." + name] += 1
        _depth[0] += 1
        try:
            return fn(*a, **k)
        finally:
            _depth[0] -= 1
    w._verif = True
    try:
        setattr(cls, name, w)
    except Exception:
        pass


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for m, names in (("deepquantum.gates.qoperator", METHODS), ("deepquantum.layers.qlayers", METHODS),
                     ("deepquantum.gates.qcircuit", CIRCUIT + PSHIFT)):
        try:
            mod = importlib.import_module(m)
        except Exception:
            continue
        for o in list(vars(mod).values()):
            if isinstance(o, type) and getattr(o, "__module__", "").startswith("deepquantum"):
                for n in names:
                    _wrap(o, n)
