"""Observation of process-wide state."""
import sys


def global_state():
    from galgebra.ga import Ga
    from galgebra.metric import Simp
    from galgebra import printer
    from sympy.printing.printer import Printer
    st = {}
    st['dual_mode'] = Ga.dual_mode_value
    ms = Simp.modes if isinstance(Simp.modes, (list, tuple)) else [Simp.modes]
    st['simp'] = [getattr(m, '__name__', type(m).__name__) for m in ms]
    st['stdout'] = sys.stdout is sys.__stdout__
    st['printer'] = {c.__name__: repr(sorted(c._global_settings.items()))
                     for c in (Printer, printer.GaPrinter, printer.GaLatexPrinter)}
    st['latex_flg'] = printer.GaLatexPrinter.latex_flg
    st['str_printer'] = _display_hooks()
    return st


def _display_hooks():
    import sympy
    return [sympy.Basic.__str__.__qualname__, sympy.Basic.__repr__.__qualname__]


def state_diff(a, b):
    return ['%s: %s -> %s' % (k, a[k], b[k]) for k in sorted(a) if a[k] != b.get(k)]
