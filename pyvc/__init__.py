"""PyVC: verification-condition generation for real Python code.

The code of /repo is loaded from its current source through a mechanical AST
instrumentation (loader.py) and executed by CPython on symbolic values over
finite-domain variables (core.py, strings.py, dt.py) and SMT terms (smt.py).
Every branch on a symbolic value splits the set of inputs; the union of the
paths is the whole domain.  Each postcondition clause becomes, per path, an
obligation that is decided for every remaining input.
"""
