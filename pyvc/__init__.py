"""pyvc: a small contract-based deductive verifier for the Python subset FInAT is written in.

The verified text is the AST of the functions in /repo, extracted with `inspect`/`ast` on every run.
"""
import sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)      # appended: only z3 / cvc5 come from there, never numpy etc.
