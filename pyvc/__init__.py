"""PyVC: a contract-based deductive verifier for the Python code in /repo.

The verified text is the code that runs: every `fora` module is read from the
current working tree, its AST is rewritten so that every operation that could
meet a symbolic value goes through `pyvc.rt`, and the result is executed by
CPython itself.  Nothing of the source is dropped or modelled by hand.
"""
