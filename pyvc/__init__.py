"""pyvc: a small contract-based deductive verifier for a Python subset.

The code that is verified is the AST of the functions in /repo's working tree, parsed on every run.
"""
