"""Bounded symbolic execution of Python code with an SMT solver (see /verif/DESIGN.md)."""
