"""Symbolic execution of the real stream2py code (see /verif/DESIGN.md)."""
