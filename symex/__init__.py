"""Symbolic execution of pyvbmc's real (numpy) code with z3 as the deciding solver."""
