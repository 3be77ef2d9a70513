"""Symbolic execution engine (see DESIGN.md): scalars, arrays, numpy shim, paths."""
