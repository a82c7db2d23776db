"""Symbolic execution of the real zcollection code (see DESIGN.md)."""
