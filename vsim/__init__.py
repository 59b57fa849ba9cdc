"""Deterministic simulation with fault injection for mlpaper.  See ../DESIGN.md."""
