"""Deterministic simulation of pvlib with fault injection (see DESIGN.md)."""
