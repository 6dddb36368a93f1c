"""Deterministic simulation of caput: see /verif/DESIGN.md."""
