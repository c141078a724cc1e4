"""Deterministic simulation of ctypeslib: one seed is one repeatable execution."""
