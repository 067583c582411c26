"""Deterministic simulation with fault injection for stcal."""
