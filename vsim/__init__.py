"""Deterministic simulation of Metatab/metatab with fault injection."""
