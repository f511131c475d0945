"""Deterministic-simulation machinery for pysgmcmc (see /verif/DESIGN.md)."""
