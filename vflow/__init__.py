"""Gated value-flow analysis over Python syntax trees (no execution)."""
