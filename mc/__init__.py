"""Bounded exhaustive exploration of soapfish (see DESIGN.md)."""
