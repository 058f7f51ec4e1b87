"""Exhaustive bounded model checking of larryhastings/big.  See DESIGN.md."""
