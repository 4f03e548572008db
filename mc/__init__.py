"""Bounded exhaustive checking of ondil. See /verif/DESIGN.md."""
