"""Bounded model checking of acltk: see /verif/DESIGN.md."""
