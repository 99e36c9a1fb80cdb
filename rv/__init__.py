"""Runtime-verification machinery for casadi_extras (see /verif/DESIGN.md)."""
