"""symx: a small symbolic executor for numerical Python (see /verif/DESIGN.md)."""
