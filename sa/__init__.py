"""Static analysis of Toilal/rebulk: see /verif/DESIGN.md."""
