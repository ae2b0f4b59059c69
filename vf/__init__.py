"Runtime-monitoring machinery for shellous (see /verif/DESIGN.md)."
