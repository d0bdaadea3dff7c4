"""Runtime-monitoring harness for hickle (see /verif/DESIGN.md)."""
