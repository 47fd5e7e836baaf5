"""Runtime-monitoring framework for deepwave (see ../DESIGN.md)."""
