"""Runtime-monitoring framework for cameratransform (see /verif/DESIGN.md)."""
