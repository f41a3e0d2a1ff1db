"""Runtime-monitoring machinery for the Acacia compiler (see DESIGN.md)."""
