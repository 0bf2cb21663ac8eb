"""Runtime-monitoring framework for gtri/upstage (see DESIGN.md)."""
