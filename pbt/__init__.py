"""Property-based testing machinery for pygfunction."""
