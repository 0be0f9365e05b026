"""Static analysis of zksk: gated value-flow analysis of the syntax trees (see DESIGN.md)."""
