"""pyvc: a small contract-based verification-condition generator for Python functions (see DESIGN.md)."""
