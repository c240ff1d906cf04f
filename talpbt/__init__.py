"""Property-based verification machinery for zope.tal (see DESIGN.md)."""
