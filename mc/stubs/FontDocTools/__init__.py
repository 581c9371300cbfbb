"""A minimal stand-in for the FontDocTools package, which is not available offline. It has only what PathLib.Color and
PathLib.ContourPlotter use, with the plainest behaviour these uses allow (see DESIGN.md, assumptions)."""
