"""pyvc: a verification-condition generator for a subset of Python, over the real source text."""
