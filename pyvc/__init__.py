"""pyvc: a verification-condition generator for a stated subset of Python, over the real source of /repo."""
