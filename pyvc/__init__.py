"""pyvc: a verification-condition generator for the Python subset sqlpuzzle is written in."""
