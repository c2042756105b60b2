class NotFittedError(ValueError, AttributeError):
    documented = True   # a verdict of the library, never a gap of this stand-in
