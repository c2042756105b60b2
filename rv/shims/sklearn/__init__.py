"""Stand-in for the parts of scikit-learn that causalnex uses outside its torch models."""
__version__ = "0.22.0"
