from rv.core import ShimGap
from sklearn.utils.validation import check_array, check_X_y, column_or_1d  # noqa: F401


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("sklearn.utils.%s" % name)
