import numpy as np

from rv.core import ShimGap


def type_of_target(y):
    y = np.asarray(y)
    if y.ndim != 1 and not (y.ndim == 2 and y.shape[1] == 1):
        raise ShimGap("type_of_target of %d dimensions" % y.ndim)
    if y.dtype == object and len(y) and not isinstance(y.flat[0], str):
        return "unknown"
    if y.dtype.kind == "f" and (y != y.astype(int)).any():
        return "continuous"
    return "multiclass" if len(set(y.reshape(-1).tolist())) > 2 else "binary"


def check_classification_targets(y):
    kind = type_of_target(y)
    if kind not in ("binary", "multiclass"):
        raise ValueError("Unknown label type: %r" % kind)


def unique_labels(*ys):
    return np.unique(np.concatenate([np.asarray(y) for y in ys]))
