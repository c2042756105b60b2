"""Stand-in for the three metrics that causalnex.evaluation uses, from their documentation."""
import numpy as np


def _column(y):
    a = np.asarray(y)
    if a.ndim == 2 and a.shape[1] == 1:
        a = a[:, 0]
    if a.ndim != 1:
        raise ValueError("bad input shape %r" % (a.shape,))
    return a


def roc_curve(y_true, y_score, *, pos_label=None, sample_weight=None, drop_intermediate=True):
    y_true, y_score = _column(y_true), _column(y_score)
    if len(y_true) != len(y_score):
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(y_true), len(y_score)])
    if len(y_true) == 0:
        raise ValueError("Found array with 0 sample(s)")
    y_score = y_score.astype(float)
    if not np.isfinite(y_score).all():
        raise ValueError("Input contains NaN or infinity.")
    if not set(np.unique(y_true).tolist()) <= {0, 1}:
        raise ValueError("y_true takes value in %r and pos_label is not specified" % set(np.unique(y_true).tolist()))
    order = np.argsort(-y_score, kind="mergesort")
    truth, score = y_true[order].astype(float), y_score[order]
    last = np.r_[np.where(np.diff(score))[0], len(score) - 1]
    tps = np.cumsum(truth)[last]
    fps = 1 + last - tps
    if drop_intermediate and len(fps) > 2:
        keep = np.where(np.r_[True, np.logical_or(np.diff(fps, 2), np.diff(tps, 2)), True])[0]
        fps, tps, last = fps[keep], tps[keep], last[keep]
    tps, fps, thresholds = np.r_[0, tps], np.r_[0, fps], np.r_[score[last][0] + 1, score[last]]
    with np.errstate(invalid="ignore", divide="ignore"):
        return fps / fps[-1], tps / tps[-1], thresholds


def auc(x, y):
    x, y = _column(x), _column(y)
    if len(x) < 2:
        raise ValueError("At least 2 points are needed to compute area under curve")
    step = np.diff(x)
    if (step < 0).any() and (step > 0).any():
        raise ValueError("x is neither increasing nor decreasing")
    area = float(((y[1:] + y[:-1]) / 2 * step).sum())
    return -area if (step < 0).any() else area


def classification_report(y_true, y_pred, *, labels=None, target_names=None, sample_weight=None, digits=2, output_dict=False, zero_division="warn"):
    y_true, y_pred = _column(y_true).tolist(), _column(y_pred).tolist()
    if len(y_true) != len(y_pred):
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(y_true), len(y_pred)])
    labels = sorted(set(y_true) | set(y_pred)) if labels is None else list(labels)
    names = [str(x) for x in labels] if target_names is None else list(target_names)
    if len(names) != len(labels):
        raise ValueError("number of classes does not match size of target_names")
    out, rows = {}, []
    for name, label in zip(names, labels):
        both = sum(t == label and p == label for t, p in zip(y_true, y_pred))
        told, true = sum(p == label for p in y_pred), sum(t == label for t in y_true)
        precision, recall = both / told if told else 0.0, both / true if true else 0.0
        f1 = 2 * precision * recall / (precision + recall) if precision + recall else 0.0
        rows.append((precision, recall, f1, true))
        out[name] = {"precision": precision, "recall": recall, "f1-score": f1, "support": true}
    total = sum(r[3] for r in rows)
    if set(y_true) | set(y_pred) <= set(labels):
        out["accuracy"] = sum(t == p for t, p in zip(y_true, y_pred)) / max(1, len(y_true))
    for name, weights in (("macro avg", [1] * len(rows)), ("weighted avg", [r[3] for r in rows])):
        w = sum(weights)
        out[name] = {k: (sum(r[j] * x for r, x in zip(rows, weights)) / w if w else 0.0) for j, k in enumerate(["precision", "recall", "f1-score"])}
        out[name]["support"] = total
    return out if output_dict else repr(out)


def roc_auc_score(y_true, y_score, **kwargs):
    if kwargs:
        raise _gap("roc_auc_score with options")
    if len(np.unique(_column(y_true))) != 2:
        raise ValueError("Only one class present in y_true. ROC AUC score is not defined in that case.")
    fpr, tpr, _ = roc_curve(y_true, y_score)
    return auc(fpr, tpr)


def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
    y_true, y_pred = _column(y_true).tolist(), _column(y_pred).tolist()
    if sample_weight is not None:
        raise _gap("accuracy_score with weights")
    if len(y_true) != len(y_pred):
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(y_true), len(y_pred)])
    n = sum(t == p for t, p in zip(y_true, y_pred))
    return n / len(y_true) if normalize else n


def precision_recall_fscore_support(y_true, y_pred, *, beta=1.0, labels=None, average=None, zero_division="warn", **kwargs):
    if kwargs or beta != 1.0 or average not in (None, "macro", "weighted"):
        raise _gap("precision_recall_fscore_support with options")
    labels = sorted(set(_column(y_true).tolist()) | set(_column(y_pred).tolist())) if labels is None else list(labels)
    names = [str(k) for k in range(len(labels))]
    report = classification_report(y_true, y_pred, labels=labels, target_names=names, output_dict=True)
    if average:
        r = report[average + " avg"]
        return r["precision"], r["recall"], r["f1-score"], None
    return tuple(np.array([report[n][k] for n in names]) for k in ("precision", "recall", "f1-score", "support"))


def confusion_matrix(y_true, y_pred, *, labels=None, sample_weight=None, normalize=None):
    if sample_weight is not None or normalize is not None:
        raise _gap("confusion_matrix with options")
    y_true, y_pred = _column(y_true).tolist(), _column(y_pred).tolist()
    labels = sorted(set(y_true) | set(y_pred)) if labels is None else list(labels)
    return np.array([[sum(t == a and p == b for t, p in zip(y_true, y_pred)) for b in labels] for a in labels])


def r2_score(y_true, y_pred, **kwargs):
    y_true, y_pred = np.asarray(y_true, dtype=float), np.asarray(y_pred, dtype=float)
    return 1 - ((y_true - y_pred) ** 2).sum() / ((y_true - y_true.mean()) ** 2).sum()


def mean_squared_error(y_true, y_pred, **kwargs):
    return float(((np.asarray(y_true, dtype=float) - np.asarray(y_pred, dtype=float)) ** 2).mean())


def _gap(what):
    from rv.core import ShimGap

    return ShimGap(what)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise _gap("sklearn.metrics.%s" % name)
