import numpy as np


class NotFittedError(ValueError):
    pass


def check_array(X, accept_sparse=False, *, dtype="numeric", order=None, **kw):
    X = np.asarray(X, order=order)
    if isinstance(dtype, str) and dtype == "numeric":
        if X.dtype.kind == "O":
            X = X.astype(np.float64)
    elif dtype is not None:
        X = np.asarray(X, dtype=dtype, order=order)
    if X.ndim != 2:
        raise ValueError("Expected 2D array")
    if X.shape[0] < 1 or X.shape[1] < 1:
        raise ValueError("Found array with no samples or features")
    if X.dtype.kind == "f" and not np.isfinite(X).all():
        raise ValueError("Input contains NaN or infinity")
    return X


def check_X_y(X, y, accept_sparse=False, *, dtype="numeric", order=None, y_numeric=False, **kw):
    X = check_array(X, accept_sparse, dtype=dtype, order=order)
    y = np.asarray(y)
    if y.ndim != 1:
        raise ValueError("y should be a 1d array")
    if y_numeric and y.dtype.kind == "O":
        y = y.astype(np.float64)
    if len(y) != len(X):
        raise ValueError("Found input variables with inconsistent numbers of samples")
    return X, y


def check_is_fitted(estimator, attributes=None, **kw):
    names = [attributes] if isinstance(attributes, str) else (attributes or [])
    if not all(hasattr(estimator, a) for a in names):
        raise NotFittedError("This instance is not fitted yet")
