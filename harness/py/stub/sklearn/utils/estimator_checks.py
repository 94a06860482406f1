def check_estimator(*args, **kw):
    raise NotImplementedError
