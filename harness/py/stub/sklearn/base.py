import inspect


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        return sorted(p.name for p in inspect.signature(cls.__init__).parameters.values()
                      if p.name != "self" and p.kind != p.VAR_KEYWORD)

    def get_params(self, deep=True):
        return {k: getattr(self, k) for k in self._get_param_names()}

    def set_params(self, **params):
        for k, v in params.items():
            if k not in self._get_param_names():
                raise ValueError(k)
            setattr(self, k, v)
        return self
