"""drive.py IN OUT: runs behaviours of Py.tla with the Python classes, which are on the path.
IN: one JSON list of operations per line; OUT: per line a list of [returned, what was raised, bits of the predictions]."""
import json, sys
import numpy as np
from bitboost import BitBoostRegressor
from bitboost.bitboost import RawBitBoost

NUMT = RawBitBoost.numt


def column(c, n):
    j = np.arange(n, dtype=np.int64)
    v = [0 * j, (j * 7 + 3) % 11, ((j * 5) % 9) / 2.0 - 1.0, (j % 2) * 3.5 - 1.0, (j * j % 13) * 0.25, j * 3 % 4, j * 2 % 7,
         0 * j + 2.0, j % 5 + 0.5, j % 3 - 1.0, np.where(j % 3 == 1, np.nan, j)][c]
    return v.astype(NUMT)


def table(ids, n, k, cols):
    """feature f is column f * cols, the columns between are zeros"""
    t = np.zeros((n, len(ids) * cols), dtype=NUMT, order="CF"[k % 2])
    for f, c in enumerate(ids):
        t[:, f * cols] = column(c, n)
    return t


def laid(a, k):
    """the same numbers, laid out in memory in another way"""
    k = k % 9
    if k == 0:
        return a
    if k == 1:      # from back to front
        r = a[::-1].copy()[::-1]
    elif k == 2:    # every third row of a larger array
        b = np.full((3 * a.shape[0],) + a.shape[1:], 77, dtype=a.dtype)
        b[1::3] = a
        r = b[1::3]
    elif k == 3:    # all axes reversed
        r = np.flip(np.flip(a).copy())
    elif k == 4:    # not aligned
        b = np.zeros(a.shape, dtype=np.dtype([("pad", "i1"), ("v", a.dtype)]))
        b["v"] = a
        r = b["v"]
    elif k == 5:    # columns of something wider, the axes the other way around
        b = np.full(tuple(2 * s + 1 for s in a.shape[::-1]), -55, dtype=a.dtype).T
        v = b[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]
        v[...] = a
        r = v
    elif k == 6:    # cannot be written
        r = a.copy()
        r.setflags(write=False)
    elif k == 7:    # a subclass
        r = a.copy().view(Sub)
    else:
        r = np.asfortranarray(a)
    assert r.shape == a.shape and r.dtype == a.dtype and np.ascontiguousarray(r).tobytes() == np.ascontiguousarray(a).tobytes()
    return r


class Sub(np.ndarray):
    pass


def wide(a, o):
    return a.astype(np.float64) if o["wide"] else a


class Runner:
    def __init__(self, salt):
        self.obj = None
        self.salt = salt
        self.count = 0
        self.given = []

    def give(self, a):
        """an array that the class must not change"""
        self.count += 1
        a = laid(a, self.count * 5 + self.salt)
        self.given.append((a, a.copy()))
        return a

    def after(self):
        """the classes must not keep what they were given either"""
        for a, b in self.given:
            if a.dtype != b.dtype or a.shape != b.shape or a.tobytes() != b.tobytes():
                return "changed its argument"
            if a.flags.writeable:
                a[...] = 1e9
        self.given = []

    def run(self, o, k):
        x = self.obj
        op = o["op"]
        if op == "new":
            self.obj = RawBitBoost(o["nf"] * o["cols"], 10)
        elif op == "fields":
            vals = {n: eval(v) for n, v in o["vals"]}
            if len(vals) == 1 and k % 2:
                for n, v in vals.items():
                    x.set_config_field(n, v)
            else:
                x.set_config(vals)
        elif op == "data":
            cats = {f * o["cols"] for f, c in enumerate(o["cats"]) if c}
            t = wide(table(o["ids"], o["n"], k, o["cols"]), o)
            if cats or k % 2:
                x.set_data(self.give(t), cats if k % 3 else list(cats))
            else:
                x.set_data(self.give(t))
        elif op == "target":
            x.set_target(self.give(wide(column(o["id"], o["n"]), o)))
        elif op == "feature":
            x.set_feature_data(o["f"] * o["cols"], self.give(wide(column(o["id"], o["n"]), o)), o["cat"])
        elif op == "train":
            x.train()
        elif op == "predict":
            return x.predict()
        elif op == "dealloc":
            x.dealloc()
        elif op == "est":
            params = {n: eval(v) for n, v in o["vals"]}
            params["categorical_features"] = [f * o["cols"] for f, c in enumerate(o["cats"]) if c]
            e = BitBoostRegressor(**params)
            r = e.fit(self.give(wide(table(o["ids"], o["n"], k, o["cols"]), o)), self.give(wide(column(o["y"], o["n"]), o)))
            assert r is e
            return e.predict(self.give(wide(table(o["to"], o["m"], k + 1, o["cols"]), o)))
        else:
            raise SystemExit("unknown operation " + op)


def main():
    with open(sys.argv[2], "w") as out:
        for salt, line in enumerate(open(sys.argv[1])):
            r, res = Runner(salt), []
            for k, o in enumerate(json.loads(line)):
                try:
                    p = r.run(o, k)
                    res.append([True, r.after() or "", p])
                except Exception as e:
                    res.append([False, r.after() or type(e).__name__ + ": " + str(e)[:200], None])
            for x in res:   # only now: a later call does not change a result either
                x[2] = [] if x[2] is None else [int(v) for v in np.asarray(x[2], dtype=NUMT).view(np.uint32)]
            out.write(json.dumps(res) + "\n")
            out.flush()


main()
