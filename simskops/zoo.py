"""Named objects covering every node kind and many estimators.

``base(name)`` -> (archive bytes, its untrusted types).  Fitting and dumping is
done once per process under fixed seams; the schema is put into a canonical
order (sets) so that positions in it do not depend on the hash seed.
"""
from __future__ import annotations

import collections
import datetime
import decimal
import fractions
import functools
import itertools
import operator
import random
import warnings

import numpy as np
import scipy.sparse as sp

from . import archive
from .core import jdump
from .seams import Allocator, Clock, Seams

Point = collections.namedtuple("Point", "x y")
Point.__module__, Point.__qualname__ = __name__, "Point"


class Holder:
    """object with methods"""

    def __init__(self, n=1):
        self.n = n

    def twice(self, x=0):
        return 2 * x


def _data():
    r = np.random.RandomState(0)
    X = np.abs(r.rand(24, 3))
    return X, np.arange(24) % 3, X[:, 0] * 2 + r.rand(24)


TEXT = ["the cat sat", "a dog ran far", "the dog sat", "cats run"] * 3


def _est(path, kw=None, y="c", data=None):
    def make():
        import importlib
        mod, _, cls = path.rpartition(".")
        est = getattr(importlib.import_module("sklearn." + mod), cls)(**(kw() if callable(kw) else kw or {}))
        X, yc, yr = _data()
        X = data if data is not None else X
        yy = {"c": yc, "b": yc == 1, "r": yr, "m": np.c_[yr, yr], "mc": np.c_[yc, yc % 2], None: None}[y]
        if yy is not None and len(yy) != len(X):
            yy = yy[: len(X)]
        return est.fit(X) if yy is None else est.fit(X, yy)
    return make


def _sub(path, **kw):
    import importlib
    mod, _, cls = path.rpartition(".")
    return getattr(importlib.import_module("sklearn." + mod), cls)(**kw)


def shared():
    a, l = np.arange(6.0), [1, 2]
    return {"a": a, "b": [a, l], "c": (l, a), "m": sp.csr_matrix(np.eye(3)), "d": {"l": l}}


def objarr():
    o = np.empty((2, 2), dtype=object)
    o[:] = [[1, "a"], [None, np.float64(2)]]
    p = np.empty(3, dtype=object)
    p[:] = [[1], {"a": 1}, np.arange(2)]
    return [o, p]


OBJECTS = {
    "scalars": lambda: [None, True, 1, 2.5, "x", float("nan"), float("inf"), "é\n", 10**30],
    "dicts": lambda: {"a": 1, 2: "b", "n": {1: 2, "1": 3, None: 4, True: 5}, "o": collections.OrderedDict(a=1),
                      "np": {np.int64(3): 1, np.float32(2): 2}},
    "ddict": lambda: collections.defaultdict(list, {"a": [1], 3: [2]}),
    "seqs": lambda: [[1, [2, []]], (1, (2, ())), {1, "a", (2, 3)}, Point(1, [2])],
    "bytes": lambda: [b"abc", bytearray(b"xyz" * 20), np.bytes_(b"q"), b""],
    "slices": lambda: [slice(1, 2), slice(None, None, -1), slice(np.int64(1), (1, 2), "a")],
    "funcs": lambda: [np.sum, np.sqrt, len, functools.partial(np.sum, [1], axis=0), operator.attrgetter("a.b"), operator.itemgetter(0, "k"),
                      int, np.float64, collections.OrderedDict],
    "method": lambda: [Holder(3).twice, Holder(4)],
    "ctor": lambda: [fractions.Fraction(1, 3), decimal.Decimal("1.5"), datetime.timedelta(3), range(5), itertools.count(2), complex(1, 2),
                     datetime.date(2020, 1, 1), collections.deque([1])][:4],
    "arrays": lambda: {"f": np.arange(6.0).reshape(2, 3), "F": np.asfortranarray(np.arange(6).reshape(2, 3)), "s": np.array(["a", "bc"]),
                       "b": np.array([b"x"]), "st": np.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")]), "M": np.array(["2020"], "M8[D]"),
                       "0": np.array(3), "e": np.zeros((0, 3)), "sc": np.float32(2), "u": np.str_("u")},
    "objarr": objarr,
    "masked": lambda: [np.ma.MaskedArray([1.0, 2], mask=[0, 1], fill_value=7), np.ma.masked, np.ma.MaskedArray([1, 2], hard_mask=True)],
    "dtypes": lambda: [np.dtype("f8"), np.dtype([("a", "i4"), ("b", "U3", (2,))]), np.dtype((np.int32, (2, 2))), np.dtype("M8[ns]")],
    "rng": lambda: [np.random.RandomState(1), np.random.default_rng(2), np.random.RandomState(np.random.PCG64(3)),
                    np.random.Generator(np.random.Philox(4)), np.random.Generator(np.random.SFC64(5))],
    "sparse": lambda: [f(np.eye(4)[[0, 2, 3, 3]]) for f in (sp.csr_matrix, sp.csc_matrix, sp.coo_matrix, sp.bsr_matrix, sp.dia_matrix)]
                      + [sp.csr_array(np.eye(2))],
    "shared": shared,
    "pipe": lambda: _sub("pipeline.Pipeline", steps=[("a", _sub("preprocessing.StandardScaler")), ("b", _sub("linear_model.LogisticRegression"))]).fit(*_data()[:2]),
}
ESTIMATORS = {
    "logreg": _est("linear_model.LogisticRegression"),
    "sgd-hinge": _est("linear_model.SGDClassifier", {"random_state": 0}),
    "sgd-log": _est("linear_model.SGDClassifier", {"loss": "log_loss", "random_state": 0}, "b"),
    "sgd-huber": _est("linear_model.SGDRegressor", {"loss": "huber", "random_state": 0}, "r"),
    "gamma": _est("linear_model.GammaRegressor", None, "r"),
    "tree": _est("tree.DecisionTreeClassifier", {"random_state": 0}),
    "tree-reg": _est("tree.DecisionTreeRegressor", {"random_state": 0, "max_depth": 2}, "m"),
    "tree-mo": _est("tree.DecisionTreeClassifier", {"random_state": 0}, "mc"),
    "forest": _est("ensemble.RandomForestClassifier", {"n_estimators": 2, "random_state": 0, "max_depth": 2}),
    "extra": _est("ensemble.ExtraTreesRegressor", {"n_estimators": 2, "random_state": 0, "max_depth": 2}, "r"),
    "gbm": _est("ensemble.GradientBoostingClassifier", {"n_estimators": 2, "max_depth": 1, "random_state": 0}),
    "gbm-reg": _est("ensemble.GradientBoostingRegressor", {"n_estimators": 2, "max_depth": 1, "loss": "quantile", "random_state": 0}, "r"),
    "hgb": _est("ensemble.HistGradientBoostingClassifier", {"max_iter": 2, "min_samples_leaf": 2, "random_state": 0}),
    "hgb-reg": _est("ensemble.HistGradientBoostingRegressor", {"max_iter": 1, "loss": "gamma", "min_samples_leaf": 2, "random_state": 0}, "r"),
    "iforest": _est("ensemble.IsolationForest", {"n_estimators": 2, "random_state": 0}, None),
    "ada": _est("ensemble.AdaBoostClassifier", {"n_estimators": 2, "random_state": 0}),
    "bag": _est("ensemble.BaggingClassifier", {"n_estimators": 2, "random_state": 0}),
    "vote": _est("ensemble.VotingClassifier", lambda: {"estimators": [("a", _sub("naive_bayes.GaussianNB")), ("b", _sub("dummy.DummyClassifier"))]}),
    "stack": _est("ensemble.StackingClassifier", lambda: {"estimators": [("a", _sub("naive_bayes.GaussianNB"))], "cv": 2}),
    "knn-kd": _est("neighbors.KNeighborsClassifier", {"algorithm": "kd_tree", "leaf_size": 4}),
    "knn-ball": _est("neighbors.KNeighborsRegressor", {"algorithm": "ball_tree", "leaf_size": 4, "metric": "minkowski", "p": 3}, "r"),
    "kde": _est("neighbors.KernelDensity", {"leaf_size": 5}, None),
    "lof": _est("neighbors.LocalOutlierFactor", {"n_neighbors": 3, "novelty": True}, None),
    "nn-mahal": _est("neighbors.NearestNeighbors", {"algorithm": "ball_tree", "metric": "seuclidean", "metric_params": {"V": np.ones(3)}}, None),
    "svc": _est("svm.SVC", {"probability": True, "random_state": 0}, "b"),
    "nusvr": _est("svm.NuSVR", None, "r"),
    "oneclass": _est("svm.OneClassSVM", None, None),
    "linsvc": _est("svm.LinearSVC", {"random_state": 0}),
    "gp": _est("gaussian_process.GaussianProcessRegressor", lambda: {"kernel": _sub("gaussian_process.kernels.RBF", length_scale=1.0)
                                                                     + _sub("gaussian_process.kernels.WhiteKernel")}, "r"),
    "mlp": _est("neural_network.MLPClassifier", {"hidden_layer_sizes": (3,), "max_iter": 3, "random_state": 0}),
    "rbm": _est("neural_network.BernoulliRBM", {"n_components": 2, "n_iter": 1, "random_state": 0}, None),
    "kmeans": _est("cluster.KMeans", {"n_clusters": 2, "n_init": 1, "random_state": 0}, None),
    "mbk": _est("cluster.MiniBatchKMeans", {"n_clusters": 2, "n_init": 1, "random_state": 0}, None),
    "dbscan": _est("cluster.DBSCAN", {"eps": 0.3}, None),
    "agglo": _est("cluster.AgglomerativeClustering", None, None),
    "pca": _est("decomposition.PCA", None, None),
    "nmf": _est("decomposition.NMF", {"n_components": 2, "random_state": 0, "max_iter": 5}, None),
    "lda": _est("discriminant_analysis.LinearDiscriminantAnalysis"),
    "spline": _est("preprocessing.SplineTransformer", {"n_knots": 3}, None),
    "onehot": _est("preprocessing.OneHotEncoder", None, None),
    "poly": _est("preprocessing.PolynomialFeatures", None, None),
    "quant": _est("preprocessing.QuantileTransformer", {"n_quantiles": 4}, None),
    "power": _est("preprocessing.PowerTransformer", None, None),
    "ft": _est("preprocessing.FunctionTransformer", {"func": np.sqrt, "kw_args": {}}, None),
    "colt": _est("compose.ColumnTransformer", lambda: {"transformers": [("a", _sub("preprocessing.StandardScaler"), [0, 1]), ("b", "passthrough", slice(2, 3))]}, None),
    "ttr": _est("compose.TransformedTargetRegressor", {"func": np.log, "inverse_func": np.exp}, "r"),
    "iso": _est("isotonic.IsotonicRegression", None, "r", np.arange(24.0)),
    "gmm": _est("mixture.GaussianMixture", {"n_components": 2, "random_state": 0}, None),
    "nb": _est("naive_bayes.MultinomialNB"),
    "impute": _est("impute.KNNImputer", None, None),
    "kbest": _est("feature_selection.SelectKBest", {"k": 2}),
    "tfidf": _est("feature_extraction.text.TfidfVectorizer", None, None, TEXT),
    "grid": _est("model_selection.GridSearchCV", lambda: {"estimator": _sub("linear_model.Ridge"), "param_grid": {"alpha": [0.1, 1.0]}, "cv": 2}, "r"),
    "calib": _est("calibration.CalibratedClassifierCV", lambda: {"estimator": _sub("naive_bayes.GaussianNB"), "cv": 2}),
    "glasso": _est("covariance.GraphicalLassoCV", {"cv": 2}, None),
    "nystroem": _est("kernel_approximation.Nystroem", {"n_components": 3, "random_state": 0}, None),
}
NAMES = sorted(OBJECTS) + sorted(ESTIMATORS)
_cache = {}


def canonical(data):
    """set contents in an order that does not depend on hashes"""
    schema, members = archive.read(data)
    ids, counter = {}, itertools.count(1)

    def bare(n):
        if isinstance(n, dict):
            return {k: bare(v) for k, v in n.items() if k not in ("__id__", "file")}
        return [bare(v) for v in n] if isinstance(n, list) else n

    def fix(n):
        if isinstance(n, dict):
            for v in n.values():
                fix(v)
            if n.get("__loader__") == "SetNode" and isinstance(n.get("content"), list):
                n["content"].sort(key=lambda x: jdump(bare(x)))
        elif isinstance(n, list):
            for v in n:
                fix(v)
    fix(schema)
    files = {}

    def number(n):
        if isinstance(n, dict):
            for k, v in n.items():
                if k == "__id__":
                    n[k] = ids.setdefault(v, 140000000000000 + 16 * next(counter))
                elif k == "file" and v in members:
                    suffix = v.rpartition(".")[2]
                    n[k] = files.setdefault(v, f"{140000000000000 + 16 * next(counter)}.{suffix}")
                else:
                    number(v)
        elif isinstance(n, list):
            for v in n:
                number(v)
    number(schema)
    return archive.write(schema, {files[f]: members[f] for f in files})


def make(name):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return (OBJECTS.get(name) or ESTIMATORS[name])()


def base(name):
    if name not in _cache:
        from skops.io import dumps, get_untrusted_types
        obj = make(name)
        with Seams(Allocator(random.Random(1)), random.Random(1), Clock()):
            data = dumps(obj)
        data = canonical(data)
        _cache[name] = (data, get_untrusted_types(data=data))
    return _cache[name]


def warm():
    """-> the names that can be made here"""
    ok = []
    for n in NAMES:
        try:
            base(n)
            ok.append(n)
        except Exception as e:
            _cache[n] = e
    return ok
