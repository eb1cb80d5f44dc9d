"""A catalogue of ready-to-run models over the whole layer library, with input makers."""
import numpy as np


def f2(rng, n, w, scale=1.0):
    return (rng.standard_normal((n, w)) * scale).astype("float32")


def lens(rng, n=None, lo=1, hi=4):
    n = n or int(rng.integers(1, 4))
    return [int(x) for x in rng.integers(lo, hi + 1, size=n)]


def seqs(rng, w, lo=1, hi=4):
    return [f2(rng, n, w) for n in lens(rng, lo=lo, hi=hi)]


def ragged(rng, w, lo=1):
    from thinc.types import Ragged

    s = seqs(rng, w, lo)
    return Ragged(np.concatenate(s), np.array([len(x) for x in s], dtype="int32"))


def padded(rng, w):
    from thinc.api import NumpyOps

    return NumpyOps().list2padded(seqs(rng, w))


def sparse(rng):
    ls = np.array(lens(rng), dtype="int32")
    keys = rng.integers(0, 50, size=int(ls.sum())).astype("uint64")
    vals = rng.standard_normal(int(ls.sum())).astype("float32")
    return (keys, vals, ls)


def ids(rng, k=None, hi=5, dtype="int32"):
    n = int(rng.integers(1, 6))
    return rng.integers(0, hi, size=(n,) if k is None else (n, k)).astype(dtype)


def _torch_linear():
    import torch

    from thinc.api import PyTorchWrapper_v2

    return PyTorchWrapper_v2(torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.Tanh(), torch.nn.Linear(4, 2)))


def array_of_list():
    """A user-defined layer: list of ids to an array."""
    from thinc.api import Model

    def forward(model, X, is_train):
        n = len(X)
        return np.array(X, dtype="int32"), lambda dY: [0.0] * n

    return Model("array_of_list", forward)


def catalogue():
    """name -> (make(), data(rng)); make gives an uninitialised model."""
    import thinc.api as T
    from thinc.layers.array_getitem import floats_getitem
    from thinc.layers.with_flatten_v2 import with_flatten_v2

    m3 = lambda r: f2(r, int(r.integers(1, 5)), 3)  # noqa: E731
    l3 = lambda r: seqs(r, 3)  # noqa: E731
    g3 = lambda r: ragged(r, 3)  # noqa: E731
    p3 = lambda r: padded(r, 3)  # noqa: E731
    pair = lambda r: (lambda n: (f2(r, n, 3), f2(r, n, 3)))(int(r.integers(1, 5)))  # noqa: E731
    z = {}
    for nm in (
        "Linear Relu Maxout Mish Gelu Swish HardSwish HardSwishMobilenet Dish ClippedLinear "
        "HardSigmoid HardTanh ReluK Sigmoid Softmax Softmax_v2"
    ).split():
        z[nm] = ((lambda nm=nm: getattr(T, nm)(2, 3)), m3)
    for nm in "Relu Maxout Mish Gelu Swish HardSwish HardSwishMobilenet Dish".split():
        z[nm + "+normalize"] = ((lambda nm=nm: getattr(T, nm)(4, 3, normalize=True)), m3)
    z["Softmax_v2+temperature"] = (lambda: T.Softmax_v2(3, 3, normalize_outputs=True, temperature=2.0), m3)
    z["MultiSoftmax"] = (lambda: T.MultiSoftmax((2, 3), 3), m3)
    z["LayerNorm"] = (lambda: T.LayerNorm(3), m3)
    z["Logistic"] = (lambda: T.Logistic(), m3)
    z["sigmoid_activation"] = (lambda: T.sigmoid_activation(), m3)
    z["softmax_activation"] = (lambda: T.softmax_activation(), m3)
    z["Dropout0"] = (lambda: T.chain(T.Linear(3, 3), T.Dropout(0.0)), m3)
    z["CauchySimilarity"] = (lambda: T.CauchySimilarity(3), pair)
    z["siamese"] = (lambda: T.siamese(T.Linear(3, 3), T.CauchySimilarity(3)), pair)
    z["with_getitem"] = (lambda: T.chain(T.with_getitem(0, T.Linear(3, 3)), T.CauchySimilarity(3)), pair)
    z["ParametricAttention"] = (lambda: T.ParametricAttention(3), g3)
    z["ParametricAttention_v2"] = (lambda: T.ParametricAttention_v2(nO=3), g3)
    z["ParametricAttention_v2+key"] = (
        lambda: T.ParametricAttention_v2(key_transform=T.Gelu(3, 3), nO=3), g3)
    z["LSTM"] = (lambda: T.LSTM(2, 3), p3)
    z["LSTM+bi+depth2"] = (lambda: T.LSTM(4, 3, bi=True, depth=2), p3)
    z["with_padded(LSTM) lists"] = (lambda: T.with_padded(T.LSTM(2, 3)), l3)
    z["with_padded(LSTM) ragged"] = (lambda: T.with_padded(T.LSTM(2, 3)), g3)
    z["bidirectional(LSTM)"] = (lambda: T.bidirectional(T.LSTM(2, 3)), p3)
    z["Embed"] = (lambda: T.Embed(3, 5), lambda r: ids(r))
    z["Embed column"] = (lambda: T.Embed(3, 5, column=1), lambda r: ids(r, 2))
    z["HashEmbed"] = (lambda: T.HashEmbed(3, 7, seed=5), lambda r: ids(r, None, 1000, "uint64"))
    z["HashEmbed column"] = (lambda: T.HashEmbed(3, 7, seed=5, column=1), lambda r: ids(r, 3, 1000, "uint64"))
    z["SparseLinear"] = (lambda: T.SparseLinear(2, 16), sparse)
    z["SparseLinear_v2"] = (lambda: T.SparseLinear_v2(2, 13), sparse)
    z["uniqued(Embed)"] = (lambda: T.uniqued(T.Embed(3, 5, column=0), column=0), lambda r: ids(r, 1))
    z["expand_window"] = (lambda: T.chain(T.expand_window(1), T.Maxout(2, 9, nP=2)), m3)
    z["expand_window ragged"] = (lambda: T.chain(T.expand_window(1), T.with_array(T.Mish(2, 9))), g3)
    for nm in "sum mean max first last".split():
        z["reduce_" + nm] = ((lambda nm=nm: T.chain(T.with_array(T.Mish(3, 3)), getattr(T, "reduce_" + nm)())), g3)
        z["reduce_" + nm + " padded"] = (
            (lambda nm=nm: T.chain(T.padded2list(), T.list2ragged(), getattr(T, "reduce_" + nm)(), T.Linear(2, 3))), p3)
    z["add"] = (lambda: T.add(T.Mish(3, 3), T.Linear(3, 3), T.noop()), m3)
    z["add shared"] = (lambda: (lambda a: T.add(a, T.chain(T.Gelu(3, 3), a)))(T.Linear(3, 3)), m3)
    z["concatenate"] = (lambda: T.concatenate(T.Mish(2, 3), T.noop(), T.LayerNorm(3)), m3)
    z["concatenate lists"] = (lambda: T.concatenate(T.with_array(T.Mish(2, 3)), T.noop()), l3)
    z["concatenate ragged"] = (lambda: T.concatenate(T.with_array(T.Mish(2, 3)), T.noop()), g3)
    z["residual"] = (lambda: T.residual(T.chain(T.Maxout(3, 3), T.LayerNorm(3))), m3)
    z["residual lists"] = (lambda: T.residual(T.with_array(T.Gelu(3, 3))), l3)
    z["residual ragged"] = (lambda: T.residual(T.with_array(T.Gelu(3, 3))), g3)
    z["residual padded"] = (lambda: T.residual(T.LSTM(3, 3)), p3)
    z["tuplify"] = (lambda: T.chain(T.tuplify(T.Linear(3, 3), T.noop()), T.CauchySimilarity(3)), m3)
    z["clone"] = (lambda: T.clone(T.Mish(3, 3), 3), m3)
    z["map_list"] = (lambda: T.map_list(T.Gelu(2, 3)), l3)
    z["with_array lists"] = (lambda: T.with_array(T.Maxout(2, 3)), l3)
    z["with_array lists pad"] = (lambda: T.with_array(T.Maxout(2, 3), pad=1), l3)
    z["with_array padded"] = (lambda: T.with_array(T.noop()), p3)
    z["with_array2d padded"] = (lambda: T.with_array2d(T.Mish(2, 3)), p3)
    z["with_list"] = (lambda: T.with_list(T.map_list(T.Linear(2, 3))), g3)
    z["with_ragged"] = (lambda: T.with_ragged(T.ParametricAttention(3)), l3)
    z["with_ragged padded"] = (lambda: T.with_ragged(T.with_array(T.Linear(2, 3))), p3)
    z["with_reshape"] = (lambda: T.with_reshape(T.Linear(2, 3)), lambda r: f2(r, 4, 3).reshape((2, 2, 3)))
    z["with_flatten"] = (
        lambda: T.with_flatten(T.chain(array_of_list(), T.Embed(3, 5))),
        lambda r: [list(map(int, ids(r))) for _ in range(2)])
    for nm, mk in (
        ("Relu+dropout", lambda: T.Relu(4, 3, dropout=0.5)),
        ("Maxout+dropout", lambda: T.Maxout(4, 3, dropout=0.25, normalize=True)),
        ("Mish+dropout", lambda: T.Mish(4, 3, dropout=0.5)),
        ("Gelu+dropout", lambda: T.Gelu(4, 3, dropout=0.5)),
        ("Dropout dropout", lambda: T.chain(T.Linear(4, 3), T.Dropout(0.5))),
        ("clone dropout", lambda: T.clone(T.chain(T.Mish(3, 3), T.Dropout(0.5)), 2)),
        ("residual dropout", lambda: T.residual(T.chain(T.Linear(3, 3), T.Dropout(0.5)))),
    ):
        z[nm] = (mk, m3)
    z["Dropout ragged dropout"] = (lambda: T.chain(T.with_array(T.Linear(3, 3)), T.Dropout(0.5)), g3)
    z["Dropout lists dropout"] = (lambda: T.chain(T.with_array(T.Linear(3, 3)), T.Dropout(0.5)), l3)
    z["Dropout padded dropout"] = (lambda: T.chain(T.with_array2d(T.Linear(3, 3)), T.Dropout(0.5)), p3)
    z["Embed+dropout"] = (lambda: T.Embed(3, 5, dropout=0.5), lambda r: ids(r))
    z["HashEmbed+dropout"] = (lambda: T.HashEmbed(3, 7, seed=5, dropout=0.5), lambda r: ids(r, None, 1000, "uint64"))
    z["LSTM+dropout"] = (lambda: T.LSTM(2, 3, dropout=0.5), p3)
    z["with_flatten_v2"] = (lambda: with_flatten_v2(T.map_list(T.Linear(2, 3))), lambda r: [seqs(r, 3), seqs(r, 3)])
    z["with_cpu"] = (lambda: (lambda m: T.with_cpu(m, m.ops))(T.Linear(2, 3)), m3)
    z["with_debug"] = (lambda: T.with_debug(T.Gelu(2, 3)), m3)
    z["list2array"] = (lambda: T.chain(T.list2array(), T.Linear(2, 3)), l3)
    z["list2ragged"] = (lambda: T.list2ragged(), l3)
    z["ragged2list"] = (lambda: T.ragged2list(), g3)
    z["list2padded"] = (lambda: T.list2padded(), l3)
    z["padded2list"] = (lambda: T.padded2list(), p3)
    z["array_getitem"] = (lambda: T.chain(floats_getitem((slice(None), [0, 2, 0])), T.Linear(2, 3)), m3)
    z["resizable"] = (lambda: T.resizable(T.Linear(2, 3), resize_layer=None), m3)
    z["noop"] = (lambda: T.noop(), m3)
    z["torch"] = (_torch_linear, m3)
    z["torch in chain"] = (lambda: T.chain(T.Linear(3, 3), _torch_linear(), T.Softmax(2, 2)), m3)
    z["PyTorchLSTM"] = (lambda: T.PyTorchLSTM(2, 3), l3)
    z["deep"] = (
        lambda: T.chain(
            T.with_array(T.Maxout(4, 3, nP=2, normalize=True)),
            T.residual(T.chain(T.expand_window(1), T.with_array(T.Mish(4, 12)))),
            T.ParametricAttention(4), T.reduce_sum(), T.Softmax(3, 4)), g3)
    return z


def randomize(model, rng):
    """Random parameters of moderate size, also where the initializer gives zeros."""
    for node in model.walk():
        for nm in node.param_names:
            if node.has_param(nm):
                p = node.get_param(nm)
                v = (rng.standard_normal(p.shape) * 0.6).astype(p.dtype)
                # 1 / (1 + distance) has a pole where weights are negative
                node.set_param(nm, abs(v) if node.name == "cauchy_similarity" else v)
        for shim in node.shims:
            import torch

            with torch.no_grad():
                for p in shim._model.parameters():
                    p.copy_(torch.from_numpy((rng.standard_normal(tuple(p.shape)) * 0.6).astype("float32")))
    return model


def build(name, seed):
    make, data = catalogue()[name]
    rng = np.random.default_rng(seed)
    m = make()
    X = data(np.random.default_rng(seed + 1))
    m.initialize(X=X)
    return randomize(m, rng), data


def grad_like(x, rng):
    from thinc.types import Padded, Ragged

    if isinstance(x, Ragged):
        return Ragged(grad_like(x.data, rng), x.lengths.copy())
    if isinstance(x, Padded):
        d = grad_like(x.data, rng)
        for b, n in enumerate(x.lengths):
            d[int(n):, b] = 0
        return Padded(d, x.size_at_t.copy(), x.lengths.copy(), x.indices.copy())
    if isinstance(x, (list, tuple)):
        return type(x)(grad_like(y, rng) for y in x)
    return rng.standard_normal(x.shape).astype("float32")


def copy_value(x):
    from thinc.types import Padded, Ragged

    if isinstance(x, Ragged):
        return Ragged(x.data.copy(), x.lengths.copy())
    if isinstance(x, Padded):
        return Padded(x.data.copy(), x.size_at_t.copy(), x.lengths.copy(), x.indices.copy())
    if isinstance(x, (list, tuple)):
        return type(x)(copy_value(y) for y in x)
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def flat_value(x):
    """(structure string, list of floats) of any value."""
    from thinc.types import Padded, Ragged

    if isinstance(x, Ragged):
        s, v = flat_value(x.data)
        return f"ragged{[int(n) for n in x.lengths]}{s}", v
    if isinstance(x, Padded):
        s, v = flat_value(x.data)
        meta = [[int(n) for n in a] for a in (x.size_at_t, x.lengths, x.indices)]
        return f"padded{meta}{s}", v
    if isinstance(x, (list, tuple)):
        parts = [flat_value(y) for y in x]
        return (
            type(x).__name__ + "(" + ",".join(p[0] for p in parts) + ")",
            [v for p in parts for v in p[1]],
        )
    if isinstance(x, np.ndarray):
        return f"{x.dtype.kind}{list(x.shape)}", [float(v) for v in x.ravel()]
    if isinstance(x, (int, float)):
        return type(x).__name__, [float(x)]
    return f"?{type(x).__name__}", []
