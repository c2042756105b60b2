"""What the stand-ins for torch and pandas must do: derivatives against finite differences, and pandas' documented results."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), os.path.join(HERE, "shims")]

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import torch  # noqa: E402
import torch.nn as nn  # noqa: E402
import torch.nn.functional as F  # noqa: E402

rng = np.random.RandomState(0)
w = torch.from_numpy(rng.standard_normal((3, 4)))
W3 = torch.from_numpy(rng.standard_normal((3, 2, 5)))
T = torch.from_numpy((rng.rand(4, 3) > 0.5).astype(float))
M = torch.from_numpy(rng.standard_normal((4, 3)))


def gradient(name, f, shape):
    x = rng.standard_normal(shape)
    t = torch.from_numpy(x.copy()).requires_grad_()
    f(t).backward()
    g, eps = np.zeros_like(x), 1e-5
    for i in np.ndindex(*x.shape):
        a, b = x.copy(), x.copy()
        a[i] += eps
        b[i] -= eps
        g[i] = (f(torch.from_numpy(a)).item() - f(torch.from_numpy(b)).item()) / (2 * eps)
    assert np.allclose(t.grad.numpy(), g, atol=1e-6, rtol=1e-4), (name, t.grad.numpy(), g)


def inplace(x):
    y = (x * x).t()
    y[0, :] = y[0, :] + torch.sum(y[[1, 2], :], dim=0)
    y[:, 0] = y[:, 0] + torch.sum(y[:, [1, 2]], dim=1)
    y = y[:2, :2]
    return (torch.matrix_power(torch.eye(2, dtype=torch.float64) + y / torch.tensor(2), 3) * y).sum()


def view_in_place(x):
    b = x * 2
    v = b[1:]
    v[0] = v[0] * b[0]
    b[0] = 7.0
    return (b * v.sum()).sum() + v.exp().sum()


def into(x):
    o = torch.matmul(x.unsqueeze(dim=2), W3.unsqueeze(dim=0)).squeeze(dim=2)
    o += x.sum()
    return (o ** 2).sum()


def levels(x):
    c = torch.sigmoid(torch.unsqueeze(torch.as_tensor(np.array([-1.0, 0, 1])), dim=0) - x[:, [1]])
    p = torch.zeros((c.shape[0], 4), dtype=torch.float64)
    p[:, 0] = c[:, 0]
    p[:, -1] = 1 - c[:, -1]
    p[:, 1:-1] = c[:, 1:] - c[:, 0:-1]
    return torch.mean(-torch.log(p.gather(dim=1, index=torch.tensor([[0], [1], [2], [3]])).squeeze().abs()))


def levels_diff(x):
    c = F.pad(torch.sigmoid(torch.tensor([-1.0, 0, 1]).double() - x[:, [1]]), (0, 1), value=1.0)
    p = torch.diff(c, dim=1, prepend=torch.zeros((c.shape[0], 1)).double())
    return -p[torch.arange(4), torch.tensor([0, 1, 2, 3])].clamp_min(1e-9).log().mean()


def weighted(y, like=None):
    """A scalar that gives every element another weight."""
    return (y * torch.arange(1.0, y.numel() + 1).double().reshape(y.shape)).sum()


INDEX = torch.tensor([[0, 2, 1], [1, 1, 0]])
GRADIENTS = [
    ("inplace", inplace, (3, 3)), ("view", view_in_place, (3, 2)), ("into", into, (4, 3, 2)), ("levels", levels, (4, 3)), ("levels_diff", levels_diff, (4, 3)),
    ("matmul", lambda x: (x @ w).pow(2).sum(), (2, 3)), ("mv", lambda x: (w.t() @ x).pow(2).sum(), (3,)),
    ("layer_norm", lambda x: (F.layer_norm(x, (3,), None, None, 1e-2) ** 3).sum(), (4, 3)),
    ("ce", lambda x: F.cross_entropy(x[:, [0, 2]], torch.argmax(T[:, [0, 2]], dim=1)), (4, 3)), ("bce", lambda x: F.binary_cross_entropy_with_logits(x[:, 1], T[:, 1]), (4, 3)),
    ("poisson", lambda x: F.poisson_nll_loss(x[:, 1], T[:, 1]), (4, 3)), ("softmax", lambda x: (torch.softmax(x, dim=1) ** 2).sum(), (4, 3)),
    ("cat", lambda x: (torch.cat([x, x * 2], dim=0) ** 3).sum(), (2, 3)), ("mean", lambda x: (x.mean(axis=0) ** 2).sum() + torch.mean(torch.abs(x)), (3, 2)),
    ("einsum", lambda x: (torch.einsum("ij,jk->ik", x, w) ** 2).sum(), (2, 3)), ("logsumexp", lambda x: (torch.logsumexp(x, 1) ** 2).sum(), (4, 3)),
    ("index", lambda x: (x[[0, 0, 1], [1, 1, 0]] ** 2).sum(), (2, 2)), ("max", lambda x: x.max(dim=1)[0].pow(2).sum(), (3, 3)),
    ("where", lambda x: torch.where(x > 0, x * x, -x).sum(), (3, 3)), ("iadd", lambda x: (lambda y: (y.__iadd__(x), y.__imul__(x))[1])(x * 1).sum(), (3,)),
    ("stack", lambda x: (torch.stack([x[0], x[1]], 1) ** 2).sum(), (2, 3)), ("std", lambda x: x.std(dim=0).sum(), (3, 2)), ("norm", lambda x: x.norm(dim=1).sum(), (3, 2)),
    ("permute", lambda x: weighted(x.permute(1, 0).reshape(-1)), (2, 3)), ("rsub", lambda x: (1 - x).pow(2).sum() / x.sum(), (3,)),
    ("tril", lambda x: weighted(torch.tril(x * x, -1)), (3, 3)), ("triu", lambda x: weighted(torch.triu(x * x, 1)), (3, 4)), ("outer", lambda x: weighted(torch.outer(x[0], x[1])), (2, 3)),
    ("diff", lambda x: weighted(torch.diff(x * x, dim=0)), (3, 2)), ("amax", lambda x: weighted(torch.amax(x * 2, dim=1)), (3, 4)), ("amin", lambda x: weighted(x.amin(dim=(0, 1))), (3, 4)),
    ("clamp_min", lambda x: (torch.clamp_min(x, 0.1) ** 2).sum(), (3, 4)), ("cumprod", lambda x: weighted(torch.cumprod(x, 1)), (2, 3)), ("cumsum", lambda x: weighted(torch.cumsum(x, 0)), (2, 3)),
    ("sort", lambda x: weighted(torch.sort(x, 1)[0]), (3, 4)), ("topk", lambda x: weighted(x.topk(2, 1).values), (3, 4)), ("flip", lambda x: weighted(torch.flip(x, [0])), (3, 2)),
    ("roll", lambda x: weighted(torch.roll(x, 1, 0)), (3, 2)), ("split", lambda x: weighted(torch.split(x, [1, 2])[1] ** 2), (3, 2)), ("chunk", lambda x: weighted(x.chunk(2, 1)[0] ** 2), (3, 4)),
    ("hstack", lambda x: weighted(torch.hstack([x, x * x])), (3, 2)), ("vstack", lambda x: weighted(torch.vstack([x, x * x])), (3, 2)),
    ("tensordot", lambda x: weighted(torch.tensordot(x, W3, dims=([1], [0]))), (2, 3)), ("tensordot2", lambda x: weighted(torch.tensordot(x, W3, 2)), (2, 3, 2)),
    ("kron", lambda x: weighted(torch.kron(x, w)), (2, 2)), ("masked_select", lambda x: weighted(x.masked_select(T.bool())), (4, 3)),
    ("repeat_interleave", lambda x: weighted(x.repeat_interleave(2, 0)), (2, 2)), ("scatter", lambda x: weighted(torch.scatter(x, 1, torch.tensor([[0, 2], [1, 0]]), x[:, :2] * 3)), (2, 3)),
    ("scatter_add", lambda x: weighted(x.scatter_add(1, INDEX, x * x)), (2, 3)), ("index_add", lambda x: weighted(x.index_add(0, torch.tensor([0, 0]), x[:2] * x[1:])), (3, 2)),
    ("index_copy", lambda x: weighted(x.index_copy(0, torch.tensor([2]), x[:1] * x[1:2])), (3, 2)), ("matrix_exp", lambda x: torch.matrix_exp(x).diagonal().pow(2).sum(), (3, 3)),
    ("inverse", lambda x: weighted(torch.inverse(x)), (3, 3)), ("slogdet", lambda x: torch.slogdet(x)[1], (3, 3)), ("det", lambda x: torch.det(x), (3, 3)),
    ("erf", lambda x: weighted(torch.erf(x)), (3,)), ("lerp", lambda x: weighted(torch.lerp(x, x * x, 0.3)), (3,)), ("median", lambda x: weighted(x.median(dim=1)[0]), (3, 4)),
    ("logit", lambda x: weighted(torch.logit(torch.sigmoid(x) * 0.9)), (3,)), ("movedim", lambda x: weighted(torch.movedim(x, 0, 2) ** 2), (2, 3, 2)),
    ("block_diag", lambda x: weighted(torch.block_diag(x, x * x)), (2, 2)), ("diag_embed", lambda x: weighted(torch.diag_embed(x)), (2, 3)),
    ("kl", lambda x: F.kl_div(F.log_softmax(x, 1), torch.softmax(M, 1)), (4, 3)), ("smooth", lambda x: F.smooth_l1_loss(x, M), (4, 3)), ("normalize", lambda x: weighted(F.normalize(x)), (4, 3)),
    ("elu", lambda x: weighted(F.elu(x)), (4, 3)), ("leaky", lambda x: weighted(F.leaky_relu(x)), (4, 3)), ("expand", lambda x: weighted(torch.broadcast_to(x, (3, 2, 2))), (2, 2)),
    ("var_mean", lambda x: weighted(torch.var_mean(x, 0)[0]), (3, 2)), ("unfold", lambda x: weighted(x.unfold(0, 2, 1)), (4, 2)), ("xlogy", lambda x: weighted(torch.special.xlogy(T, x * x + 1)), (4, 3)),
    ("logaddexp", lambda x: weighted(torch.logaddexp(x, M)), (4, 3)), ("nansum", lambda x: (x * x).nansum(), (4, 3)), ("linalg", lambda x: torch.linalg.norm(x), (4, 3)),
    ("chunked in place", lambda x: (lambda y: (y.split(1)[1].mul_(2), y)[1])(x * x).sum(), (3, 2)),
]


def torch_part():
    for name, f, shape in GRADIENTS:
        gradient(name, f, shape)
    layer = nn.Linear(3, 2)
    assert [tuple(p.shape) for p in layer.parameters()] == [(2, 3), (2,)] and layer(torch.ones(4, 3)).dtype == torch.float32
    x = torch.ones(3).requires_grad_()
    try:
        x[0] = 2
        raise AssertionError("in-place change of a leaf")
    except RuntimeError:
        pass
    assert (torch.ones(2) * torch.tensor(2.0, dtype=torch.float64)).dtype == torch.float32
    assert (torch.ones(2) * torch.ones(2, dtype=torch.float64)).dtype == torch.float64
    assert (torch.ones(2) / torch.tensor(3)).dtype == torch.float32 and (torch.tensor(3) * 2.5).dtype == torch.float32
    assert (np.float64(3) * torch.ones(2)).tolist() == [3, 3]
    vec = nn.utils.parameters_to_vector(layer.parameters())
    assert vec.shape == (8,) and vec.requires_grad
    nn.utils.vector_to_parameters(vec.detach() * 2, layer.parameters())
    assert torch.allclose(nn.utils.parameters_to_vector(layer.parameters()), vec * 2)
    assert torch.unique(torch.tensor([3, 1, 3]), return_counts=True)[1].tolist() == [1, 2]
    assert torch.argsort(torch.tensor([3.0, 1, 2]), descending=True).tolist() == [0, 2, 1]
    assert torch.amax(torch.tensor([[1.0, 5], [3, 4]]), 1, True).tolist() == [[5], [4]]
    a = torch.zeros(2, 3)
    a.scatter_(1, torch.tensor([[2], [0]]), 1)
    assert a.tolist() == [[0, 0, 1], [1, 0, 0]]
    assert torch.tensor([0.0, np.nan]).isnan().tolist() == [False, True] and torch.logical_not(torch.tensor([True, False])).tolist() == [False, True]
    assert [t.tolist() for t in torch.meshgrid(torch.tensor([1, 2]), torch.tensor([3]))] == [[[1], [2]], [[3], [3]]]


def pandas_part():
    df=pd.DataFrame({"a":["x","y","x","z"],"b":[1,2,3,4],"c":[1.,np.nan,3.,4.]})
    g=df.groupby("a")
    assert [k for k,_ in g]==["x","y","z"]
    assert g.size().to_dict()=={"x":2,"y":1,"z":1}
    assert g.sum().to_dict()=={"b":{"x":4,"y":2,"z":4},"c":{"x":4.,"y":0,"z":4.}}, g.sum()
    assert g["b"].mean().tolist()==[2,2,4]
    assert g["b"].transform("sum").tolist()==[4,2,4,4]
    assert df.groupby(["a","b"]).size().index.tolist()==[("x",1),("x",3),("y",2),("z",4)]
    assert df.groupby(["a","b"]).size().unstack(fill_value=0).loc["x"].tolist()==[1,0,1,0]
    assert g.agg({"b":"max"})["b"].tolist()==[3,2,4]
    assert df.groupby("a").apply(lambda d: len(d)).tolist()==[2,1,1]
    assert df["b"].groupby(df["a"]).sum().to_dict()=={"x":4,"y":2,"z":4}
    assert df["b"].shift(1).isna().tolist()==[True,False,False,False] and df["b"].shift(1, fill_value=0).tolist()==[0,1,2,3]
    assert df["b"].diff().tolist()[1:]==[1,1,1]
    assert df["b"].cumsum().tolist()==[1,3,6,10]
    assert df["b"].where(df["b"]>2, 0).tolist()==[0,0,3,4]
    assert df["b"].where(df["b"]>2).isna().tolist()==[True,True,False,False]
    assert df["b"].mask(df["b"]>2, 0).tolist()==[1,2,0,0]
    assert df["b"].clip(2,3).tolist()==[2,2,3,3]
    assert df[["b","c"]].fillna({"c":9})["c"].tolist()==[1,9,3,4]
    assert df[["b","c"]].fillna(0).values.tolist()==[[1,1],[2,0],[3,3],[4,4]]
    assert df["a"].str.startswith("x").tolist()==[True,False,True,False]
    assert df["a"].str.upper().tolist()==["X","Y","X","Z"]
    assert df.columns.str.contains("a|b").tolist()==[True,True,False]
    assert pd.crosstab(df["a"],df["b"]).loc["x"].tolist()==[1,0,1,0]
    assert df.columns.union(["d"]).tolist()==["a","b","c","d"] and df.columns.intersection(["c","a"]).tolist()==["a","c"]
    assert df.columns.drop("a").tolist()==["b","c"]
    assert df[["b","c"]].sub(df["b"],axis=0)["c"].tolist()[0]==0
    assert df[["b"]].eq(2)["b"].tolist()==[False,True,False,False]
    assert df[["b","c"]].div(df[["b","c"]].sum()).sum().round(6).tolist()==[1,1]
    assert df[["b","c"]].div(df[["b","c"]].sum(axis=1),axis=0).sum(axis=1).round(6).tolist()==[1,1,1,1]
    m=df.merge(pd.DataFrame({"a":["x","z"],"k":[7,8]}),on="a",how="left")
    assert m["k"].fillna(-1).tolist()==[7,-1,7,8], m
    assert df.merge(pd.DataFrame({"a":["x","z"],"k":[7,8]})).shape==(3,4)
    assert df.sort_values(["a","b"],ascending=[True,False])["b"].tolist()==[3,1,2,4]
    assert df.drop_duplicates("a").shape==(3,3) and df.duplicated("a").tolist()==[False,False,True,False]
    assert df["a"].value_counts().to_dict()=={"x":2,"y":1,"z":1}
    assert df[["a"]].value_counts().index.tolist()[0]==("x",)
    s=pd.Series([1,2,3],index=list("abc"))
    assert s.drop("a").tolist()==[2,3] and s.reindex(list("cd"),fill_value=0).tolist()==[3,0]
    assert s.rename("n").name=="n" and s.rename({"a":"z"}).index.tolist()==["z","b","c"]
    assert s.append(pd.Series([4],index=["d"])).tolist()==[1,2,3,4]
    assert s.reset_index().columns.tolist()==["index",0]
    assert df.melt(id_vars="a",value_vars=["b"]).columns.tolist()==["a","variable","value"]
    p=df.pivot(index="b",columns="a",values="c"); assert p.shape==(4,3)
    assert df[["b","c"]].stack().index.tolist()[:2]==[(0,"b"),(0,"c")]
    assert df[["b","b"]].corr().shape==(2,2)
    assert pd.concat([s,s],axis=1,keys=["u","v"]).columns.tolist()==["u","v"]
    assert pd.factorize(["b","a","b"])[0].tolist()==[0,1,0]
    assert pd.get_dummies(df[["a","b"]]).columns.tolist()==["b","a_x","a_y","a_z"]
    assert df.agg({"b":"sum"}).tolist()==[10]
    assert df.set_index("a").loc["y","b"]==2
    assert df.set_index(["a","b"]).reset_index().columns.tolist()==["a","b","c"]
    assert (s|s).tolist()==[1,2,3]
    assert pd.api.types.is_numeric_dtype(df["b"]) and not pd.api.types.is_numeric_dtype(df["a"])
    assert df.dropna(subset=["c"]).shape==(3,3) and df.dropna(axis=1).shape==(4,2)
    assert df.filter(like="b").columns.tolist()==["b"]
    assert df.isin(["x",1])["b"].tolist()==[True,False,False,False]
    assert df.replace({"a":{"x":"q"}})["a"].tolist()==["q","y","q","z"]
    assert df.append({"a":"w","b":5,"c":1.},ignore_index=True).shape==(5,3)


def sklearn_part():
    from sklearn.preprocessing import LabelBinarizer, OneHotEncoder, OrdinalEncoder, StandardScaler, scale

    X = np.array([[3.0, 1], [1, 2], [3, 2]])
    assert OneHotEncoder(sparse=False).fit_transform(X).tolist()==[[0,1,1,0],[1,0,0,1],[0,1,0,1]]
    assert OneHotEncoder().fit_transform(X).toarray().tolist()==[[0,1,1,0],[1,0,0,1],[0,1,0,1]]
    e=OneHotEncoder(sparse=False,handle_unknown="ignore").fit(X)
    assert e.transform([[5,2]]).tolist()==[[0,0,0,1]]
    assert OneHotEncoder(categories=[[3,1],[1,2]],sparse=False).fit_transform(X).tolist()==[[1,0,1,0],[0,1,0,1],[1,0,0,1]]
    assert OrdinalEncoder().fit(X).transform(X).tolist()==[[1,0],[0,1],[1,1]]
    assert np.allclose(StandardScaler().fit_transform(X),scale(X))
    assert LabelBinarizer().fit_transform(["a","b","c"]).tolist()==np.eye(3).tolist()


if __name__ == "__main__":
    torch_part()
    pandas_part()
    sklearn_part()
    print("stand-ins ok")
