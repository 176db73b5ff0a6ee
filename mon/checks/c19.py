"""C19: QuanConv2D against a direct double-precision simulation of every window, and its weight gradients."""
import math
import numpy as np
import torch
from .. import gen, ref
from ..adapter import npy
from deepquantum.nn.modules.quanv import QuanConv2D

PROP = "C19"
REPEAT = 2                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (batch, channels, image height, width, kernel, stride, gain, scaling switch, lrmul, pixel family); judged: output "
        "shape, every output entry, weight gradient of a random linear functional, repetition, parameters and input unchanged")
REQUIRED = ["drove kernel 2", "drove kernel 3", "drove stride 1", "drove stride > kernel", "drove non-square", "drove batch",
            "drove channels", "drove gradient", "drove stride not tiling", "drove training history",
            "drove image gradient", "drove reloaded weights", "drove whole network", "drove image gradient of repeated windows", "drove other image layout", "drove evaluation without gradients"]
TOL = 8e-6


def cases(rng, tier):
    deep = tier == "thorough"
    out = []

    def mk(**k):
        d = {"B": 1, "ch": 1, "h": 2, "w": 2, "k": 2, "stride": 1, "gain": 2 ** 0.5, "ws": True, "lr": 1.0, "fam": "unit", "grad": False,
             "seed": int(rng.integers(1 << 30))}
        d.update(k)
        out.append(d)

    for h in range(2, 7):
        for w in range(2, 7):
            for s in range(1, 6 if deep else 5):
                n = ((h - 2) // s + 1) * ((w - 2) // s + 1)
                if n <= 16 or deep:
                    mk(h=h, w=w, stride=s, grad=bool(rng.random() < 0.35), B=1 if n > 4 else int(rng.integers(1, 3)))
    for fam in ("unit", "zero", "binary", "negative", "big", "onehot"):
        for B in (1, 2, 3):
            for ch in (1, 2, 3):
                mk(B=B, ch=ch, h=3, w=4, stride=int(rng.integers(1, 4)), fam=fam, grad=B == 2)
    for fam in ("constant", "tiled", "padded", "zero", "binary"):
        for s in (1, 2, 2, 3):
            for _ in range(3 if deep else 1):
                mk(B=int(rng.integers(1, 3)), ch=int(rng.integers(1, 3)), h=int(rng.integers(3, 6)), w=int(rng.integers(3, 5)), stride=s, fam=fam, grad=True, igrad=True)
    for B, ch, h, w in ((6, 1, 2, 3), (9, 2, 2, 2), (5, 4, 3, 3), (1, 7, 3, 2), (17, 1, 2, 2)):       # larger batches, more channels
        mk(B=B, ch=ch, h=h, w=w, fam=["unit", "negative", "binary"][int(rng.integers(3))], grad=B < 10)
    for gain in (2 ** 0.5, 1.0, 0.3):
        for ws in (True, False):
            for lr in (1.0, 0.5, 2.0, 0.01):
                mk(h=3, w=3, gain=gain, ws=ws, lr=lr, grad=True)
    for _ in range(700 if deep else 60):
        mk(B=int(rng.integers(1, 4)), ch=int(rng.integers(1, 4)), h=int(rng.integers(2, 6)), w=int(rng.integers(2, 6)),
           stride=int(rng.integers(1, 6)), fam=["unit", "binary", "negative", "big", "onehot"][int(rng.integers(5))], grad=bool(rng.random() < 0.5),
           gain=float(rng.uniform(0.2, 2)), ws=bool(rng.random() < 0.5), lr=float(rng.uniform(0.2, 2)))
    for (h, w, s, B, g) in [(3, 3, 1, 1, True), (3, 4, 1, 1, False), (5, 3, 2, 1, False), (4, 3, 2, 1, False), (3, 3, 3, 2, False)] + \
            ([(4, 4, 1, 1, False), (6, 5, 2, 1, True), (7, 3, 4, 1, False), (3, 5, 1, 2, False)] if deep else []):
        mk(k=3, h=h, w=w, stride=s, B=B, grad=g, ch=int(rng.integers(1, 3)))
    for k in (2, 2, 2, 3):                          # several windows along one direction, whatever the stride
        for s in range(1, 7):
            for m in (2, 3, 4) if k == 2 else (2,):
                long, short = k + s * m + int(rng.integers(s)), k + int(rng.integers(0, 2))
                hw = (long, short) if rng.random() < 0.5 else (short, long)
                mk(k=k, h=hw[0], w=hw[1], stride=s, B=int(rng.integers(1, 3)) if k == 2 else 1)
    for how in ("SGD", "Adam", "inplace", "reload", "data", "tiny", "swap"):
        for _ in range(12 if deep else 3):
            mk(t="train", how=how, B=int(rng.integers(1, 3)), ch=int(rng.integers(1, 3)), h=int(rng.integers(2, 5)), w=int(rng.integers(2, 5)),
               stride=int(rng.integers(1, 4)), ws=bool(rng.random() < 0.5), lr=float(rng.uniform(0.3, 1.5)))
    for lay in ("transposed", "sliced", "flipped", "expanded"):
        for _ in range(4 if deep else 2):
            mk(lay=lay, B=2, ch=2, h=3, w=4, stride=int(rng.integers(1, 3)), grad=True)
    mk(t="net")
    return out


def trained(case, rec):
    """Histories: the weights change between evaluations, by an optimizer, in place, or by loading another state."""
    k, s, B, ch, h, w, how = (case[x] for x in ("k", "stride", "B", "ch", "h", "w", "how"))
    r = np.random.default_rng(case["seed"])
    layer = QuanConv2D(k * k, s, k, gain=case["gain"], use_wscale=case["ws"], lrmul=case["lr"])
    other = QuanConv2D(k * k, s, k)
    ow = npy(other.weight).real.copy()
    mul = case["gain"] * 5 ** -0.5 * case["lr"] if case["ws"] else case["lr"]
    opt = torch.optim.SGD(layer.parameters(), lr=0.2) if how == "SGD" else torch.optim.Adam(layer.parameters(), lr=0.2)
    X = torch.zeros(B, ch, h, w)
    for step in range(5):
        img = r.random((B, ch, h, w)).astype(np.float32)
        if step not in (2, 4):                                     # (once the image stays while the weights change)
            X = X.detach()
            X.copy_(torch.from_numpy(img))
        img = X.detach().numpy().astype(float)
        X.requires_grad_(step % 2 == 1)
        X.grad = None
        wt = npy(layer.weight).real
        tag = "step %d by %s: batch %d channels %d image %dx%d stride %d" % (step, how, B, ch, h, w, s)
        want = forward(img, wt * mul, k, s)
        rec.ev("drove training history")
        if (case["seed"] + step) % 2:
            rec.ev("drove evaluation without gradients")
            with torch.no_grad():
                rec.close("QuanConv2D evaluated without gradients: " + tag, layer(X), want.astype(complex), TOL)
        y = layer(X)
        if not rec.close("QuanConv2D in a training history: " + tag, y, want.astype(complex), TOL):
            return
        c = r.normal(size=want.shape)
        opt.zero_grad()
        (y * torch.from_numpy(c.astype(np.float32))).sum().backward()
        g = np.zeros(3 * k * k)
        for a in range(3 * k * k):
            f = []
            for m in (-2, -1, 1, 2):
                t = wt.copy()
                t[a] += m * 1e-3
                f.append(float(np.sum(c * forward(img, t * mul, k, s))))
            g[a] = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * 1e-3)
        if not rec.ok(layer.weight.grad is not None, "QuanConv2D gradient: weight received none: " + tag):
            return
        rec.close("QuanConv2D gradient in a training history: " + tag, layer.weight.grad, g.astype(complex), 3e-5 * max(1.0, np.abs(c).sum() * mul))
        if X.requires_grad and B * h * w <= 16:
            rec.ev("drove image gradient")
            gi = image_gradient(img, lambda t: float(np.sum(c * forward(t, wt * mul, k, s))))
            if rec.ok(X.grad is not None, "QuanConv2D gradient: image received none: " + tag):
                rec.close("QuanConv2D image gradient: " + tag, X.grad, gi.astype(complex), 3e-5 * max(1.0, np.abs(c).sum()))
        if how in ("SGD", "Adam"):
            opt.step()
        elif how == "data":                               # (does not count as an in-place change for autograd)
            layer.weight.data[:] = torch.from_numpy(r.uniform(-6, 6, 3 * k * k).astype(np.float32))
        elif how == "tiny":
            layer.weight.data[int(r.integers(3 * k * k))] += float(10 ** r.uniform(-2.5, -1.5))
        elif how == "swap":
            layer.weight = torch.nn.Parameter(torch.from_numpy(r.uniform(-6, 6, 3 * k * k).astype(np.float32)))
        elif how == "inplace":
            with torch.no_grad():
                layer.weight.add_(torch.from_numpy(r.normal(size=3 * k * k).astype(np.float32)))
        else:
            rec.ev("drove reloaded weights")
            layer.load_state_dict({"weight": torch.from_numpy(r.uniform(-6, 6, 3 * k * k).astype(np.float32))})
    rec.close("QuanConv2D weights of another layer: " + how, other.weight, ow.astype(complex), 0.0)
    sd = layer.state_dict()
    rec.ok(list(sd) == ["weight"] and tuple(sd["weight"].shape) == (3 * k * k,), "QuanConv2D state: %s" % {a: tuple(b.shape) for a, b in sd.items()})
    rec.seen("train", how, B, ch, h, w, s)


def image_gradient(img, f):
    """(only the first channel is read)"""
    out = np.zeros(img.shape)
    for i in np.ndindex(img.shape[0], 1, *img.shape[2:]):
        y = []
        for m in (-2, -1, 1, 2):
            t = img.copy()
            t[i] += m * 1e-3
            y.append(f(t))
        out[i] = (y[0] - 8 * y[1] + 8 * y[2] - y[3]) / (12 * 1e-3)
    return out


def network(case, rec):
    """The example network that is built around the layer, against its documented composition."""
    from deepquantum.nn.modules import quanv
    net = quanv.Net()
    x = torch.from_numpy(np.random.default_rng(case["seed"]).random((1, 1, 28, 28)).astype(np.float32))
    with torch.no_grad():
        y = npy(net(x)).real
    rec.ev("drove whole network")
    mul = 2 ** 0.5 * 5 ** -0.5
    z = forward(x.numpy().astype(float), npy(net.quanv.weight).real * mul, 2, 2).reshape(1, -1)
    z = np.maximum(z @ npy(net.fc1.weight).real.T + npy(net.fc1.bias).real, 0)
    z = z @ npy(net.fc2.weight).real.T + npy(net.fc2.bias).real
    rec.close("Net on a 28x28 image", y.astype(complex), z.astype(complex), 2e-5)
    rec.seen("net")


def window(pix, wts, n):
    """Z expectations after ry(pi x), rx rz rx per qubit, ring of cnots."""
    T = np.ones(1, dtype=complex)
    for q in range(n):
        m = ref.rx(wts[3 * q + 2]) @ ref.rz(wts[3 * q + 1]) @ ref.rx(wts[3 * q]) @ ref.ry(math.pi * pix[q])
        T = np.kron(T, m[:, 0])
    T = T.reshape((2,) * n)
    cn = ref.TWO_FIXED["cnot"]
    for q in range(n):
        T = ref.apply_step(cn, [q, (q + 1) % n], T, n)
    P = np.abs(T) ** 2
    out = []
    for q in range(n):
        m = P.sum(axis=tuple(a for a in range(n) if a != q))
        out.append(m[0] - m[1])
    return np.array(out)


def forward(img, wts, k, s):
    B, _, h, w = img.shape
    oh, ow = (h - k) // s + 1, (w - k) // s + 1
    out = np.zeros((B, k * k, oh, ow))
    memo = {}
    for b in range(B):
        for i in range(oh):
            for j in range(ow):
                p = img[b, 0, i * s:i * s + k, j * s:j * s + k].reshape(-1)
                key = p.tobytes()
                if key not in memo:
                    memo[key] = window(p, wts, k * k)
                out[b, :, i, j] = memo[key]
    return out


def run(case, rec):
    if case.get("t"):
        return trained(case, rec) if case["t"] == "train" else network(case, rec)
    k, s, B, ch, h, w = (case[x] for x in ("k", "stride", "B", "ch", "h", "w"))
    r = np.random.default_rng(case["seed"])
    fam = case["fam"]
    img = r.random((B, ch, h, w))
    if fam == "constant":                          # every window alike
        img[:] = img.reshape(-1)[0]
    elif fam == "tiled":                           # windows that repeat within an image, across channels and across the batch
        t = r.random((k, max(k, s)))
        img[:] = np.tile(t, (h, w))[:h, :w]
    elif fam == "padded":
        img[:, :, 1:, :-1] = 0
    elif fam == "zero":
        img[:] = 0
    elif fam == "binary":
        img = r.integers(0, 2, img.shape).astype(float)
    elif fam == "negative":
        img = -2 * img
    elif fam == "big":
        img = img * 8 - 4
    elif fam == "onehot":
        img[:] = 0
        img.reshape(-1)[int(r.integers(img.size))] = 0.5
    img = img.astype(np.float32)
    layer = QuanConv2D(k * k, s, k, gain=case["gain"], use_wscale=case["ws"], lrmul=case["lr"])
    wt = r.uniform(-2 * math.pi, 2 * math.pi, 3 * k * k).astype(np.float32)
    rec.ok(tuple(layer.weight.shape) == (3 * k * k,) and layer.weight.requires_grad, "QuanConv2D: weight parameter has shape %s" % (tuple(layer.weight.shape),))
    if case["seed"] % 3:
        with torch.no_grad():
            layer.weight.copy_(torch.from_numpy(wt))
    wt = npy(layer.weight).real
    he = case["gain"] * 5 ** -0.5
    mul = he * case["lr"] if case["ws"] else case["lr"]
    X = torch.from_numpy(img.copy())
    if case.get("lay"):
        rec.ev("drove other image layout")
        if case["lay"] == "transposed":
            X = X.transpose(2, 3).contiguous().transpose(2, 3)
        elif case["lay"] == "sliced":
            big = torch.full((2 * B, ch + 1, 2 * h, w + 3), 5.0)
            big[::2, 1:, ::2, 2:2 + w] = X
            X = big[::2, 1:, ::2, 2:2 + w]
        elif case["lay"] == "flipped":
            X = X.permute(3, 1, 0, 2).contiguous().permute(2, 1, 3, 0)
        else:
            X = X[:1].expand(B, ch, h, w)
            img = np.broadcast_to(img[:1], img.shape).copy()
    tag = "batch %d channels %d image %dx%d kernel %d stride %d %s" % (B, ch, h, w, k, s, fam)
    rec.ev("drove kernel %d" % k)
    if s == 1:
        rec.ev("drove stride 1")
    if s > k:
        rec.ev("drove stride > kernel")
    if h != w:
        rec.ev("drove non-square")
    if B > 1:
        rec.ev("drove batch")
    if ch > 1:
        rec.ev("drove channels")
    if (h - k) % s or (w - k) % s:
        rec.ev("drove stride not tiling")
    want = forward(img.astype(float), wt * mul, k, s)
    rec.ev("drove windows", want.shape[0] * want.shape[2] * want.shape[3])
    if case.get("igrad"):
        X.requires_grad_(True)
    y = layer(X)
    rec.close("QuanConv2D: " + tag, y, want.astype(complex), TOL)
    if k == 2 and case["seed"] % 4 == 0:
        rec.close("QuanConv2D second call: " + tag, layer(X), want.astype(complex), TOL)
        if B > 1:
            rec.close("QuanConv2D one sample alone: " + tag, layer(X[B - 1:]), want[B - 1:].astype(complex), TOL)
    if case["grad"] and tuple(y.shape) == want.shape:
        c = r.normal(size=want.shape)
        rec.ev("drove gradient")
        layer.weight.grad = None
        (y * torch.from_numpy(c.astype(np.float32))).sum().backward()
        g = np.zeros(3 * k * k)
        e = 1e-3
        for a in range(3 * k * k):
            f = []
            for m in (-2, -1, 1, 2):
                t = wt.copy()
                t[a] += m * e
                f.append(float(np.sum(c * forward(img.astype(float), t * mul, k, s))))
            g[a] = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * e)
        if rec.ok(layer.weight.grad is not None, "QuanConv2D gradient: weight received none: " + tag):
            rec.close("QuanConv2D gradient: " + tag, layer.weight.grad, g.astype(complex), 3e-5 * max(1.0, np.abs(c).sum() * mul))
        if case.get("igrad"):
            rec.ev("drove image gradient of repeated windows")
            gi = image_gradient(img.astype(float), lambda t: float(np.sum(c * forward(t, wt * mul, k, s))))
            if rec.ok(X.grad is not None, "QuanConv2D gradient: image received none: " + tag):
                rec.close("QuanConv2D image gradient: " + tag, X.grad, gi.astype(complex), 3e-5 * max(1.0, np.abs(c).sum()))
    X = X.detach()
    rec.ok(np.array_equal(X.numpy(), img), "QuanConv2D changed the image: " + tag)
    rec.close("QuanConv2D weights afterwards: " + tag, layer.weight, wt.astype(complex), 0.0)
    rec.seen(B, ch, h, w, k, s, case["gain"], case["ws"], case["lr"], fam, case["grad"])
