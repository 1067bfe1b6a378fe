"""Generates whole PyTorch training scripts: a model, data, loss, optimizer, loop."""

ACT_M = ["nn.ReLU()", "nn.GELU()", "nn.Tanh()", "nn.Sigmoid()", "nn.ELU(alpha=0.7)", "nn.LeakyReLU(0.2)", "nn.Softplus()", "nn.SiLU()", "nn.Hardtanh(-0.5, 0.5)", "nn.SELU()", "nn.Softsign()", "nn.CELU(1.2)", "nn.Mish()", "nn.Identity()", "nn.Dropout(p=0.0)", "nn.ReLU6()", "nn.Hardswish()", "nn.LogSigmoid()", "nn.Tanhshrink()", "nn.Softshrink(0.1)", "nn.PReLU()"]
ACT_F = ["F.relu({x})", "torch.tanh({x})", "torch.sigmoid({x})", "F.gelu({x})", "F.elu({x}, alpha=0.8)", "F.leaky_relu({x}, 0.1)", "F.softplus({x})", "{x}.tanh()", "{x}.sigmoid()", "F.silu({x})", "{x}.clamp(-0.6, 0.6)", "torch.clamp({x}, min=-0.5)", "{x}.abs().sqrt().add(0.01)" if False else "torch.sin({x})", "torch.exp(-{x}.pow(2))", "F.normalize({x}, dim=-1)", "F.softmax({x}, dim=-1)", "{x}.softmax(dim=-1)", "F.dropout({x}, p=0.0)", "torch.where({x} > 0, {x}, 0.1 * {x})", "{x} * torch.sigmoid({x})", "torch.special.expit({x})", "{x}.cos()", "torch.atan({x})", "F.hardtanh({x})", "torch.log1p({x}.abs())"]
MIX = [
    "{x} + {y}", "{x} - 0.5 * {y}", "{x} * {y}", "torch.add({x}, {y}, alpha=2)", "torch.maximum({x}, {y})", "torch.lerp({x}, {y}, 0.3)", "({x} + {y}) / 2", "torch.stack([{x}, {y}], dim=0).mean(dim=0)",
    "torch.cat([{x}, {y}], dim=-1).chunk(2, dim=-1)[0] + {y}", "torch.stack(({x}, {y}), dim=1).sum(dim=1)", "torch.addcmul({x}, {y}, {y}, value=0.5)", "torch.sub({x}, {y}, alpha=0.5)", "{x}.add({y}, alpha=0.5)", "torch.mul({x}, {y})", "torch.stack([{x}, {y}]).max(dim=0)[0]",
]
RED = ["{x}.mean(dim=0, keepdim=True)", "{x}.sum(1, keepdim=True)", "torch.mean({x}, dim=1, keepdim=True)", "torch.norm({x}, dim=1, keepdim=True)", "{x}.max(dim=1, keepdim=True)[0]", "torch.max({x}, dim=1, keepdim=True).values", "torch.var({x}, dim=1, keepdim=True)", "torch.logsumexp({x}, dim=1, keepdim=True)", "torch.amax({x}, dim=1, keepdim=True)", "torch.cumsum({x}, dim=1)", "{x}.roll(1, dims=1)", "torch.sort({x}, dim=1)[0]", "torch.topk({x}, {k}, dim=1)[0].mean(1, keepdim=True)"]


def seq(d, n):
    """Layers that keep (batch, n)."""
    out = []
    for _ in range(d.int(1, 3)):
        k = d.int(0, 5)
        if k <= 1:
            out.append("nn.Linear(%d, %d%s)" % (n, n, d.choice(["", "", ", bias=False", ", bias=True"])))
        elif k == 2:
            out.append(d.choice(["nn.LayerNorm(%d)", "nn.LayerNorm([%d], eps=1e-3)", "nn.LayerNorm(%d, elementwise_affine=False)", "nn.GroupNorm(1, %d)"]) % n)
        else:
            out.append(d.choice(ACT_M))
    return out


def opaque(d, v):
    """A value written directly or in another way."""
    return d.choice([v, v, v, "cfg['%s']" % v if False else v])


# the epsilon is large: without it a rounding error in a gradient near 0 decides a step
OPT = [
    ("Adam", "eps=0.05", ["betas=(0.8, 0.9)", "weight_decay=0.01"]),
    ("Adadelta", "eps=0.05", ["rho=0.8", "weight_decay=0.01"]),
    ("NAdam", "eps=0.05", ["betas=(0.8, 0.9)", "weight_decay=0.01"]),
    ("RAdam", "eps=0.05", ["betas=(0.8, 0.9)", "weight_decay=0.01"]),
]
SCHED = ["ConstantLR(opt, factor=0.5, total_iters=2)", "LinearLR(opt, start_factor=0.5, total_iters=3)", "MultiplicativeLR(opt, lr_lambda=lambda e: 0.9)", "ConstantLR(opt)", "LinearLR(opt, 0.25, 1.0, 2)"]
LOSS_R = ["nn.MSELoss()", "nn.L1Loss()", "nn.HuberLoss(delta=0.5)", "nn.MSELoss(reduction='sum')", "nn.BCEWithLogitsLoss()", "nn.SoftMarginLoss()", "F.mse_loss", "F.l1_loss", "F.binary_cross_entropy_with_logits", "nn.PoissonNLLLoss()", "nn.L1Loss(reduction='mean')", "nn.KLDivLoss(reduction='batchmean')", "lambda p, t: ((p - t) ** 2).mean()", "lambda p, t: torch.mean(torch.abs(p - t))", "lambda p, t: F.mse_loss(p, t, reduction='none').sum(dim=1).mean()"]
LOSS_C = ["nn.CrossEntropyLoss()", "nn.CrossEntropyLoss(label_smoothing=0.1)", "nn.CrossEntropyLoss(reduction='sum')", "F.cross_entropy", "lambda p, t: F.nll_loss(torch.log(F.softmax(p, dim=1)), t)", "lambda p, t: nn.NLLLoss()(p.softmax(dim=1).log(), t)", "nn.MultiMarginLoss()", "lambda p, t: -p.softmax(1).gather(1, t.unsqueeze(1)).mean()", "lambda p, t: -torch.log(torch.softmax(p, dim=1))[torch.arange(p.shape[0]), t].mean()"]


def program(d, skip=()):
    """(source, names of the results)"""
    pick = lambda xs: d.choice([x for x in xs if not any(s in x for s in skip)])
    kind = d.choice(["vec", "vec", "img", "seq"])
    n, out = d.choice([2, 4, 6]), d.choice([2, 3])
    cls = d.bool(50)
    body, init = [], []

    def layer(nm, e):
        init.append("self.%s = %s" % (nm, e))

    if kind == "vec":
        layer("inp", "nn.Linear(3, %d)" % n)
        body.append(d.choice(["x = self.inp(x)", "x = self.inp.forward(x)" if False else "x = self.inp(x)"]))
        shape, data = "(8, 3)", "torch.linspace(-1, 1, 24).reshape(8, 3)"
    elif kind == "img":
        ch = d.choice([2, 4])
        layer("conv", pick(["nn.Conv2d(1, %d, 3)", "nn.Conv2d(1, %d, kernel_size=3, padding=1)", "nn.Conv2d(1, %d, (3, 2), stride=2, bias=False)", "nn.Conv2d(1, %d, 3, padding=1, padding_mode='reflect')", "nn.Conv2d(in_channels=1, out_channels=%d, kernel_size=2, dilation=2)"]) % ch)
        body.append("x = self.conv(x)")
        if d.bool(50):
            layer("norm", pick(["nn.GroupNorm(2, %d)", "nn.InstanceNorm2d(%d)", "nn.InstanceNorm2d(%d, affine=True)", "nn.LocalResponseNorm(2)"]).replace("%d", str(ch)))
            body.append("x = self.norm(x)")
        body.append("x = " + pick(ACT_F).format(x="x"))
        if d.bool(50):
            body.append("x = " + pick(["F.avg_pool2d(x, 2)", "F.max_pool2d(x, 2)", "F.adaptive_avg_pool2d(x, 2)", "nn.AvgPool2d(2, stride=1)(x)", "F.interpolate(x, scale_factor=2, mode='nearest')", "F.pad(x, (1, 1, 0, 0))", "nn.ZeroPad2d(1)(x)", "x.permute(0, 1, 3, 2)", "nn.Upsample(scale_factor=2, mode='nearest')(x)", "F.dropout2d(x, p=0.0)"]))
        body.append("x = " + pick(["F.adaptive_avg_pool2d(x, 1).flatten(1)", "x.mean(dim=(2, 3))", "x.mean(dim=[-2, -1])", "torch.flatten(F.adaptive_avg_pool2d(x, (1, 1)), start_dim=1)", "x.view(x.size(0), x.size(1), -1).mean(-1)", "x.reshape(x.shape[0], x.shape[1], -1).mean(2)", "nn.AdaptiveAvgPool2d(1)(x).squeeze(-1).squeeze(-1)", "x.flatten(start_dim=2).max(dim=2)[0]", "torch.amax(x, dim=(2, 3))"]))
        layer("inp", "nn.Linear(%d, %d)" % (ch, n))
        body.append("x = self.inp(x)")
        data = "torch.sin(torch.arange(288, dtype=torch.float32)).reshape(8, 1, 6, 6)"
    else:
        layer("emb", pick(["nn.Embedding(5, 4)", "nn.Embedding(num_embeddings=5, embedding_dim=4)"]))
        body.append("x = self.emb(x)")
        k = d.int(2, 3)
        if k <= 1:
            cell = pick(["nn.LSTM(4, %d, batch_first=True)", "nn.GRU(4, %d, batch_first=True)", "nn.RNN(4, %d, batch_first=True)", "nn.GRU(4, %d, 1, batch_first=True)", "nn.LSTM(4, %d, num_layers=2, batch_first=True)"]) % n
            layer("rnn", cell)
            body.append("x, h = self.rnn(x)")
        else:
            layer("proj", "nn.Linear(4, %d)" % n)
            body.append("x = self.proj(x)")
            if k == 3:
                body.append("a = torch.matmul(x, x.transpose(1, 2)) / %d ** 0.5" % n)
                body.append("x = torch.bmm(F.softmax(a, dim=-1), x)")
        body.append("x = " + pick(["x.mean(dim=1)", "x[:, -1]", "torch.sum(x, dim=1)", "x.max(dim=1)[0]", "x[:, 0, :] + x[:, -1, :]", "x.permute(1, 0, 2)[0]", "torch.mean(x, 1)"]))
        data = "(torch.arange(48).reshape(8, 6) * 3) % 5"
    style = d.int(0, 2)
    if style == 0:
        layer("mid", "nn.Sequential(%s)" % ", ".join(x for x in seq(d, n) if not any(s in x for s in skip)))
        body.append("x = self.mid(x)" if d.bool(50) else "x = x + self.mid(x)")
    elif style == 1:
        layer("mid", "nn.ModuleList([nn.Linear(%d, %d) for _ in range(2)])" % (n, n))
        body += ["for m in self.mid:", "    x = " + pick(MIX).format(x="x", y="m(x)")]
    else:
        for s in d.sample(seq(d, n) + seq(d, n), 2):
            if not any(t in s for t in skip):
                layer("l%d" % len(init), s)
                body.append("x = self.%s(x)" % init[-1].split(" ")[0][5:])
    for _ in range(d.int(1, 4)):
        k = d.int(0, 4)
        if k <= 1:
            body.append("x = " + pick(ACT_F).format(x="x"))
        elif k == 2:
            body.append("y = " + pick(ACT_F).format(x="x"))
            body.append("x = " + pick(MIX).format(x="x", y="y"))
        elif k == 3:
            body.append("x = x + " + pick(RED).format(x="x", k=min(2, n)))
        else:
            body += ["if x.abs().mean() > %s:" % d.choice(["0.123", "0.4321", "-5.0"]), "    x = " + pick(ACT_F).format(x="x"), "else:", "    x = " + pick([m for m in MIX if "max" not in m]).format(x="x", y=d.choice(["x.detach()", "torch.ones_like(x)", "(x * 2)", "torch.full_like(x, 0.5)", "x.clone()"]))]
    layer("head", "nn.Linear(%d, %d)" % (n, out))
    body.append("return self.head(x)")
    crit = pick(LOSS_C if cls else LOSS_R)
    tgt = "torch.arange(8) %% %d" % out if cls else d.choice(["torch.linspace(0, 1, %d).reshape(8, %d)", "torch.sigmoid(torch.arange(%d, dtype=torch.float32)).view(8, %d)"]) % (8 * out, out)
    on, eps, opts = d.choice([o for o in OPT if o[0] not in skip])
    kw = d.perm(["lr=0.02", eps] + [o for o in opts if d.bool(40)])
    # import style
    nnp, fp, op = d.choice([("import torch.nn as nn", "nn"), ("from torch import nn", "nn")]), "import torch.nn.functional as F", d.choice(["torch.optim.", "optim."])
    head = ["import torch", nnp[0], fp] + (["from torch import optim"] if op == "optim." else [])
    loop = []
    sched = d.bool(35) and pick(SCHED)
    loader = d.int(1, 2)
    lines = head + ["", "", "class Net(nn.Module):", "    def __init__(self):", "        " + d.choice(["super().__init__()", "super(Net, self).__init__()"])]
    lines += ["        " + l for l in init] + ["", "    def forward(self, x):"] + ["        " + l for l in body]
    lines += ["", "", "def fill(module):", "    for i, p in enumerate(module.parameters()):", "        k = int(p.numel())", "        p.data = (torch.sin(torch.arange(k, dtype=torch.float32) * 1.7 + i) * 0.5).reshape(p.shape)", "", "", "net = Net()", "fill(net)"]
    lines += ["x = " + data, "y = " + tgt, "crit = " + crit, "opt = %s%s(net.parameters(), %s)" % (op, on, ", ".join(kw))]
    if sched:
        lines.append("sched = %slr_scheduler.%s" % (op, sched))
    lines += ["losses, grads = [], []", "net.train()"]
    step = ["opt.zero_grad()", d.choice(["loss = crit(net(xb), yb)", "pred = net(xb)\nloss = crit(pred, yb)", "out = net.forward(xb)\nloss = crit(out, yb)"])]
    if d.bool(25):
        step.append("loss = loss + 0.01 * sum((p ** 2).sum() for p in net.parameters())")
    step += ["loss.backward()"]
    if d.bool(30):
        step.append(pick(["torch.nn.utils.clip_grad_norm_(net.parameters(), 0.5)", "nn.utils.clip_grad_value_(net.parameters(), 0.1)", "nn.utils.clip_grad_norm_(net.parameters(), max_norm=1.0)"]))
    step += ["grads.append(net.head.weight.grad.abs().sum().item())", "opt.step()", d.choice(["losses.append(loss.item())", "losses.append(float(loss.detach()))", "losses.append(loss.detach().cpu().numpy().tolist())"])]
    step = [y for s in step for y in s.split("\n")]
    if loader == 0:
        inner = ["for xb, yb in loader:"] + ["    " + s for s in step]
        lines.append("loader = torch.utils.data.DataLoader(torch.utils.data.TensorDataset(x, y), batch_size=4%s)" % d.choice(["", ", shuffle=False", ", drop_last=True"]))
    elif loader == 1:
        inner = ["for i in range(0, 8, 4):", "    xb, yb = x[i : i + 4], y[i : i + 4]"] + ["    " + s for s in step]
    else:
        inner = ["for xb, yb in zip(torch.split(x, 4), torch.split(y, 4)):" if d.bool(50) else "for xb, yb in zip(x.chunk(2), torch.chunk(y, 2, dim=0)):"] + ["    " + s for s in step]
    lines += ["for epoch in range(2):"] + ["    " + s for s in inner]
    if sched:
        lines.append("    sched.step()")
    lines += ["net.eval()", d.choice(["with torch.no_grad():\n    pred = net(x)", "with torch.no_grad():\n    pred = net(x)\n    pred = pred.detach()", "@torch.no_grad()\ndef predict(v):\n    return net(v)\npred = predict(x)"])]
    lines += [d.choice(["best = torch.argmax(pred, dim=1)", "best = pred.argmax(1)", "best = pred.max(dim=1)[1]", "best = torch.max(pred, 1).indices"]), "total = sum(int(p.numel()) for p in net.parameters())", "norms = [float(p.detach().abs().sum()) for p in net.parameters()]"]
    names = ["losses", "grads", "pred", "best", "total", "norms"]
    if sched:
        lines.append("lrs = 0")
    # large logits are cut off differently
    lines.append("assert max(losses) < 10 and float(pred.abs().max()) < 10")
    return "\n".join(lines) + "\n", names
