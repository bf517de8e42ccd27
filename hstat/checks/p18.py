"""P18 - recurrent neural network.  The gated recurrent unit cell, the stacked
network and the model built on them are evaluated on unrestricted weights, inputs
and hidden states and compared, as value numbers, with the gated recurrent unit
equations; values cut from the gradient graph are opaque."""
from .. import alg
from ..common import *
from .p13 import refuse

FLOOR = 60
LIMIT = 300
GV = 'model_architectures.rnn_base_model.custom.gru_vmap'
GM = 'model_architectures.rnn_base_model.model.gru_model'
Z = alg.ZERO
ONE = alg.ONE


def groups(tier):
    g = [('cell', cell), ('initial weights', weights), ('model', model), ('model refusals', refusals), ('vmap', vmapped)]
    g += [(f'network {l}x{t}', lambda ctx, l=l, t=t: network(ctx, l, t)) for l in (1, 2, 3) for t in (1, 2, 3)]
    return g


def call(I, o, f, *a, **k):
    return I.call(I.getattr(o, f), list(a), k)


def params(o):
    """Parameters of a module in registration order."""
    return [v for v in o.attrs.values() if isinstance(v, Tensor) and v.param]


def symbolic(c, tag, n_in, h):
    """Give a cell unrestricted weights; returns them as nested lists."""
    ps = params(c)
    want = [(3 * h, n_in), (3 * h, h), (3 * h,), (3 * h,)]
    if [tuple(p.shape) for p in ps] not in (want, want[:2]):
        raise Undecided(f'weights of a cell: {[p.shape for p in ps]}')
    out = []
    for k, p in zip(('wi', 'wh', 'bi', 'bh'), ps):
        tlib.write(p, [S(f'{tag}.{k}[{i}]') for i in range(p.size)])
        out.append(ex(p))
    if len(ps) == 2:
        out += [[Z] * (3 * h)] * 2
    return out


def sig(e):
    return alg.func('sigmoid', e)


def ref_cell(W, h, x, hx):
    """One sample: x list, hx list."""
    wi, wh, bi, bh = W
    gi = [sum((w * a for w, a in zip(r, x)), b) for r, b in zip(wi, bi)]
    gh = [sum((w * a for w, a in zip(r, hx)), b) for r, b in zip(wh, bh)]
    out = []
    for k in range(h):
        r, z = sig(gi[k] + gh[k]), sig(gi[h + k] + gh[h + k])
        n = alg.func('tanh', gi[2 * h + k] + r * gh[2 * h + k])
        out.append((ONE - z) * n + z * hx[k])
    return out


def cell(ctx):
    for n_in, h in ((2, 1), (1, 2), (2, 2), (3, 2)):
        for bias in (True, False):
            for B in (None, 1, 2):
                for hid in (True, False):
                    I = ctx.interp()
                    w = f'{GV}:GRUCell.forward in={n_in} hidden={h} bias={bias} batch={B} hx={hid}'
                    c = ctx.run('construction', w, lambda: I.call(I.get(GV, 'GRUCell'), [n_in, h], dict(bias=bias)))
                    if c is None:
                        continue
                    W = symbolic(c, 'c', n_in, h)
                    I.track_grad = True
                    x = tens('x', (n_in,) if B is None else (B, n_in))
                    hx = tens('h', (h,) if B is None else (B, h)) if hid else None
                    y = ctx.run('cell', w, lambda: I.call(c, [x] + ([hx] if hid else []), {}))
                    if y is None:
                        continue
                    xs = [ex(x)] if B is None else ex(x)
                    hs = ([ex(hx)] if B is None else ex(hx)) if hid else [[Z] * h] * (B or 1)
                    want = [ref_cell(W, h, a, b) for a, b in zip(xs, hs)]
                    ctx.same('cell-is-the-gated-recurrent-unit', w, ex(y), want[0] if B is None else want)


def weights(ctx):
    for n_in, h in ((2, 4), (3, 9)):
        for bias in (True, False):
            I = ctx.interp()
            w = f'{GV}:GRUCell.reset_parameters in={n_in} hidden={h} bias={bias}'
            seen = []

            def uni(I, a, k):
                seen.append((a[0], to_expr(a[1] if len(a) > 1 else k['a']), to_expr(a[2] if len(a) > 2 else k['b'])))
                return a[0]
            I.stubs['lib:torch.nn.init.uniform_'] = uni
            c = ctx.run('construction', w, lambda: I.call(I.get(GV, 'GRUCell'), [n_in, h], dict(bias=bias)))
            if c is None:
                continue
            ps = params(c)
            ctx.ob('number-of-weights', w, [tuple(p.shape) for p in ps] == [(3 * h, n_in), (3 * h, h)] + [(3 * h,)] * (2 if bias else 0), [p.shape for p in ps])
            ctx.ob('every-weight-is-initialised', w, all(any(q.st is p.st for q, _, _ in seen) for p in ps), len(seen))
            k = alg.sqrt(alg.const(h))
            ctx.ob('weights-are-drawn-within-one-over-root-hidden-size', w, all(alg.equal(a, -ONE / k) and alg.equal(b, ONE / k) for _, a, b in seen), '')


def stack(I, n_in, h, L, bias=True):
    g = I.call(I.get(GV, 'GRU'), [n_in, h], dict(num_layers=L, bias=bias))
    return g, weigh(I, g, n_in, h, L, bias)


def weigh(I, g, n_in, h, L, bias=True):
    lists = [v for v in g.attrs.values() if isinstance(v, PyList)]
    if len(lists) != 1:
        raise Undecided('layers of the network')
    cells = I.iterate(lists[0])
    if len(cells) != L:
        raise Undecided(f'{len(cells)} layers')
    for i, c in enumerate(cells):
        n = len(params(c))
        if n != (4 if bias else 2):
            e = AbsRaise('Bias', f'layer {i} of a network with bias={bias} has {n} weights')
            e.where = f'{GV}:GRU.__init__'
            raise e
    return [symbolic(c, f'l{i}', n_in if i == 0 else h, h) for i, c in enumerate(cells)]


def ref_net(Ws, h, xs, h0):
    """xs: list over time of one sample; h0: list over layers."""
    hs, out = list(h0), []
    for x in xs:
        cur = x
        for l, W in enumerate(Ws):
            hs[l] = ref_cell(W, h, cur, hs[l])
            cur = hs[l]
        out.append(cur)
    return out, hs


def net_case(ctx, w, y, hn, X, H, Ws, h, T, B):
    L = len(Ws)
    xs = [[X[t]] if B is None else X[t] for t in range(T)]
    hs = [[H[l]] if B is None else H[l] for l in range(L)]
    refs = [ref_net(Ws, h, [xs[t][b] for t in range(T)], [hs[l][b] for l in range(L)]) for b in range(B or 1)]
    if B is None:
        want_y, want_h = refs[0]
    else:
        want_y = [[refs[b][0][t] for b in range(B)] for t in range(T)]
        want_h = [[refs[b][1][l] for b in range(B)] for l in range(L)]
    return want_y, want_h


def network(ctx, L, T):
    for n_in, h in (((2, 1), (1, 2)) if L * T < 6 else ((2, 1),)):
        for bias in (True, False):
            for B in (None, 1, 2):
                for hid in (True, False):
                    I = ctx.interp()
                    w = f'{GV}:GRU.forward layers={L} times={T} in={n_in} hidden={h} bias={bias} batch={B} hx={hid}'
                    r = ctx.run('construction', w, lambda: stack(I, n_in, h, L, bias))
                    if r is None:
                        continue
                    g, Ws = r
                    I.track_grad = True
                    x = tens('x', (T, n_in) if B is None else (T, B, n_in))
                    hx = tens('h', (L, h) if B is None else (L, B, h)) if hid else None
                    r = ctx.run('network', w, lambda: I.iterate(I.call(g, [x] + ([hx] if hid else []), {})))
                    if r is None:
                        continue
                    H = ex(hx) if hid else ([[Z] * h] * L if B is None else [[[Z] * h] * B] * L)
                    wy, wh = net_case(ctx, w, r[0], r[1], ex(x), H, Ws, h, T, B)
                    ctx.same('output-is-the-last-layer-at-each-time', w, ex(r[0]), wy)
                    ctx.same('hidden-state-is-that-of-each-layer-at-the-last-time', w, ex(r[1]), wh)
                    if hid:
                        ctx.ob('given-hidden-state-is-not-modified', w, [str(e) for e in hx.vals()] == [f'h[{i}]' for i in range(hx.size)], '')


def linear(m):
    """Weights of the output layer as symbols."""
    for v in m.attrs.values():
        if isinstance(v, Instance) and v.attrs.get('@out'):
            return v
    return None


def model(ctx):
    for src in ('custom', 'torch'):
        for L in (1, 2, 3):
            for T in ((1, 2) if L < 3 else (1,)):
                for B in (None, 1, 2):
                    for hid in (False, True):
                        I = ctx.interp()
                        n_in, h, n_out = 2, 1, 2
                        w = f'{GM}:GRURNNModel.forward source={src} layers={L} times={T} batch={B} hidden={hid}'
                        made = []

                        def lin(I, a, k):
                            i, o = [I.as_int(v) for v in (list(a) + [k[q] for q in ('in_features', 'out_features') if q in k])[:2]]
                            made.append(('linear', i, o, k.get('bias', True)))

                            def f(I, a, k):
                                t = a[0]
                                if t.shape[-1] != i:
                                    raise AbsRaise('RuntimeError', 'linear: size')
                                v = [tlib.E(e) for e in t.vals()]
                                rows = [v[q:q + i] for q in range(0, len(v), i)]
                                return tlib.new([sum((S(f'o.w{q}{p}') * r[p] for p in range(i)), S(f'o.b{q}')) for r in rows for q in range(o)],
                                                t.shape[:-1] + (o,), 'float32', 'torch')
                            m = fake(I, 'Linear')
                            m.attrs['@call'] = f
                            return m

                        def tgru(I, a, k):
                            made.append(('gru', I.as_int(k['input_size']), I.as_int(k['hidden_size']), I.as_int(k.get('num_layers', 1)),
                                         k.get('bias', True), k.get('batch_first', False), k.get('bidirectional', False)))
                            K = I.call(I.get(GV, 'GRU'), [], dict(input_size=k['input_size'], hidden_size=k['hidden_size'], num_layers=k.get('num_layers', 1)))
                            return K
                        I.stubs['lib:torch.nn.Linear'] = lin
                        I.stubs['lib:torch.nn.GRU'] = tgru
                        m = ctx.run('construction', w, lambda: I.call(I.get(GM, 'GRURNNModel'), [n_in, n_out, h, None], dict(
                            n_recurrent_layers=L, is_save_model_init_file=False, gru_model_source=src, dropout=Num(S('drop')))))
                        if m is None:
                            continue
                        ctx.ob('network-has-the-requested-size', w, ('linear', h, n_out, True) in made and (
                            src == 'custom' or ('gru', n_in, h, L, True, False, False) in made), made)
                        gs = [v for v in m.attrs.values() if isinstance(v, Instance) and getattr(v.cls, 'name', '') == 'GRU']
                        if len(gs) != 1:
                            raise Undecided('network of the model')
                        Ws = weigh(I, gs[0], n_in, h, L)
                        I.track_grad = True
                        x = tens('x', (T, n_in) if B is None else (T, B, n_in))
                        hx = tens('h', (L, h) if B is None else (L, B, h)) if hid else None
                        r = ctx.run('model', w, lambda: I.iterate(call(I, m, 'forward', x, *([hx] if hid else []))))
                        if r is None:
                            continue
                        H = ex(hx) if hid else ([[Z] * h] * L if B is None else [[[Z] * h] * B] * L)
                        wy, wh = net_case(ctx, w, r[0], r[1], ex(x), H, Ws, h, T, B)
                        out = lambda v: [sum((S(f'o.w{q}{p}') * v[p] for p in range(h)), S(f'o.b{q}')) for q in range(n_out)]
                        wy = [out(t) if B is None else [out(b) for b in t] for t in wy]
                        ctx.same('output-is-the-linear-layer-of-the-network', w, ex(r[0]), wy)
                        ctx.same('hidden-state-is-returned', w, ex(r[1]), wh)


def refusals(ctx):
    I = ctx.interp()
    K = I.get(GM, 'GRURNNModel')
    mk = lambda **k: I.call(K, [2, 2, 1, k.pop('d', None)], dict(dict(is_save_model_init_file=False, gru_model_source='custom'), **k))
    w = f'{GM}:GRURNNModel'
    refuse(ctx, 'bad-model-name-is-refused', w, lambda: mk(model_name=3))
    refuse(ctx, 'unknown-device-is-refused', w, lambda: mk(device_type='tpu'))
    m = ctx.run('construction', w, mk)
    if m is not None:
        refuse(ctx, 'input-that-is-no-tensor-is-refused', w, lambda: call(I, m, 'forward', PyList([Num(ONE)])))
        refuse(ctx, 'hidden-state-that-is-no-tensor-is-refused', w, lambda: call(I, m, 'forward', tens('x', (2, 2)), PyList([Num(ONE)])))


def vmapped(ctx):
    """The network maps over samples: vmap of the unbatched call is the batched call."""
    for what in ('GRUCell', 'GRU'):
        I = ctx.interp()
        w = f'{GV}:{what}.forward under vmap'
        B, n_in, h, L, T = 2, 2, 1, 2, 2
        if what == 'GRUCell':
            g = I.call(I.get(GV, 'GRUCell'), [n_in, h], {})
            symbolic(g, 'c', n_in, h)
            x, hx, dims = tens('x', (B, n_in)), tens('h', (B, h)), 0
        else:
            g, _ = stack(I, n_in, h, L)
            x, hx, dims = tens('x', (T, B, n_in)), tens('h', (L, B, h)), 1
        r = ctx.run('vmap', w, lambda: I.call(I.call(Lib('torch.vmap'), [g], dict(in_dims=(dims, dims), out_dims=dims)), [x, hx], {}))
        q = ctx.run('batched', w, lambda: I.call(g, [x, hx], {}))
        if r is None or q is None:
            continue
        for a, b in zip(*(([r], [q]) if what == 'GRUCell' else (I.iterate(r), I.iterate(q)))):
            ctx.same('mapped-and-batched-results-agree', w, ex(a), ex(b))
