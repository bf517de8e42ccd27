"""P30 - data set pruning.  The pruning procedure is evaluated on an abstract file
system with data sets of labelled samples, a stand-in random split (several
permutations), a stand-in training that records the data sets its files hold, and a
stand-in prediction that writes one loss per sample, in any order relation.  Decided:
every step trains, validates and tests on three separate parts of the development set,
removes exactly the requested number of best predicted test samples from it and adds
them to the unused samples; every iteration trains and validates on the development set
and tests on the requested data; nothing is lost or used twice; stop criteria; records."""
import itertools

from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse
from .p28 import call, fun

FLOOR = 40
LIMIT = 300
PR = 'miscellaneous.pruning.pruning_dataset'
TD = 'time_series_data.time_dataset'
C = alg.const
F = alg.Fraction
Q = '/prune'


def groups(tier):
    return [('constant', lambda ctx: runs(ctx, 'constant')), ('proportional', lambda ctx: runs(ctx, 'proportional')), ('stop criteria', stops), ('schedulers', schedulers), ('losses', losses),
            ('directories', directories), ('summary', summary), ('ties and orders', orders), ('preview', preview), ('figures', figures)]


class World:
    """n labelled samples; sample k of the test sets is predicted with loss score(k)."""

    def __init__(self, ctx, n, score, shuffle, types=('in_distribution',), nrmse=True, subset=False):
        I = self.I = ctx.interp()
        base = f'{Q}/base_datasets'
        fs = self.fs = FS(I, dirs=[Q, base, f'{base}/1_training_dataset', f'{base}/5_testing_id_dataset', f'{base}/6_testing_od_dataset', f'{base}/5_testing_id_dataset/plots'])
        self.ds = lambda ids: I.call(I.get(TD, 'TimeSeriesDatasetInMemory'), [PyList([PyDict([('id', i)]) for i in ids])], {})
        self.n, self.score, self.events, self.nrmse, self.trained = n, score, [], nrmse, []
        fs.write(f'{base}/1_training_dataset/ss_paths_dataset_n{n}.pkl', self.subset(self.ds(range(n + 3)), list(range(n))) if subset else self.ds(range(n)))
        fs.write(f'{base}/5_testing_id_dataset/ss_paths_dataset_n2.pkl', self.ds([101, 102]))
        fs.write(f'{base}/5_testing_id_dataset/other.txt', 'x')
        fs.write(f'{base}/5_testing_id_dataset/plots/a.pdf', 'x')
        fs.write(f'{base}/6_testing_od_dataset/ss_paths_dataset_n3.pkl', self.ds([201, 202, 203]))
        self.trial = 0

        def split(I, a, k):
            ds, sizes = a[0], [to_expr(I.simp(x)) for x in I.iterate(a[1])]
            m = self.size(ds)
            fr = [float(x.fval()) for x in sizes]
            ln = [int(f * m + 1e-9) for f in fr] if sum(fr) <= 1.0001 else [int(f) for f in fr]
            for i in range(m - sum(ln)):
                ln[i % len(ln)] += 1
            self.trial += 1
            idx = shuffle(list(range(m)), self.trial)
            out, off = [], 0
            for q in ln:
                own = idx[off:off + q]
                off += q
                out.append(self.subset(ds, own))
            return PyList(out)
        I.stubs['lib:torch.utils.data.random_split'] = split

        def train(I, a, k):
            v = dict(zip(('train_dataset_file_path', 'model_directory'), a), **k)
            val = v.get('val_dataset_file_path')
            self.events.append(('train', self.ids(v['train_dataset_file_path']), self.ids(val) if val else None, v['model_directory'], fs.isdir(v['model_directory'])))
            self.trained.append(v['train_dataset_file_path'])
            if isinstance(v['model_directory'], str) and fs.isdir(v['model_directory']):
                fs.write(v['model_directory'] + '/model.pt', ('m', len(self.events)))
        I.stubs['user_scripts.local_model_update.rnn_material_model.train_model.perform_model_standard_training'] = train

        def predict(I, a, k):
            v = dict(zip(('predict_directory', 'dataset_file_path', 'model_directory'), a), **k)
            ids = self.ids(v['dataset_file_path'])
            if not isinstance(v['predict_directory'], str) or not fs.isdir(v['predict_directory']):
                self.events.append(('predict', [-1], None, False, v['predict_directory']))
                return ('/nowhere', Num(C(0)))
            sub = v['predict_directory'] + '/prediction_set_0'
            fs._mkdirs(sub)
            keep = I.simp(v.get('is_remove_sample_prediction', False)) is not True
            if keep:
                for i in reversed(range(len(ids))):
                    fs.write(f'{sub}/prediction_sample_{i}.pkl', PyDict([('prediction_loss_data', ('loss', 'MSE', Num(C(self.score(ids[i]))), False))]))
            if self.nrmse:
                fs._mkdirs(f'{sub}/prediction_metrics')
                fs.write(f'{sub}/prediction_metrics/mean_prediction_metrics.dat', ('metrics', len(self.events)))
            self.events.append(('predict', ids, v['model_directory'], fs.isfile(v['model_directory'] + '/model.pt'), v['predict_directory']))
            return (sub, Num(C(F(len(self.events), 8))))
        I.stubs['user_scripts.local_model_update.rnn_material_model.predict.perform_model_prediction'] = predict

        def metrics(I, a, k):
            t = fs.look(a[0])[1]
            return PyDict([('nrmse', const_t([t, t + 4]))])
        I.stubs['utilities.output_prediction_metrics.read_mean_metrics_results_file'] = metrics
        I.stubs['lib:time.time'] = lambda I, a, k: Num(C(0))

    def subset(self, ds, own):
        I = self.I
        items = [I.getitem(ds, i) for i in own]
        c = ClassV('Subset', None, [Lib('torch.utils.data.Subset'), Lib('torch.utils.data.Dataset')], {}, None)
        c.ns['__len__'] = Native(lambda I, a, k: len(own), '__len__')
        c.ns['__getitem__'] = Native(lambda I, a, k: items[I.as_int(I.simp(a[1]))], '__getitem__')
        return Instance(c, {'@fake': True, 'dataset': ds, 'indices': PyList(own)})

    def size(self, ds):
        return self.I.as_int(self.I.call(Lib('builtins.len'), [ds], {}))

    def ids(self, path):
        if isinstance(path, str) and not self.fs.isfile(path):
            return [-1]
        o = self.fs.look(path) if isinstance(path, str) else path
        if not isinstance(o, Instance):
            return [-1]
        return [self.I.as_int(self.I.simp(self.I.getitem(o, i).get('id'))) for i in range(self.size(o))]

    def params(self, **k):
        d = dict(n_iter_max=3, prun_scheduler_type='constant', prun_scheduler_params=pydict(n_prun_sample=2), n_dev_min=2, ratio_dev_min=Num(C(F(1, 100))), n_prun_test_min=1, prun_test_ratio_max=Num(C(1)),
                 pruning_step_sizes=pydict(training=Num(C(F(1, 2))), validation=Num(C(F(1, 4))), testing=Num(C(F(1, 4)))), pruning_iter_sizes=pydict(training=Num(C(F(3, 4))), validation=Num(C(F(1, 4)))))
        d.update(k)
        return pydict(**d)


def rot(x, t):
    """A permutation that changes from split to split."""
    k = (3 * t + 1) % len(x) if x else 0
    y = x[k:] + x[:k]
    return y[::-1] if t % 2 else y


def hard(i):
    return F((i * 7 + 3) % 23, 4)


def runs(ctx, kind):
    w = f'{PR}:prune_time_series_dataset {kind}'
    for n, types, remove, half in ((24, ('in_distribution', 'unused_data'), False, False), (16, ('out_distribution',), True, False), (33, ('in_distribution', 'out_distribution', 'unused_data'), False, False), (24, ('in_distribution',), True, True)):
        W = World(ctx, n, hard, rot, subset=half)
        I, fs = W.I, W.fs
        # left over from a run that was stopped
        fs.write(f'{Q}/summary.dat', 'Old summary')
        for x in ('1_training', '2_validation', '5_testing_id'):
            fs._mkdirs(f'{Q}/pruned_datasets/pruning_step/{x}_dataset')
            fs.write(f'{Q}/pruned_datasets/pruning_step/{x}_dataset/ss_paths_dataset_n7.pkl', W.ds([5, 6]))
        p = W.params(pruning_iter_sizes=pydict(training=Num(C(F(1, 2) if half else F(3, 4))), validation=Num(C(F(1, 2) if half else F(1, 4)))), prun_scheduler_type=kind, prun_scheduler_params=pydict(n_prun_sample=2) if kind == 'constant' else pydict(prun_ratio=Num(C(F(1, 9)))))
        r = ctx.run('pruning', w, lambda: fun(I, PR, 'prune_time_series_dataset', Q, types, p, is_remove_pruning_models=remove))
        if r is None:
            continue
        check_run(ctx, f'{w} n={n} {types}', W, r[1], types, (lambda m: 2) if kind == 'constant' else (lambda m: m // 9), 3, remove)


def check_run(ctx, w, W, data, types, count, last, remove):
    I, fs = W.I, W.fs
    ev = list(W.events)
    dev, unused = list(range(W.n)), []
    it, pos = 0, 0
    while True:
        if it > 0:
            # step: train, predict
            if pos + 1 >= len(ev) or ev[pos][0] != 'train' or ev[pos + 1][0] != 'predict':
                break
            _, tr, va, md, _ = ev[pos]
            _, te, md2, trained, _ = ev[pos + 1]
            ctx.ob('step-uses-three-separate-parts-of-the-development-set', f'{w} step {it}', va is not None and sorted(tr + va + te) == sorted(dev), (len(tr), len(va or []), len(te), len(dev)))
            ctx.ob('step-tests-the-model-it-trained', f'{w} step {it}', md == md2 and trained, (md, md2))
            k = count(len(dev))
            gone = sorted(te, key=W.score)[:k]
            dev = [x for x in dev if x not in gone]
            unused += gone
            pos += 2
        if pos >= len(ev):
            break
        _, tr, va, md, made = ev[pos]
        ok = ev[pos][0] == 'train' and va is not None and sorted(tr + va) == sorted(dev)
        ctx.ob('iteration-trains-on-what-is-left', f'{w} iteration {it}', ok, f'{len(dev)} samples left, {len(tr)} + {len(va or [])} used')
        ctx.ob('best-predicted-samples-are-pruned', f'{w} iteration {it}', ok, sorted(set(tr + (va or [])) ^ set(dev)))
        pos += 1
        want = []
        d = data.get(str(it)) if data.has(str(it)) else None
        if not ctx.ob('iteration-is-recorded', f'{w} iteration {it}', isinstance(d, PyDict), data.keys()):
            break
        for t in types:
            ids = {'in_distribution': [101, 102], 'out_distribution': [201, 202, 203], 'unused_data': list(unused)}[t]
            if t == 'unused_data' and not unused:
                ctx.ob('nothing-to-test-yet', f'{w} iteration {it}', d.get('testing_types_loss').get(t) is None and d.get('testing_types_avg_nrmse').get(t) is None, '')
                continue
            if pos >= len(ev) or ev[pos][0] != 'predict':
                ctx.ob('iteration-tests-on-the-requested-data', f'{w} iteration {it} {t}', False, 'no prediction')
                return
            _, te, md2, trained, pd = ev[pos]
            ctx.ob('iteration-tests-on-the-requested-data', f'{w} iteration {it} {t}', sorted(te) == sorted(ids), te)
            ctx.ob('iteration-tests-the-model-it-trained', f'{w} iteration {it} {t}', md == md2 and trained, md2)
            want.append(pd)
            loss, nr = d.get('testing_types_loss').get(t), d.get('testing_types_avg_nrmse').get(t)
            ctx.ob('loss-of-this-prediction-is-recorded', f'{w} iteration {it} {t}', loss is not None and alg.equal(to_expr(loss), C(F(pos + 1, 8))), loss)
            if W.nrmse:
                ctx.ob('error-of-this-prediction-is-recorded', f'{w} iteration {it} {t}', nr is not None and alg.equal(to_expr(nr), C(pos + 2)), nr)
            pos += 1
        ctx.ob('predictions-have-their-own-directories', f'{w} iteration {it}', len(set(want)) == len(want), want)
        got = [I.as_int(I.simp(d.get(q))) for q in ('n_full', 'iter', 'n_dev', 'n_train', 'n_valid', 'n_unused')]
        ctx.ob('sizes-are-recorded', f'{w} iteration {it}', got == [W.n, it, len(dev), len(tr), len(va or []), len(unused)], got)
        ctx.ob('models-are-kept-unless-asked', f'{w} iteration {it}', fs.isdir(md) == (not remove), md)
        it += 1
    sizes = [I.as_int(I.simp(data.get(k).get('n_train'))) for k in data.keys() if isinstance(data.get(k), PyDict)]
    if len(set(sizes)) == len(sizes):
        mine = [(x, e[3]) for x, e in zip(W.trained, [e for e in ev if e[0] == 'train']) if isinstance(x, str) and 'pruning_step' not in x]
        ctx.ob('data-sets-of-every-iteration-are-kept', w, len(mine) == it and all(fs.isfile(x) for x, _ in mine), mine)
        ctx.ob('models-of-every-iteration-are-kept-unless-asked', w, all(fs.isdir(m) != remove for _, m in mine) and len({m for _, m in mine}) == len(mine), mine)
    t = fs.look(f'{Q}/summary.dat') if fs.isfile(f'{Q}/summary.dat') else None
    ctx.ob('summary-is-of-this-run', w, isinstance(t, str) and 'Old' not in t, str(t)[:40])
    ctx.ob('number-of-iterations', w, it == last + 1 and len(data.keys()) == last + 1 and pos == len(ev), (it, data.keys()))
    o = fs.look(f'{Q}/pruning_data.pkl') if fs.isfile(f'{Q}/pruning_data.pkl') else None
    ctx.ob('record-of-the-pruning-is-stored', w, isinstance(o, PyDict) and isinstance(o.get('pruning_iterative_data'), PyDict) and o.get('pruning_iterative_data').keys() == data.keys() and o.has('pruning_params'), o)
    b = f'{Q}/base_datasets'
    ctx.ob('base-data-sets-are-kept', w, sorted(W.ids(f'{b}/1_training_dataset/ss_paths_dataset_n{W.n}.pkl')) == list(range(W.n)) and W.ids(f'{b}/5_testing_id_dataset/ss_paths_dataset_n2.pkl') == [101, 102] and fs.isfile(f'{b}/5_testing_id_dataset/other.txt') and fs.isfile(f'{b}/5_testing_id_dataset/plots/a.pdf'), '')


STOP = {'size': 'Minimum development data set size reached.', 'ratio': 'Minimum development data set size ratio reached.', 'test': 'Minimum pruning testing data set size reached.',
        'tests': 'Maximum pruned samples testing ratio reached.', 'iter': 'Maximum number of pruning iterations reached.'}


def stops(ctx):
    """One step: admitted or refused by each criterion, at, below and above its limit."""
    w = f'{PR}:perform_pruning_step'
    n = 16      # 8 | 2 | 6
    for nm, kw, full, ref in (('none', {}, 16, None), ('size at', dict(n_dev_min=16), 16, 'size'), ('size above', dict(n_dev_min=20), 16, 'size'), ('size below', dict(n_dev_min=15), 16, None),
                              ('ratio below', dict(ratio_dev_min=Num(C(F(3, 4)))), 20, None), ('ratio above', dict(ratio_dev_min=Num(C(F(9, 10)))), 20, 'ratio'),
                              ('test at', dict(n_prun_test_min=6), 16, None), ('test above', dict(n_prun_test_min=7), 16, 'test'), ('test far above', dict(n_prun_test_min=10), 16, 'test'),
                              ('tests at', dict(prun_test_ratio_max=Num(C(F(1, 3)))), 16, None), ('tests above', dict(prun_test_ratio_max=Num(C(F(3, 10)))), 16, 'tests')):
        W = World(ctx, n, hard, rot)
        I = W.I
        W.fs._mkdirs('/p')
        for x in ('1_training', '2_validation', '5_testing_id'):
            W.fs._mkdirs(f'/p/pruning_step/{x}_dataset')
            W.fs.write(f'/p/pruning_step/{x}_dataset/ss_paths_dataset_n6.pkl', W.ds([5, 6]))
        W.fs._mkdirs('/p/pruning_step/7_prediction/in_distribution/prediction_set_0')
        dev, un = W.ds(range(n)), W.ds([50])
        p = W.params(n_full=full, pruning_step_sizes=pydict(training=Num(C(F(1, 2))), validation=Num(C(F(1, 8))), testing=Num(C(F(3, 8)))), **kw)
        r = ctx.run('step', f'{w} {nm}', lambda: fun(I, PR, 'perform_pruning_step', '/p', p, dev, un))
        if r is None:
            continue
        ok, st, d2, u2 = r
        ok = I.simp(ok)
        ctx.ob('step-is-admitted-within-the-criteria', f'{w} {nm}', ok is (ref is None), (ok, st))
        if ok is not (ref is None):
            continue
        if ref:
            ctx.ob('reason-is-reported', f'{w} {nm}', st == STOP[ref], st)
            ctx.ob('refused-step-changes-nothing', f'{w} {nm}', W.ids(d2) == list(range(n)) and W.ids(u2) == [50] and not W.events, '')
        elif len(W.events) == 2:
            te = W.events[1][1]
            gone = sorted(te, key=hard)[:2]
            ctx.ob('best-predicted-samples-are-pruned', f'{w} {nm}', W.ids(d2) == [i for i in range(n) if i not in gone] and sorted(W.ids(u2)) == sorted([50] + gone), (W.ids(u2), gone))
            ctx.ob('step-uses-three-separate-parts-of-the-development-set', f'{w} {nm}', sorted(W.events[0][1] + W.events[0][2] + te) == list(range(n)), W.events[0][1:3])
            ctx.ob('step-files-are-removed', f'{w} {nm}', not [x for x in W.fs.files() if x.startswith('/p/')], '')
            ctx.ob('step-tests-the-model-it-trained', f'{w} {nm}', W.events[0][3] == W.events[1][2] and W.events[1][3], '')
        else:
            ctx.ob('step-trains-and-tests', f'{w} {nm}', False, len(W.events))
    # whole procedure: reasons to end
    for nm, kw, last, ref in (('iterations', dict(n_iter_max=1), 1, 'iter'), ('none', dict(n_iter_max=0), 0, 'iter'), ('size', dict(n_dev_min=13, n_iter_max=50), 2, 'size'), ('size at', dict(n_dev_min=14, n_iter_max=50), 1, 'size')):
        W = World(ctx, 16, hard, rot)
        I = W.I
        r = ctx.run('pruning', f'{w} {nm}', lambda: fun(I, PR, 'prune_time_series_dataset', Q, ('in_distribution',), W.params(**kw)))
        if r is None:
            continue
        ctx.ob('pruning-ends-at-the-first-criterion', f'{PR}:prune_time_series_dataset {nm}', sorted(r[1].keys()) == [str(i) for i in range(last + 1)], r[1].keys())
        t = W.fs.look(f'{Q}/summary.dat') if W.fs.isfile(f'{Q}/summary.dat') else ''
        ctx.ob('reason-is-reported', f'{PR}:prune_time_series_dataset {nm}', isinstance(t, str) and STOP[ref] in t, str(t)[-60:])


def orders(ctx):
    """Best samples first, ids of files beyond nine, losses in any order, different splits of equal sizes."""
    w = f'{PR}:perform_pruning_step'
    for nm, sc, sh, k, n in (('rising', lambda i: F(i), lambda x, t: x, 2, 16), ('falling', lambda i: F(-i), lambda x, t: x, 3, 16), ('reversed split', lambda i: F(i, 3), lambda x, t: x[::-1], 1, 16), ('mixed', hard, rot, 2, 24),
                             ('many test samples', lambda i: F((i * 11) % 37), rot, 4, 48), ('all', hard, rot, 4, 16), ('nothing', hard, rot, 0, 16)):
        W = World(ctx, n, sc, sh)
        I = W.I
        W.fs._mkdirs('/p')
        dev, un = W.ds(range(n)), W.ds([])
        r = ctx.run('step', f'{w} {nm}', lambda: fun(I, PR, 'perform_pruning_step', '/p', W.params(n_full=n, prun_scheduler_params=pydict(n_prun_sample=k)), dev, un))
        if r is None or len(W.events) != 2:
            continue
        te = W.events[1][1]
        gone = sorted(te, key=sc)[:k]
        ctx.ob('best-predicted-samples-are-pruned', f'{w} {nm}', W.ids(r[2]) == [i for i in range(n) if i not in gone] and sorted(W.ids(r[3])) == sorted(gone), (W.ids(r[3]), gone))


def schedulers(ctx):
    I = ctx.interp()
    w = f'{PR}:get_n_prun_sample'
    for n in (1, 10, 19, 20, 33):
        r = ctx.run('scheduler', w, lambda: fun(I, PR, 'get_n_prun_sample', 'constant', pydict(n_prun_sample=7), PyList([0] * n)))
        ctx.ob('constant-number', f'{w} {n}', r is not None and I.as_int(I.simp(r)) == 7, r)
        for q in (F(1, 4), F(1, 20), F(1, 2)):
            r = ctx.run('scheduler', w, lambda: fun(I, PR, 'get_n_prun_sample', 'proportional', pydict(prun_ratio=Num(C(q))), PyList([0] * n)))
            ctx.ob('proportion-of-the-development-set', f'{w} {n} {q}', r is not None and I.as_int(I.simp(r)) == int(q * n), r)
    refuse(ctx, 'unknown-scheduler-is-refused', w, lambda: fun(I, PR, 'get_n_prun_sample', 'other', pydict(n_prun_sample=7), PyList([0])))


def losses(ctx):
    """Losses are read per sample, in the order of the samples."""
    w = f'{PR}:read_samples_loss_from_dir'
    for ids in ((0, 1, 2), (10, 2, 9, 0, 11), (5,)):
        I = ctx.interp()
        fs = FS(I, dirs=['/pred', '/pred/prediction_metrics', '/empty', '/none'])
        for i in ids:
            fs.write(f'/pred/prediction_sample_{i}.pkl', PyDict([('prediction_loss_data', ('a', 'b', Num(S(f'l{i}')), False)), ('features_out', 3)]))
        fs.write('/pred/summary.dat', 'x')
        fs.write('/pred/prediction_sample_3.txt', 'x')
        fs.write('/none/summary.dat', 'x')
        r = ctx.run('losses', w, lambda: fun(I, PR, 'read_samples_loss_from_dir', '/pred'))
        if r is not None:
            ctx.ob('losses-in-the-order-of-the-samples', f'{w} {ids}', [I.as_int(x) for x in I.iterate(r[0])] == sorted(ids) and all(alg.equal(to_expr(x), S(f'l{i}')) for x, i in zip(I.iterate(r[1]), sorted(ids))), r)
        for d in ('/empty', '/none', '/missing'):
            refuse(ctx, 'missing-predictions-are-refused', f'{w} {d}', lambda: fun(I, PR, 'read_samples_loss_from_dir', d))
        fs.write('/pred/prediction_sample_7.pkl', PyDict([('features_out', 3)]))
        refuse(ctx, 'missing-loss-is-refused', w, lambda: fun(I, PR, 'read_samples_loss_from_dir', '/pred'))


def directories(ctx):
    w = f'{PR}:setup_pruning_dirs'
    W = World(ctx, 16, hard, rot)
    I, fs = W.I, W.fs
    r = ctx.run('directories', w, lambda: fun(I, PR, 'setup_pruning_dirs', Q, ('in_distribution', 'out_distribution', 'unused_data')))
    if r is not None:
        b = f'{Q}/base_datasets'
        t = r[3]
        ctx.ob('directories-of-the-data-sets', w, r[0] == b and r[2] == f'{b}/1_training_dataset' and t.get('in_distribution') == f'{b}/5_testing_id_dataset' and t.get('out_distribution') == f'{b}/6_testing_od_dataset' and t.get('unused_data') is None and fs.isdir(r[1]), t)
    refuse(ctx, 'unknown-testing-is-refused', w, lambda: fun(I, PR, 'setup_pruning_dirs', Q, ('other',)))
    refuse(ctx, 'missing-directory-is-refused', w, lambda: fun(I, PR, 'setup_pruning_dirs', '/nowhere', ()))
    for d, t in (('base_datasets/6_testing_od_dataset', 'out_distribution'), ('base_datasets/5_testing_id_dataset', 'in_distribution'), ('base_datasets/1_training_dataset', None), ('base_datasets', None)):
        fs.rmtree(f'{Q}/{d}')
        refuse(ctx, 'missing-directory-is-refused', f'{w} {d}', lambda: fun(I, PR, 'setup_pruning_dirs', Q, (t,) if t else ()))
    W = World(ctx, 16, hard, rot)
    I, fs = W.I, W.fs
    refuse(ctx, 'missing-data-set-is-refused', f'{PR}:load_full_dataset', lambda: fun(I, PR, 'load_full_dataset', f'{Q}'))
    fs.remove(f'{Q}/base_datasets/5_testing_id_dataset/ss_paths_dataset_n2.pkl')
    refuse(ctx, 'missing-data-set-is-refused', f'{PR}:prune_time_series_dataset', lambda: fun(I, PR, 'prune_time_series_dataset', Q, ('in_distribution',), W.params()))


def summary(ctx):
    """Rows of the summary: sizes and their percentages, losses in their own columns."""
    w = f'{PR}:write_summary_file'
    I = ctx.interp()
    fs = FS(I, dirs=[Q])
    W = World(ctx, 16, hard, rot)
    p = W.params(n_full=40)
    if ctx.run('summary', w, lambda: (fun(I, PR, 'write_summary_file', Q, p, mode='init'), 1)) is None:
        return
    rows = []
    for it, (nd, nt, nv, nu, loss) in enumerate(((40, 30, 10, 0, dict(in_distribution=F(1, 4), out_distribution=F(5, 2), unused_data=None)), (36, 27, 9, 4, dict(in_distribution=F(1, 8), unused_data=F(7, 2))))):
        d = pydict(n_full=40, iter=it, n_dev=nd, n_train=nt, n_valid=nv, n_unused=nu, testing_types_loss=PyDict([(k, None if v is None else Num(C(v))) for k, v in loss.items()]))
        ctx.run('summary', w, lambda: (fun(I, PR, 'write_summary_file', Q, p, mode='iter', mode_data=d), 1))
        q = lambda x: f'{x / 40 * 100:.1f}'
        row = [str(it), str(nd), q(nd), str(nt), q(nt), str(nv), q(nv), str(nu), q(nu)]
        ls = [loss.get(k) for k in ('in_distribution', 'out_distribution', 'unused_data')]
        rows.append((row, ls))
    ctx.run('summary', w, lambda: (fun(I, PR, 'write_summary_file', Q, p, mode='end', mode_data=pydict(termination_status='The end.')), 1))
    t = fs.look(f'{Q}/summary.dat') if fs.isfile(f'{Q}/summary.dat') else None
    if not isinstance(t, str):
        ctx.ob('summary-is-written', w, None if t is not None else False, 'text')
        return
    ctx.ob('summary-is-written', w, 'The end.' in t and '40' in t.split('iterations')[0], '')
    lines = [x for x in t.split('\n') if x.split()[:1] in (['0'], ['1'])]
    ctx.ob('one-row-per-iteration', w, len(lines) == 2, lines)
    for x, (row, ls) in zip(lines, rows):
        tail = x.split()
        cells = [x[len(x) - 14 * (3 - j):len(x) - 14 * (2 - j)].strip() for j in range(3)] if len(x) >= 42 else []
        try:
            ok = [a if '.' not in a else f'{float(a):.1f}' for a in tail[:9]] == row and len(cells) == 3 and all((c == '') if v is None else c != '' and abs(float(c) - v) < 1e-4 * v for c, v in zip(cells, ls))
        except ValueError:
            ok = False
        ctx.ob('row-of-the-iteration', f'{w} {row[0]}', ok, x)
    refuse(ctx, 'unknown-mode-is-refused', w, lambda: fun(I, PR, 'write_summary_file', Q, p, mode='other'))


def preview(ctx):
    """The preview announces the sizes and the reason to end of the procedure itself."""
    w = f'{PR}:preview_pruning_iterations'
    for n, kw in ((16, dict(n_dev_min=11, n_iter_max=50)), (48, dict(n_iter_max=2)), (24, dict(n_iter_max=20, prun_scheduler_params=pydict(n_prun_sample=4), n_prun_test_min=5)), (40, dict(n_iter_max=20, ratio_dev_min=Num(C(F(7, 8))))), (32, dict(n_iter_max=20, prun_scheduler_params=pydict(n_prun_sample=4), prun_test_ratio_max=Num(C(F(3, 5)))))):
        W = World(ctx, n, hard, rot)
        I = W.I
        out = []
        I.stubs['lib:builtins.print'] = lambda I, a, k: out.append(' '.join(x if isinstance(x, str) else str(x) for x in a))
        p = W.params(pruning_step_sizes=pydict(training=Num(C(F(1, 2))), validation=Num(C(F(1, 4))), testing=Num(C(F(1, 4)))), pruning_iter_sizes=pydict(training=Num(C(F(1, 2))), validation=Num(C(F(1, 2)))), **kw)
        if ctx.run('preview', w, lambda: (fun(I, PR, 'preview_pruning_iterations', Q, p), 1)) is None:
            continue
        rows = [x.split() for x in out if len(x.split()) == 9 and x.split()[0].isdigit()]
        r = ctx.run('pruning', w, lambda: fun(I, PR, 'prune_time_series_dataset', Q, ('in_distribution',), p))
        if r is None:
            continue
        # sizes that do not divide are split by the library: only the development and unused sets are compared
        ref = [[str(i)] + [str(I.as_int(I.simp(r[1].get(str(i)).get(k)))) for k in ('n_dev', 'n_unused')] for i in range(len(r[1].keys()))]
        ctx.ob('preview-announces-the-iterations', f'{w} {n}', [[x[0], x[1], x[7]] for x in rows] == ref, ([[x[0], x[1], x[7]] for x in rows][-1:], ref[-1:]))
        pc = lambda x, m: abs(float(x) - 100 * int(m) / n) < 0.051
        ctx.ob('preview-announces-the-percentages', f'{w} {n}', all(pc(x[2], x[1]) and pc(x[4], x[3]) and pc(x[6], x[5]) and pc(x[8], x[7]) and int(x[3]) + int(x[5]) == int(x[1]) for x in rows), rows[-1:])
        t = W.fs.look(f'{Q}/summary.dat')
        end = [x for x in out if 'Termination status' in x]
        ctx.ob('preview-announces-the-reason', f'{w} {n}', len(end) == 1 and isinstance(t, str) and end[0].split(':')[1].strip() == t.split('Termination status:')[1].strip(), end)


def figures(ctx):
    """Figures show sizes and errors of every iteration."""
    w = f'{PR}:plot_pruning_iterative_data'
    I = ctx.interp()
    FS(I, dirs=[Q])
    log = []
    ax = lambda: fake(I, 'Axes', axhline=lambda I, a, k: log.append(('line', a, k)), get_legend_handles_labels=lambda I, a, k: (PyList([]), PyList([])), legend=lambda I, a, k: None)
    I.stubs['ioput.plots.plot_xy_data'] = lambda I, a, k: log.append(('plot', a, k)) or (fake(I, 'Figure'), ax())
    I.stubs['ioput.plots.save_figure'] = lambda I, a, k: log.append(('save', a, k))
    it = PyDict()
    for i in range(2):
        it.set(str(i), pydict(n_full=40, iter=i, n_dev=40 - 4 * i, n_train=30 - 3 * i, n_valid=10 - i, n_unused=4 * i, testing_types_loss=pydict(in_distribution=Num(S(f'loss{i}')), out_distribution=Num(S(f'oloss{i}'))),
                              testing_types_avg_nrmse=pydict(in_distribution=Num(S(f'err{i}')), out_distribution=Num(S(f'oerr{i}')))))
    types = ('in_distribution', 'out_distribution')
    if ctx.run('figures', w, lambda: (fun(I, PR, 'plot_pruning_iterative_data', Q, pydict(n_full=40), types, it, save_dir=Q, is_save_fig=True), 1)) is None:
        return
    last, by = None, {}
    for e in log:
        if e[0] == 'plot':
            last = e
        elif e[0] == 'save':
            by[e[1][1] if len(e[1]) > 1 else e[2]['filename']] = ex(last[1][0])
    v = by.get('pruning_iterations_dataset_sizes')
    ref = [[C(i), C(F(40 - 4 * i, 40) * 100), C(i), C(F(30 - 3 * i, 40) * 100), C(i), C(F(10 - i, 40) * 100), C(i), C(F(4 * i, 40) * 100)] for i in range(2)]
    close = lambda a, b: alg.equal(a, b) or (a.is_const() and b.is_const() and abs(a.fval() - b.fval()) < 1e-9)
    ctx.ob('figure-of-the-sizes', w, v is not None and len(v) == 2 and all(len(a) == 8 and all(close(x, y) for x, y in zip(a, b)) for a, b in zip(v, ref)), v)
    for t, e in (('in_distribution', 'err'), ('out_distribution', 'oerr')):
        v = by.get(f'pruning_testing_convergence_{t}')
        ctx.ob('figure-of-the-errors', f'{w} {t}', v is not None and len(v) == 2 and all(close(r[0], C(F(40 - 4 * i, 40) * 100)) and alg.equal(r[1], S(f'{e}{i}')) for i, r in enumerate(v)), v)
    v = by.get('pruning_testing_convergence')
    ctx.ob('figure-of-all-errors', w, v is not None and all(len(r) == 4 and alg.equal(r[1], S(f'err{i}')) and alg.equal(r[3], S(f'oerr{i}')) for i, r in enumerate(v)), v)
