"""Networks: what they are trained on, what they are asked, what is read from their answers, where their weights go."""
import os
import random

import numpy as np

from vlib import boot, faketf, gen_trees as gt, models as M
from vlib.core import Kind

RULE = ('The three models over symbolic layers; random annotated sentences give training data, which is learnt (any batch size, patience, number of epochs, with or without validation) and asked back '
        'in batches of any size; the arrays that reach the network are compared with the data and with the declared inputs. Random probability tables (ties included) answer. '
        'Random histories of saves and loads of the three kinds of model. Non-trivial: at least two samples and two kinds of model in the case.')
REQUIRE = {'fits': 1500, 'predictions': 1500, 'classes_read': 100000, 'ties': 1000, 'loads': 3000, 'missing_weights': 100, 'distinct_nontrivial': 400, 'validated': 300, 'extreme_codes': 300, 'large_batches': 60}
ANCHORS = ['syntax/models.py', 'syntax/training_samples.py', 'syntax/labelled_data.py']
ASSUMPTIONS = ['tensorflow is a symbolic stand-in: the layers record what they are connected to, the networks answer tables chosen by the monitor']

KINDS_OF_MODEL = ['tags', 'deps', 'trans']
CLASSES = {'tags': 17, 'deps': 25, 'trans': 4}


class _Network(object):
    """Records, and answers what it was told to"""
    strict = True

    def __init__(self):
        self.asked, self.learnt, self.answer, self.history = [], [], None, {}

    def network(self, model, inputs):
        self.asked.append((model, inputs))
        return self.answer(inputs)

    def fit(self, model, inputs, labels, options):
        self.learnt.append((model, inputs, labels, options))

        class History(object):
            history = {k: list(v) for k, v in self.history.items()}
        return History()


def _models():
    from scrappybara.syntax.models import PDepsModel, PTagsModel, TransModel
    return {'tags': PTagsModel, 'deps': PDepsModel, 'trans': TransModel}


def _gen(rng, ctx):
    samples = [gt.annotated(rng) for _ in range(rng.choice([1, 2, 3, 5]))]
    return {'samples': samples, 'seed': rng.randint(0, 10 ** 6), 'kinds': rng.sample(KINDS_OF_MODEL, rng.randint(1, 3)), 'vectors': {r[0].lower(): rng.randint(0, 10 ** 6) for s in samples for r in s if rng.random() < .5},
            'options': [rng.choice([1, 8, 32, 128, 512, 4096]), rng.choice([0, 1, 3, 10]), rng.choice([1, 2, 7, 100])], 'split': rng.choice([0., 0., 0.1, 0.2, .5, .01, .001, .05, .99, rng.random()]),
            'accuracy': [round(rng.random(), 6) for _ in range(rng.randint(1, 6))], 'val_accuracy': [round(rng.random(), 6) for _ in range(rng.randint(1, 6))], 'extreme': rng.random() < .5}


def _fits_declared(ctx, model, inputs, labels, kind, info):
    """The arrays are what the declared inputs of the model accept"""
    ctx.equal(len(model.inputs), len(inputs), 'number of inputs of the network', **info)
    out = model.outputs[-1]
    ctx.equal(CLASSES[kind], out.units, 'classes the network can answer', **info)
    for k, (declared, array) in enumerate(zip(model.inputs, inputs)):
        ctx.equal(declared.declared_shape, array.shape[1:], 'shape of input %d' % k, **info)
        ctx.check(declared.id in out.inputs, 'the answer of the network does not depend on input %d' % k, **info)
        if 'int' in str(declared.dtype):
            ctx.check(array.dtype.kind in 'iub', 'type of input %d' % k, dtype=str(array.dtype), **info)
        elif 'bool' in str(declared.dtype):
            ctx.check(array.dtype.kind == 'b', 'type of input %d' % k, dtype=str(array.dtype), **info)
        sizes = out.embeddings.get(declared.id)
        if sizes:
            ctx.check(array.min() >= 0 and array.max() < min(sizes), 'codes of input %d are outside of the embedding' % k, largest=int(array.max()), sizes=sorted(sizes), **info)
    if labels is not None:
        ctx.check(labels.min() >= 0 and labels.max() < CLASSES[kind], 'labels outside of the classes', **info)


def _same_arrays(ctx, want, got, what, info):
    ctx.equal(len(want), len(got), 'number of arrays, ' + what, **info)
    for k, (a, b) in enumerate(zip(want, got)):
        ctx.check(a.shape == b.shape and np.array_equal(a, b), 'array %d, %s' % (k, what), **info)


def _check(ctx, case):
    from scrappybara.syntax.charset import Charset
    from scrappybara.syntax.labelled_data import extract_pdeps_training_data, extract_ptags_training_data, extract_trans_training_data
    from scrappybara.syntax.wordset import Wordset
    classes = _models()
    vectors = {w: np.random.RandomState(s).uniform(-1, 1, M.DIM).astype(np.float32) for w, s in case['vectors'].items()}
    M.set_word_vectors(vectors)
    charset, wordset = Charset().load(), Wordset().load()
    tuples = [[tuple(r) for r in s] for s in case['samples']]
    extract = {'tags': extract_ptags_training_data, 'deps': extract_pdeps_training_data, 'trans': extract_trans_training_data}
    np_rng = np.random.RandomState(case['seed'])
    oracle = _Network()
    faketf.set_oracle(oracle)
    for kind in case['kinds']:
        random.seed(case['seed'])
        data = extract[kind](tuples, charset, wordset)
        if not data:
            continue
        info = {'model': kind}
        if case['extreme']:
            # Rows with every tag, dependency and character code there can be
            row = [np.array(c[0]) for c in data]
            at = 0
            if kind != 'tags':
                row[0] = np.arange(52) % 17
                at = 1
            if kind == 'trans':
                row[1] = np.arange(52) % 25
                at = 2
            row[at] = np.arange(52 * 22).reshape(52, 22) % len(charset)
            if kind != 'trans':
                row[-1] = np.arange(52) % CLASSES[kind]
            data = [list(c) + [r] for c, r in zip(data, row)]
            ctx.count('extreme_codes')
        inputs, labels = [np.array(c) for c in data[:-1]], np.array(data[-1])
        # Learn
        size, patience, epochs = case['options']
        split = case['split']
        oracle.history = {'accuracy': case['accuracy'], 'loss': [2.] * len(case['accuracy'])}
        if split:
            oracle.history.update(val_accuracy=case['val_accuracy'], val_loss=[3.] * len(case['val_accuracy']))
            ctx.count('validated')
        model = classes[kind](len(charset))
        del oracle.learnt[:]
        score = model.learn(size, patience, epochs, data[-1], split, *data[:-1])
        ctx.equal(1, len(oracle.learnt), 'trainings', **info)
        network, got, y, options = oracle.learnt[0]
        _same_arrays(ctx, inputs, got, 'training', info)
        ctx.check(y.shape == labels.shape and np.array_equal(y, labels), 'labels of the training', **info)
        _fits_declared(ctx, network, got, y, kind, info)
        ctx.equal([size, epochs, split], [options.get('batch_size'), options.get('epochs'), options.get('validation_split')], 'options of the training', **info)
        metric = 'val_accuracy' if split else 'accuracy'
        ctx.check(abs(score - max(oracle.history[metric]) * 100) < 1e-9, 'accuracy reported', expected=max(oracle.history[metric]) * 100, observed=score, **info)
        stops = [c for c in options.get('callbacks') or [] if getattr(c, 'kind', '') == 'EarlyStopping']
        ctx.equal(1, len(stops), 'early stops', **info)
        stop = stops[0]
        ctx.equal((metric, patience, True), (stop.kwargs.get('monitor', (stop.args or [None])[0]), stop.kwargs.get('patience'), stop.kwargs.get('restore_best_weights')), 'early stop', **info)
        ctx.check(stop.kwargs.get('mode', 'auto') in ('max', 'auto'), 'early stop in the wrong direction', **info)
        ctx.check('crossentropy' in str(network.compiled.get('loss')) and 'sparse' in str(network.compiled.get('loss')), 'loss for class codes', **info)
        ctx.count('fits')
        # Ask about the same samples, in batches
        n = len(labels)
        step = np_rng.choice([1, 2, 3, 7, n])
        if case['seed'] % 12 == 0:
            # A batch larger than the default size
            big = np_rng.choice([129, 200, 300, 520, 1030])
            data = [(list(c) * (big // n + 1))[:big] for c in data]
            n = step = big
            ctx.count('large_batches')
        for start in range(0, n, step):
            batch = [c[start:start + step] for c in data[:-1]]
            shape = (len(batch[0]), CLASSES[kind]) if kind == 'trans' else (len(batch[0]), 52, CLASSES[kind])
            table = np_rng.randint(0, np_rng.choice([3, 50, 10 ** 6]), shape).astype(np.float32)
            if np_rng.rand() < .3:
                table = (.5 + table / 2 ** 24).astype(np.float32)  # close to one another
            oracle.answer = lambda _: table.copy()
            del oracle.asked[:]
            answer = model.predict(*batch)
            ctx.equal(1, len(oracle.asked), 'questions to the network', **info)
            _same_arrays(ctx, [np.array(b) for b in batch], oracle.asked[0][1], 'prediction', info)
            ctx.check(oracle.asked[0][0] is network, 'another network is asked', **info)
            _fits_declared(ctx, network, oracle.asked[0][1], None, kind, info)
            got = np.array(answer)
            ctx.equal(shape[:-1], got.shape, 'shape of the classes read', **info)
            best = table.max(axis=-1)
            picked = np.take_along_axis(table, got[..., None].astype(int), axis=-1)[..., 0]
            ctx.check(np.array_equal(best, picked), 'a class that is not the most probable', **info)
            ctx.count('classes_read', int(got.size))
            ctx.count('ties', int(((table == best[..., None]).sum(axis=-1) > 1).sum()))
            ctx.count('predictions')
    if len(case['kinds']) > 1 and len(tuples) > 1:
        ctx.nontrivial([case['samples'], case['kinds']])
        ctx.sample({'kinds': case['kinds'], 'options': case['options'], 'first': case['samples'][0]})


def _gen_weights(rng, ctx):
    return {'steps': [[rng.choice(['save', 'load', 'load', 'new']), rng.choice(KINDS_OF_MODEL), rng.randint(0, 2)] for _ in range(rng.randint(5, 40))]}


def _check_weights(ctx, case):
    """Each kind of model reads back what a model of the same kind saved last"""
    classes = _models()
    oracle = _Network()
    oracle.answer = lambda inputs: np.zeros((len(inputs[0]),) + ((4,) if len(inputs) == 6 else (52, 17 if len(inputs) == 2 else 25)))
    faketf.set_oracle(oracle)
    root = os.path.join(str(boot.data_dir()), 'models')
    kept = {}
    for name in os.listdir(root):
        if name not in ('char_codes.pkl', 'word_vectors.pkl'):
            with open(os.path.join(root, name), 'rb') as f:
                kept[name] = f.read()
            os.remove(os.path.join(root, name))

    def network(kind, model):
        zeros = {'tags': [], 'deps': [np.zeros((1, 52), int)], 'trans': [np.zeros((1, 52), int)] * 2}[kind]
        args = zeros + [np.zeros((1, 52, 22), int), np.zeros((1, 52, 100), np.float32)]
        if kind == 'trans':
            args += [np.zeros((1, 52), bool)] * 2
        del oracle.asked[:]
        model.predict(*args)
        return oracle.asked[0][0].weights_id

    try:
        pool = {(k, i): classes[k](101) for k in KINDS_OF_MODEL for i in range(3)}
        want = {key: network(key[0], m) for key, m in pool.items()}
        saved = {}
        for step, kind, i in case['steps']:
            key = (kind, i)
            if step == 'new':
                pool[key] = classes[kind](101)
                want[key] = network(kind, pool[key])
            elif step == 'save':
                pool[key].save()
                saved[kind] = want[key]
            elif kind not in saved:
                try:
                    pool[key].load()
                except Exception:
                    ctx.count('missing_weights')
                else:
                    ctx.fail('weights that were never saved are loaded', model=kind)
            else:
                got = pool[key].load()
                ctx.check(got is pool[key], 'load gives another object', model=kind)
                want[key] = saved[kind]
                ctx.count('loads')
            for k, m in pool.items():
                ctx.equal(want[k], network(k[0], m), 'weights of a model after %s' % step, model=k)
        ctx.equal(len(saved), len([n for n in os.listdir(root) if n not in ('char_codes.pkl', 'word_vectors.pkl')]), 'files of weights')
        ctx.seen('distinct_nontrivial', case['steps'])
    finally:
        for name in os.listdir(root):
            if name not in ('char_codes.pkl', 'word_vectors.pkl'):
                os.remove(os.path.join(root, name))
        for name, data in kept.items():
            with open(os.path.join(root, name), 'wb') as f:
                f.write(data)


KINDS = {'data': Kind(_gen, _check, 2400, 20000), 'weights': Kind(_gen_weights, _check_weights, 1600, 10000)}
