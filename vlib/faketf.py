"""Stand-in for tensorflow: shape of the API the repository uses, with the neural networks replaced by an oracle.

Layers are symbolic: a tensor knows the inputs it is computed from, an embedding its size, a dense layer its number of units, so that
the declared structure of a model can be read back (C36).  `predict` is answered by the oracle, an object with tags(char, word),
deps(tags, char, word), trans(tags, deps, char, word, mask1, mask2), each returning class probabilities (which network is asked is
told by the number of inputs), or with network(model, inputs), which is then asked whatever the inputs.  `fit` goes to
oracle.fit(model, inputs, labels, options) if there is one.  Weights are written to and read from the path given.
"""
import contextlib
import itertools
import os
import sys
import types

import numpy as np

NB_TAGS, NB_DEPS, NB_TRANS = 17, 25, 4


class Oracle(object):
    """Default: everything is class 1"""

    def tags(self, char, word):
        return one_hot(np.ones(char.shape[:2], dtype=int), NB_TAGS)

    def deps(self, tags, char, word):
        return one_hot(np.ones(char.shape[:2], dtype=int), NB_DEPS)

    def trans(self, tags, deps, char, word, mask1, mask2):
        return one_hot(np.ones(len(char), dtype=int), NB_TRANS)


def one_hot(codes, size, low=None):
    codes = np.asarray(codes, dtype=int)
    out = np.full(codes.shape + (size,), 0.1 / size, dtype=np.float32)
    if codes.size:
        # The other class is close behind, sometimes very close
        others = np.where(codes > 0, codes - 1, 1)[..., None]
        margins = np.array([.3, .01, .0001], dtype=np.float32)[np.arange(codes.size).reshape(codes.shape) % 3][..., None]
        np.put_along_axis(out, others, np.float32(.47) - margins, axis=-1)
        np.put_along_axis(out, codes[..., None], np.float32(.47), axis=-1)
    return out


class _Holder(object):
    oracle = Oracle()
    calls = 0


def set_oracle(oracle):
    _Holder.oracle = oracle


# Symbolic graphs --------------------------------------------------------------------

_ids = itertools.count()


class Tensor(object):
    """inputs: the input tensors it depends on; sizes: {input: set of embedding sizes}; units: of the last dense layer"""

    def __init__(self, parents=(), units=None, shape=None, dtype=None):
        self.id = next(_ids)
        self.declared_shape, self.dtype = shape, dtype
        self.units = units
        self.inputs = set()
        self.embeddings = {}
        for p in parents:
            self.inputs |= p.inputs
            for i, sizes in p.embeddings.items():
                self.embeddings.setdefault(i, set()).update(sizes)
        if shape is not None:
            self.inputs = {self.id}

    def __getitem__(self, item):
        return Tensor([self], self.units)

    def _op(self, *others):
        return Tensor([self] + [o for o in others if isinstance(o, Tensor)], self.units)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __matmul__ = __neg__ = _op

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'shape':
            return (None,)
        return lambda *a, **k: Tensor([self] + tensors((a, k)), self.units)


def tensors(obj):
    """All tensors in nested arguments"""
    if isinstance(obj, Tensor):
        return [obj]
    if isinstance(obj, dict):
        return [t for v in obj.values() for t in tensors(v)]
    if isinstance(obj, (list, tuple)):
        return [t for v in obj for t in tensors(v)]
    return []


class Layer(object):

    def __init__(self, name, args, kwargs):
        self.kind, self.args, self.kwargs = name, args, kwargs
        inner = [a for a in list(args) + list(kwargs.values()) if isinstance(a, Layer)]
        self.units = inner[-1].units if inner else None
        if name == 'Dense':
            self.units = kwargs.get('units', args[0] if args else None)

    def __call__(self, *args, **kwargs):
        parents = tensors((args, kwargs))
        keep = self.units if self.units is not None else parents[0].units if parents and self.kind in ('Activation', 'Softmax', 'Dropout', 'Masking') else None
        out = Tensor(parents, keep)
        if self.kind == 'Embedding':
            size = self.kwargs.get('input_dim', self.args[0] if self.args else None)
            for p in parents:
                for i in p.inputs:
                    out.embeddings.setdefault(i, set()).add(size)
        return out

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: Tensor(tensors((a, k)))


def _input(shape=None, batch_size=None, name=None, dtype=None, **kwargs):
    return Tensor(shape=tuple(shape or ()), dtype=dtype)


class Model(object):

    def __init__(self, inputs=None, outputs=None, *args, **kwargs):
        self._in, self.outputs = inputs, tensors(outputs)
        self.inputs = tensors(inputs)
        self.compiled = {}
        self.weights_id = 'w%d' % next(_ids)

    @property
    def input(self):
        return self.inputs[0] if len(self.inputs) == 1 else list(self.inputs)

    @property
    def output(self):
        return self.outputs[0] if len(self.outputs) == 1 else list(self.outputs)

    def compile(self, *args, **kwargs):
        self.compiled = dict(kwargs)

    def __call__(self, *args, **kwargs):
        found = tensors((args, kwargs))
        if found:
            return Tensor(found + self.outputs, self.outputs[-1].units if self.outputs else None)
        return self.predict(*args)

    def predict(self, x, *args, **kwargs):
        inputs = [np.asarray(i) for i in (list(x.values()) if isinstance(x, dict) else list(x))]
        _Holder.calls += 1
        sizes = {len(i) for i in inputs}
        if len(sizes) != 1:
            raise ValueError('Data cardinality is ambiguous: %s' % sizes)
        if hasattr(_Holder.oracle, 'network'):
            return _Holder.oracle.network(self, inputs)
        if len(inputs) == 2:
            return _Holder.oracle.tags(*inputs)
        if len(inputs) == 3:
            return _Holder.oracle.deps(*inputs)
        if len(inputs) == 6:
            return _Holder.oracle.trans(*inputs)
        raise ValueError('unexpected number of inputs: %d' % len(inputs))

    predict_on_batch = predict

    def fit(self, x=None, y=None, **kwargs):
        inputs = [np.asarray(i) for i in (list(x.values()) if isinstance(x, dict) else list(x))]
        return _Holder.oracle.fit(self, inputs, np.asarray(y), kwargs)

    def save_weights(self, path, *args, **kwargs):
        with open(path, 'wb') as f:
            f.write(self.weights_id.encode())

    def load_weights(self, path, *args, **kwargs):
        if not os.path.exists(path):
            if getattr(_Holder.oracle, 'strict', False):
                raise OSError('Unable to open file: %s' % path)
            return
        with open(path, 'rb') as f:
            self.weights_id = f.read().decode()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Callback(object):

    def __init__(self, name, args, kwargs):
        self.kind, self.args, self.kwargs = name, args, kwargs


def _layers_attr(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if name == 'Input':
        return _input
    if name[0].islower():
        return lambda *a, **k: Tensor(tensors((a, k)))
    return lambda *a, **k: Layer(name, a, k)


def _callbacks_attr(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return lambda *a, **k: Callback(name, a, k)


def _tf_attr(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return lambda *a, **k: Tensor(tensors((a, k)))


def install():
    if getattr(sys.modules.get('tensorflow'), '_is_verif_fake', False):
        return
    tf = types.ModuleType('tensorflow')
    tf._is_verif_fake = True
    keras = types.ModuleType('tensorflow.keras')
    layers = types.ModuleType('tensorflow.keras.layers')
    callbacks = types.ModuleType('tensorflow.keras.callbacks')
    models = types.ModuleType('tensorflow.keras.models')
    layers.__getattr__ = _layers_attr
    callbacks.__getattr__ = _callbacks_attr
    models.Model = keras.Model = Model
    keras.Input = _input
    keras.layers, keras.callbacks, keras.models = layers, callbacks, models
    tf.keras = keras
    tf.int32, tf.int64, tf.float32, tf.float64, tf.bool = 'int32', 'int64', 'float32', 'float64', 'bool'

    @contextlib.contextmanager
    def device(name):
        yield name

    tf.device = device
    tf.__getattr__ = _tf_attr
    keras.__getattr__ = _tf_attr
    for module in (tf, keras, layers, callbacks, models):
        sys.modules[module.__name__] = module
