"""Loads the package of the working tree (cwd) with a scratch data directory and stand-ins for the neural networks."""
import atexit
import contextlib
import importlib.util
import os
import pathlib
import pickle
import shutil
import sys
import tempfile
import types
import unittest.mock

import numpy as np

sys.dont_write_bytecode = True
ROOT = os.getcwd()
DATA = pathlib.Path(tempfile.mkdtemp(prefix='sbdemo_'))
_OWNER = os.getpid()


def _clean():
    if os.getpid() == _OWNER:
        shutil.rmtree(DATA, ignore_errors=True)


atexit.register(_clean)
PKG = os.path.join(ROOT, 'scrappybara')
shutil.copytree(os.path.join(PKG, 'data', 'english'), DATA / 'english')
(DATA / 'langmodel').mkdir()
(DATA / 'models').mkdir()
shutil.copy(os.path.join(PKG, 'data', 'models', 'char_codes.pkl'), DATA / 'models')
shutil.copy(os.path.join(PKG, 'data', 'langmodel', '1_grams.txt'), DATA / 'langmodel')
(DATA / 'langmodel' / '2_grams.txt').write_text('')
with open(DATA / 'models' / 'word_vectors.pkl', 'wb') as f:
    pickle.dump({}, f)

# Networks: answers by the encoded characters of the sentence
TAGS, DEPS, TRANS = {}, {}, {}


def _predict(inputs, *args, **kwargs):
    inputs = [np.asarray(i) for i in inputs]
    chars = inputs[{2: 0, 3: 1, 6: 2}[len(inputs)]]
    out = []
    for i, row in enumerate(chars):
        key = row.astype(np.int32).tobytes()
        if len(inputs) == 6:
            pair = int(inputs[4][i].argmax()) - 1, int(inputs[5][i].argmax()) - 1
            out.append(np.eye(4)[TRANS[key][pair]])
        else:
            codes = (TAGS if len(inputs) == 2 else DEPS)[key]
            out.append(np.eye(30)[[0] + codes + [0] * (51 - len(codes))])
    return np.array(out)


def _model(*args, **kwargs):
    model = unittest.mock.MagicMock()
    model.predict = _predict
    return model


tf = types.ModuleType('tensorflow')
_any = unittest.mock.MagicMock()
tf.keras = types.SimpleNamespace(Model=_model, layers=_any.layers, callbacks=_any.callbacks)
tf.device = lambda name: contextlib.nullcontext(name)
tf.__getattr__ = lambda name: getattr(_any, name)
sys.modules['tensorflow'] = tf

sys.path[:] = [ROOT] + [p for p in sys.path if p not in ('', ROOT)]
_spec = importlib.util.spec_from_file_location('scrappybara.config', os.path.join(PKG, 'config.py'))
cfg = importlib.util.module_from_spec(_spec)
sys.modules['scrappybara.config'] = cfg
_spec.loader.exec_module(cfg)
cfg.DATA_DIR = DATA
import scrappybara as sb
sb.config = cfg
from scrappybara.syntax.labelled_data import LabelledSentence
from scrappybara.syntax.tags import Tag


def grams(order, lines):
    """lines: list of (text, count, proba)"""
    with open(DATA / 'langmodel' / ('%d_grams.txt' % order), 'w', encoding='utf-8') as f:
        for text, count, proba in sorted(lines, key=lambda x: -x[2]):
            f.write('%s\t%d\t%.17f\n' % (text, count, proba))


def learn(*sentences):
    """The networks answer these annotated sentences"""
    from scrappybara.syntax.charset import Charset
    from scrappybara.syntax.wordset import Wordset
    from scrappybara.syntax.training_samples import vectorize_sentence
    for tuples in sentences:
        sent = LabelledSentence(0, tuples)
        _, chars, _ = vectorize_sentence([t[0] for t in tuples], Charset().load(), Wordset().load())
        key = np.asarray(chars, dtype=np.int32).tobytes()
        TAGS[key] = [int(t) for t in sent.tags]
        DEPS[key] = [int(d) for d in sent.deps]
        TRANS[key] = {(a, b): int(t) for a, b, t in sent.transitions}


def words(tuples):
    return ' '.join(t[0] for t in tuples)


_logic = []


def stuples(tuples):
    """Sorted tuples of one annotated sentence"""
    if not _logic:
        from scrappybara.langmodel.language_model import LanguageModel
        from scrappybara.pipeline.logic_pipeline import LogicPipeline
        _logic.append(LogicPipeline(LanguageModel(1, 1)))
    return sorted(map(str, _logic[0].test_sample(tuples)))


def same(expected, observed):
    if expected != observed:
        print('expected', expected)
        print('observed', observed)
        sys.exit(1)
