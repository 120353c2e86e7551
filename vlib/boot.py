"""Loads the real code of /repo in this process.

Two things are replaced, both outside the code under test:
  * `tensorflow` is a stand-in (vlib.faketf): the trained weights are not in the repository, so the three neural
    models are played by deterministic oracles the harness controls.
  * the data directory is a scratch directory owned by the check (copies of the committed tables plus synthetic language
    models, word vectors), so nothing is ever written under /repo.
"""
import importlib.util
import os
import pathlib
import pickle
import shutil
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'scrappybara')

_state = {}


class HarnessError(Exception):
    """The harness itself could not do its job: the verdict is 'inconclusive', never a violation"""


def scratch_root():
    base = os.environ.get('SBV_SCRATCH')
    if base:
        return base
    path = tempfile.mkdtemp(prefix='sbv_')
    os.environ['SBV_SCRATCH'] = path
    _state['own_scratch'] = path
    return path


def cleanup():
    path = _state.get('own_scratch')
    if path:
        shutil.rmtree(path, ignore_errors=True)


def data_dir():
    return _state['data_dir']


def boot():
    """Idempotent"""
    if 'sb' in _state:
        return _state['sb']
    sys.dont_write_bytecode = True
    if not os.path.isdir(PKG):
        raise HarnessError('no package at %s' % PKG)
    ddir = pathlib.Path(tempfile.mkdtemp(prefix='data_', dir=scratch_root()))
    _state['data_dir'] = ddir
    shutil.copytree(os.path.join(PKG, 'data', 'english'), ddir / 'english')
    (ddir / 'langmodel').mkdir()
    (ddir / 'models').mkdir()
    shutil.copy(os.path.join(PKG, 'data', 'models', 'char_codes.pkl'), ddir / 'models')
    shutil.copy(os.path.join(PKG, 'data', 'langmodel', '1_grams.txt'), ddir / 'langmodel')
    (ddir / 'langmodel' / '2_grams.txt').write_text('')
    with open(ddir / 'models' / 'word_vectors.pkl', 'wb') as f:
        pickle.dump({}, f)
    for name in ('ptags', 'pdeps', 'trans'):
        (ddir / 'models' / ('%s_weights.h5' % name)).write_bytes(b'')
    from vlib import faketf
    faketf.install()
    sys.path[:] = [REPO] + [p for p in sys.path if p not in ('', REPO)]
    # Config first, so that every module of the package sees the scratch data directory
    spec = importlib.util.spec_from_file_location('scrappybara.config', os.path.join(PKG, 'config.py'))
    cfg = importlib.util.module_from_spec(spec)
    sys.modules['scrappybara.config'] = cfg
    spec.loader.exec_module(cfg)
    cfg.DATA_DIR = ddir
    import scrappybara
    scrappybara.config = cfg
    if not os.path.realpath(scrappybara.__file__).startswith(os.path.realpath(PKG)):
        raise HarnessError('scrappybara was imported from %s' % scrappybara.__file__)
    _state['sb'] = scrappybara
    return scrappybara
