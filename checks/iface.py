"""Shared pieces of the checks on the regression interface."""
import contextlib

import pandas as pd
import polars as pl

from .mcmc import *
from bartz import BART, mcmcloop, prepcovars

gbart = BART.gbart
STATE = ('X', 'y', 'resid', 'sigma2', 'p_nonterminal', 'sigma2_alpha', 'sigma2_beta', 'max_split', 'min_points_per_leaf',
         'leaf_trees', 'var_trees', 'split_trees')
TABLE = '_table'


def table_step(bart, key):
    """ the t-th state has the t-th trees and variance of a table """
    t = bart['grow_prop_count']
    tab = bart[TABLE]
    return dict(bart, leaf_trees=tab['leaf'][t].astype(bart['leaf_trees'].dtype), var_trees=tab['var'][t].astype(bart['var_trees'].dtype),
                split_trees=tab['split'][t].astype(bart['split_trees'].dtype), sigma2=tab['sigma2'][t].astype(bart['sigma2'].dtype), grow_prop_count=t + 1)


@contextlib.contextmanager
def patched():
    """
    the sampling step is replaced by one that takes the trees and the variance from a table (arbitrary values); what
    the sampler is started with is recorded
    """
    step, loop = mcmcstep.step, mcmcloop.run_mcmc
    mods = [m for m in (mcmcloop, BART)]
    alias = [(m, n) for m in mods for n, v in list(vars(m).items()) if v is step or v is loop]
    if (mcmcloop, 'run_mcmc') not in alias:
        alias.append((mcmcloop, 'run_mcmc'))

    def run_mcmc(bart, *args, **kw):
        CALLS.append((bart, args, kw))
        return loop(dict(bart, **{TABLE: CALLS.table}), *args, **kw)
    mcmcstep.step = table_step
    saved = [(m, n, getattr(m, n)) for m, n in alias]
    for m, n in alias:
        setattr(m, n, table_step if getattr(m, n) is step else run_mcmc)
    jax.clear_caches()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        mcmcstep.step = step
        for m, n, v in saved:
            setattr(m, n, v)
        jax.clear_caches()


class Calls(list):
    table = None


CALLS = Calls()


def fit(table, *args, **kw):
    """ real constructor; returns the regression object and the initial state of the sampler """
    CALLS.clear()
    CALLS.table = table
    bart = gbart(*args, **kw)
    if len(CALLS) != 1:
        raise C.Unsupported('the MCMC loop was not called exactly once')
    state, a, k = CALLS[0]
    return bart, {f: state[f] for f in state if f != TABLE and f != 'opt' and state[f] is not None}, (a, k)


def table_inputs(T, nt, d, p, maxsplit, sigma=True, concrete=False):
    h = 2 ** (d - 1)
    if concrete:
        rng = np.random.default_rng(0)
        sp = rng.integers(0, maxsplit + 1, (T, nt, h))
        sp[..., 0] = 0
        return dict(leaf=rng.normal(size=(T, nt, 2 * h)).astype(np.float32), var=rng.integers(0, p, (T, nt, h)).astype(np.uint8),
                    split=sp.astype(np.uint8), sigma2=rng.uniform(.5, 2, T).astype(np.float32))
    var, split = (I.oempty((T, nt, h)) for _ in range(2))
    for i in np.ndindex(T, nt, h):
        var[i] = C.ivar(run.nm('tvar', i), DT(np.uint8), 0, p - 1) if i[-1] else 0
        split[i] = C.ivar(run.nm('tsplit', i), DT(np.uint8), 0, maxsplit) if i[-1] else 0
    return dict(leaf=run.sym_real('tleaf', (T, nt, 2 * h)), var=SA(DT(np.uint8), var), split=SA(DT(np.uint8), split),
                sigma2=run.sym_real('tsigma2', (T,), pos=True))


def forests(table):
    L, V, S = reals(table['leaf']), ints(table['var']), ints(table['split'])
    return [[Tree(V[t, j], S[t, j], L[t, j]) for j in range(L.shape[1])] for t in range(L.shape[0])]


def saved(ndpost, nskip, keepevery):
    """ index in the table of the saved samples """
    return [nskip + (j + 1) * keepevery - 1 for j in range(ndpost)]


def scalar(x):
    """ a number as an array, for the outputs of the traced function """
    return jnp.asarray(x, jnp.float32) if not isinstance(x, jax.Array) else x


# ------------------------------------------------ data frames that contain traced values


class PandasFrame(pd.DataFrame):
    """ a pandas data frame, with placeholders, that is converted to an array of traced values """
    @property
    def _constructor(self):
        return PandasFrame

    def to_numpy(self, *a, **k):
        return object.__getattribute__(self, '_traced')

    @property
    def values(self):
        return self.to_numpy()


def pandas_frame(x, columns=None):
    """ x: array (p, n) """
    f = PandasFrame(np.zeros(x.shape[::-1]), columns=columns or [f'v{i}' for i in range(x.shape[0])])
    object.__setattr__(f, '_traced', x.T)
    return f


class PandasSeries(pd.Series):
    def to_numpy(self, *a, **k):
        return object.__getattribute__(self, '_traced')

    @property
    def values(self):
        return self.to_numpy()


def pandas_series(y, name='y'):
    s = PandasSeries(np.zeros(len(y)), name=name)
    object.__setattr__(s, '_traced', y)
    return s


class PolarsFrame(pl.DataFrame):
    def to_numpy(self, *a, **k):
        return self._traced

    to_jax = to_numpy


def polars_frame(x, columns=None):
    f = PolarsFrame(np.zeros(x.shape[::-1]), schema=columns or [f'v{i}' for i in range(x.shape[0])])
    f._traced = x.T
    return f


class PolarsSeries(pl.Series):
    def to_numpy(self, *a, **k):
        return self._traced

    to_jax = to_numpy


def polars_series(y, name='y'):
    s = PolarsSeries(name, np.zeros(len(y)))
    s._traced = y
    return s
