"""Constant tables printed by the specification."""
import json
import os

import numpy as np

import tlc

_cache = {}


def raw():
    if 'raw' not in _cache:
        res = tlc.check('GateTables', {}, workers='1')
        _cache['raw'] = {(r['n'], tuple(r['p'])): r for r in res}
    return _cache['raw']


def matrix(r):
    from pq import ZETA

    def el(ts):
        return sum(c * (ZETA[k % 16] if k % 16 < 8 else -ZETA[k % 16 - 8]) for c, k in ts)

    m = np.array([[el(ts) for ts in row] for row in r['m']['e']], dtype=complex)
    return m / (2.0 ** r['m']['d2'] * 5.0 ** r['m']['d5'])


def user_matrices():
    out = {}
    for (n, p), r in raw().items():
        if n in ('M1', 'M2a', 'M2b', 'M3', 'M4', 'M5'):
            out[n] = matrix(r)
    return out
