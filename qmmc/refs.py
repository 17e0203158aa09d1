"""Reference models (plain, slow, independent of the code under test)."""

import math

import numpy as np


def migrate_ref(onsets, traveltimes, first, last, available):
    """Geometric-mean stack straight from the definition."""
    k, t = onsets.shape
    n = t - first - last
    logs = np.log(np.maximum(onsets, 0.01))
    tt = np.maximum(traveltimes.reshape(-1, k), 0)
    out = np.zeros((tt.shape[0], n))
    for node in range(tt.shape[0]):
        for j in range(k):
            s = first + tt[node, j]
            out[node] += logs[j, s:s + n]
    return np.exp(out / available).reshape(*traveltimes.shape[:-1], n)


def sta_lta_classic(sig, nsta, nlta):
    n = len(sig)
    out = np.ones(n)
    for i in range(nlta - 1, n):
        lta = sum(sig[i - nlta + 1:i + 1]) / nlta
        sta = sum(sig[i - nsta + 1:i + 1]) / nsta
        out[i] = sta / lta if lta > 0 else 1.0
    return out


def sta_lta_centred(sig, nsta, nlta):
    n = len(sig)
    out = np.ones(n)
    for i in range(nlta - 1, n - nsta):
        lta = sum(sig[i - nlta + 1:i + 1]) / nlta
        sta = sum(sig[i + 1:i + 1 + nsta]) / nsta
        out[i] = sta / lta if lta > 0 else 1.0
    return out


def sta_lta_recursive(sig, nsta, nlta):
    n = len(sig)
    out = np.ones(n)
    a, b = 1.0 / nsta, 1.0 / nlta
    sta = lta = 0.0
    for i in range(1, n):
        sta = a * sig[i] + (1 - a) * sta
        lta = b * sig[i] + (1 - b) * lta
        out[i] = sta / lta if lta > 0 else 1.0
    out[:min(nlta, n) if nlta < n else 0] = 1.0
    return out


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol))


__all__ = [n for n in dir() if not n.startswith("_")]
_ = math
