"""Reference formulas of the conversion helpers.  Read by the analyser only, never run."""
import numpy as np


def annulus(od, id, length):
    return np.pi / 4 * (od ** 2 - id ** 2) * length


def elements(cov):
    """[nn, ne, nv, ee, ev, vv]; the matrices are symmetric"""
    return np.stack((cov[:, 0, 0], cov[:, 0, 1], cov[:, 0, 2], cov[:, 1, 1], cov[:, 1, 2], cov[:, 2, 2]), axis=-1)


def element(cov, i, j):
    return cov[:, i, j]


def sigmas(cov, k):
    return np.sqrt(cov[:, k, k])


def sigmas_t(cov, k):
    return np.sqrt(cov[:, k, k])


def long_sigmas(cov, k):
    return (cov[:, 0, 0], cov[:, 1, 1], cov[:, 2, 2], cov[:, 0, 1], cov[:, 0, 2], cov[:, 1, 2])[k]


def long_sigmas_t(cov, k):
    return (cov[:, 0, 0], cov[:, 1, 1], cov[:, 2, 2], cov[:, 1, 0], cov[:, 2, 0], cov[:, 2, 1])[k]


def packed(arr):
    """rows [aa, ab, ac, bb, bc, cc] as symmetric matrices"""
    a = arr
    return np.stack((
        np.stack((a[:, 0], a[:, 1], a[:, 2]), axis=-1),
        np.stack((a[:, 1], a[:, 3], a[:, 4]), axis=-1),
        np.stack((a[:, 2], a[:, 4], a[:, 5]), axis=-1)), axis=1)
