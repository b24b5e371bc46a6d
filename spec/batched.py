"""Reference formulas: curve-and-hold geometry, toolface, position sensitivities.  Read by the analyser only, never run."""
import numpy as np
from .core import *


def _rows(x):
    """scalar(s) against vectors"""
    x = np.asarray(x)
    return x[..., None] if x.ndim >= 1 else x


def distances(pos1, vec1, pos_target):
    d = pos_target - pos1
    dt = np.sqrt(np.sum(d * d, axis=-1))
    dp = np.minimum(np.sum(d * vec1, axis=-1), dt)
    return dt, dp, np.sqrt(np.maximum(dt ** 2 - dp ** 2, 0.0))


def distances_exact(pos1, vec1, pos_target):
    dt, dp, dn = distances(pos1, vec1, pos_target)
    return dt, dp, np.sqrt(dt ** 2 - dp ** 2)


def wrapped(dogleg):
    return np.where(dogleg < 0, dogleg + 2 * np.pi, dogleg)


def tangent(radius, dist):
    dt, dp, dn = dist
    return np.sqrt(dt ** 2 - 2 * radius * dn)


def hold_dogleg(radius, dist):
    dt, dp, dn = dist
    return wrapped(2 * np.arctan2(dp - tangent(radius, dist), 2 * radius - dn))


def end_vector(pos1, vec1, pos_target, tangent_length, dist_curve, factor):
    half = dist_curve * factor / 2
    v = (pos_target - pos1 - _rows(half) * vec1) / _rows(half + tangent_length)
    v = v / _rows(np.sqrt(np.sum(v * v, axis=-1)))
    return np.where(_rows(dist_curve == 0), vec1, v)


def end_vector_of(pos1, vec1, pos_target, tangent_length, dist_curve, func_dogleg):
    return end_vector(pos1, vec1, pos_target, tangent_length, dist_curve, func_dogleg)


def curve_hold(pos1, vec1, pos_target, radius):
    dist = distances(pos1, vec1, pos_target)
    return curve_hold_of(pos1, vec1, pos_target, radius, dist)


def curve_hold_of(pos1, vec1, pos_target, radius, dist):
    t = tangent(radius, dist)
    a = hold_dogleg(radius, dist)
    c = radius * a
    v = end_vector(pos1, vec1, pos_target, t, c, rf(a))
    return dict(tangent_length=t, dogleg=a, dist_curve=c, vec_target=v, pos2=pos_target - _rows(t) * v, md=c + t)


def entry(pos1, vec1, pos_target, radius, key):
    return curve_hold(pos1, vec1, pos_target, radius)[key]


def toolface_of(pos1, inc, azi, pos2):
    d = pos2 - pos1
    right = d[1] * np.cos(azi) - d[0] * np.sin(azi)
    high = np.cos(inc) * (d[0] * np.cos(azi) + d[1] * np.sin(azi)) - d[2] * np.sin(inc)
    return np.arctan2(right, high)
