"""Propagation of survey errors into position (ISCWSA balanced tangential Jacobian) and their accumulation."""
import numpy as np
from numpy import sin, cos


def before(md):
    """interval above each station (zero at the first)"""
    return np.concatenate((np.zeros(1), md[1:] - md[:-1]))


def after(md):
    """interval below each station (zero at the last)"""
    return np.concatenate((md[1:] - md[:-1], np.zeros(1)))


def zero(survey):
    return np.zeros((1, 3))


def mean_direction(survey):
    inc, azi = survey[:, 1], survey[:, 2]
    return 0.5 * np.stack((
        sin(inc[:-1]) * cos(azi[:-1]) + sin(inc[1:]) * cos(azi[1:]),
        sin(inc[:-1]) * sin(azi[:-1]) + sin(inc[1:]) * sin(azi[1:]),
        cos(inc[:-1]) + cos(inc[1:])), axis=-1)


def drk_dDepth(survey):
    return np.vstack((zero(survey), mean_direction(survey)))


def drkplus1_dDepth(survey):
    return np.vstack((-mean_direction(survey), zero(survey)))


def dinc(survey, h):
    inc, azi = survey[:, 1], survey[:, 2]
    return np.stack((h / 2 * cos(inc) * cos(azi), h / 2 * cos(inc) * sin(azi), -h / 2 * sin(inc)), axis=-1)


def dazi(survey, h):
    inc, azi = survey[:, 1], survey[:, 2]
    return np.stack((-h / 2 * sin(inc) * sin(azi), h / 2 * sin(inc) * cos(azi), 0.0 * inc), axis=-1)


def drk_dInc(survey, rev4):
    r = dinc(survey, before(survey[:, 0]))
    if not rev4:
        r[1, 0] *= 2
    return r


def drkplus1_dInc(survey):
    return dinc(survey, after(survey[:, 0]))


def drk_dAz(survey):
    return dazi(survey, before(survey[:, 0]))


def drkplus1_dAz(survey):
    return dazi(survey, after(survey[:, 0]))


def drdp(survey, rev4):
    return np.hstack((drk_dDepth(survey), drk_dInc(survey, rev4), drk_dAz(survey), drkplus1_dDepth(survey), drkplus1_dInc(survey), drkplus1_dAz(survey)))


def sing_double(survey):
    return survey[2:, 0] - survey[:-2, 0]


def sing_delta(survey):
    return survey[1:-1, 0] - survey[:-2, 0]


def sing_azi(survey):
    return survey[1:-1, 2]


def outer(v):
    return v[:, :, None] * v[:, None, :]


def sigma_systematic(e_NEV, e_NEV_star):
    """error vector accumulated over all intervals above the station"""
    return e_NEV_star + np.vstack((np.zeros((1, 3)), np.cumsum(e_NEV, axis=0)[:-1]))


def cov_systematic(e_NEV, e_NEV_star):
    return outer(sigma_systematic(e_NEV, e_NEV_star))


def cov_random(e_NEV, e_NEV_star):
    return outer(e_NEV_star) + np.concatenate((np.zeros((1, 3, 3)), np.cumsum(outer(e_NEV), axis=0)[:-1]), axis=0)


def start_cov(cov, start):
    return cov + start


def components(error):
    return np.array([error[0][0], error[1][1], error[2][2], error[0][1], error[0][2], error[1][2]])
