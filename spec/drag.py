"""Soft-string torque and drag (Johancsik et al., SPE 11380)."""
import numpy as np


def normal(force_tension, inc_average, inc_delta, azi_delta, weight_buoyed):
    return np.sqrt((force_tension * azi_delta * np.sin(inc_average))**2 + (force_tension * inc_delta + weight_buoyed * np.sin(inc_average))**2)


def tension_delta(weight_buoyed, inc_average, coeff_friction_sliding, force_normal):
    w = weight_buoyed * np.cos(inc_average)
    f = coeff_friction_sliding * force_normal
    return w + f * 1, w - f * 1, w + 0 * f


def torsion_delta(coeff_friction_sliding, force_normal, radius):
    return coeff_friction_sliding * force_normal * radius


def buoyancy(fluid_density, string_density):
    return (string_density - fluid_density) / string_density


def step(force, sign, inc_average, inc_delta, azi_delta, weight_buoyed, coeff_friction_sliding):
    n = normal(force, inc_average, inc_delta, azi_delta, weight_buoyed)
    return force + weight_buoyed * np.cos(inc_average) + sign * coeff_friction_sliding * n


def torque_step(torque, force, inc_average, inc_delta, azi_delta, weight_buoyed, coeff_friction_sliding, radius):
    return torque + coeff_friction_sliding * normal(force, inc_average, inc_delta, azi_delta, weight_buoyed) * radius


def inc_average(survey):
    a = np.zeros_like(survey.inc_rad)
    a[1:] = (survey.inc_rad[1:] + survey.inc_rad[:-1]) / 2
    return a


def inc_delta(survey):
    a = np.zeros_like(survey.inc_rad)
    a[1:] = survey.inc_rad[1:] - survey.inc_rad[:-1]
    return a


def azi_delta(survey):
    a = np.zeros_like(survey.azi_grid_rad)
    a[1:] = (survey.azi_grid_rad[1:] - survey.azi_grid_rad[:-1] + np.pi) % (2 * np.pi) - np.pi
    return a


def weight(unit_weight, delta_md, buoyancy_factor):
    return unit_weight * delta_md * buoyancy_factor


def radius(tooljoint, od):
    return tooljoint / 2 if tooljoint else od / 2
