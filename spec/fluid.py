import math
import numpy as np

OIL = [7.24032, -2.84383e-3, 2.75660e-5]
WATER = [8.63186, -3.31977e-3, 2.37170e-5]
HYDROSTATIC = 0.052


def phase(c, temperature, pressure):
    return c[0] + c[1] * temperature + c[2] * pressure


def oil_density(reference_temp, reference_pressure):
    return phase(OIL, reference_temp, reference_pressure)


def water_density(reference_temp, reference_pressure):
    return phase(WATER, reference_temp, reference_pressure)


def base_density(reference_temp, reference_pressure, base_fluid_water_ratio):
    return base_fluid_water_ratio * water_density(reference_temp, reference_pressure) + (1 - base_fluid_water_ratio) * oil_density(reference_temp, reference_pressure)


# relative volumes: they sum to one, the base fluid keeps its water ratio, and the mixture has the given density
def weighting_volume(fluid_density, reference_temp, reference_pressure, base_fluid_water_ratio, weighting):
    base = base_density(reference_temp, reference_pressure, base_fluid_water_ratio)
    return (fluid_density - base) / (weighting - base)


def water_volume(fluid_density, reference_temp, reference_pressure, base_fluid_water_ratio, weighting):
    return base_fluid_water_ratio * (1 - weighting_volume(fluid_density, reference_temp, reference_pressure, base_fluid_water_ratio, weighting))


def oil_volume(fluid_density, reference_temp, reference_pressure, base_fluid_water_ratio, weighting):
    return (1 - base_fluid_water_ratio) * (1 - weighting_volume(fluid_density, reference_temp, reference_pressure, base_fluid_water_ratio, weighting))


def total(water, oil, weighting):
    return 1.0


# SPE 11118: density of a phase at the top and its gradient with depth
def top(c, pressure_applied, temperature_top):
    return phase(c, temperature_top, pressure_applied)


def slope(c, density_average, fluid_thermal_gradient):
    return c[1] * fluid_thermal_gradient + HYDROSTATIC * c[2] * density_average


def coefficients(density_average, pressure_applied, temperature_top, fluid_thermal_gradient, A0, A1, A2, B0, B1, B2):
    a = [A0, A1, A2]
    b = [B0, B1, B2]
    return (
        top(a, pressure_applied, temperature_top), slope(a, density_average, fluid_thermal_gradient),
        top(b, pressure_applied, temperature_top), slope(b, density_average, fluid_thermal_gradient))


def average(density_average, density_top, volume_water_relative, volume_oil_relative, depth, alpha_1, alpha_2, beta_1, beta_2):
    if depth == 0:
        return density_top
    solids = 1 - volume_water_relative - volume_oil_relative
    oil = volume_oil_relative * alpha_1 * density_average / alpha_2 * math.log((alpha_1 + alpha_2 * depth) / alpha_1)
    water = volume_water_relative * beta_1 * density_average / beta_2 * math.log((beta_1 + beta_2 * depth) / beta_1)
    return (density_top * depth - oil - water) / (depth * solids)


def residual(density_average, density_top, temperature_top, volume_water_relative, volume_oil_relative, pressure_applied, depth, fluid_thermal_gradient):
    a1, a2, b1, b2 = coefficients(
        density_average, pressure_applied, temperature_top, fluid_thermal_gradient,
        OIL[0], OIL[1], OIL[2], WATER[0], WATER[1], WATER[2])
    return abs(density_average - average(density_average, density_top, volume_water_relative, volume_oil_relative, depth, a1, a2, b1, b2))


# the objective for one depth of a profile, x the trial density
def profile(x, fluid_density, reference_temp, water, oil, pressure_applied, depth, gradient):
    return residual(x, fluid_density, reference_temp, water, oil, pressure_applied, depth, gradient)


def gradient(temperature, reference_temp, depth):
    return np.nan_to_num((temperature - reference_temp) / depth)
