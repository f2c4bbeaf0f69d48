"""The quantities and their units: the contract of the numeric classes for every number."""
import math
from fractions import Fraction as F

PI = F(math.pi)
KMH = F(1852, 1000)

# class -> (base unit, {unit: (a, b)}) with unit = a * base + b
UNITS = {
    "Direction": ("in_degrees", {"in_radians": (PI / 180, 0), "in_gradians": (F(400, 360), 0)}),
    "Distance": ("in_meters", {"in_kilometers": (F(1, 1000), 0), "in_sea_miles": (F(1, 1852), 0),
                               "in_feet": (F(10000, 3048), 0)}),
    "Speed": ("in_knot", {"in_mps": (F(1852, 3600), 0), "in_kph": (KMH, 0), "in_miph": (F(1852000, 1609344), 0)}),
    "Pressure": ("in_hPa", {"in_inHg": (F(2953, 100000), 0), "in_mbar": (F(1), 0), "in_bar": (F(1, 1000), 0),
                            "in_atm": (F(100, 101325), 0)}),
    "Temperature": ("in_celsius", {"in_kelvin": (F(1), F("273.15")), "in_fahrenheit": (F(9, 5), 32),
                                   "in_rankine": (F(9, 5), F("491.67"))}),
}

# the functions and factors of Conversions
FUNCTIONS = {
    "celsius_to_kelvin": (F(1), F("273.15")), "kelvin_to_celsius": (F(1), -F("273.15")),
    "celsius_to_fahrenheit": (F(9, 5), 32), "fahrenheit_to_celsius": (F(5, 9), -F(160, 9)),
    "celsius_to_rankine": (F(9, 5), F("491.67")), "rankine_to_celsius": (F(5, 9), -F("273.15")),
}
FACTORS = {
    "FT_TO_M": F("0.3048"), "SMI_TO_KM": KMH, "KM_TO_SMI": 1 / KMH, "KM_TO_M": F(1000), "M_TO_KM": F(1, 1000),
    "M_TO_SMI": F(1, 1852), "M_TO_FT": 1 / F("0.3048"), "M_TO_DM": F(10), "M_TO_CM": F(100),
    "M_TO_IN": 1 / F("0.0254"), "DEGREES_TO_RADIANS": PI / 180, "DEGREES_TO_GRADIANS": F(10, 9),
    "KNOT_TO_MPS": F(1852, 3600), "KNOT_TO_MIPH": F(1852000, 1609344), "KNOT_TO_KPH": KMH,
    "MPS_TO_KNOT": F(3600, 1852), "HPA_TO_INHG": F("0.02953"), "INHG_TO_HPA": 1 / F("0.02953"),
    "HPA_TO_BAR": F(1, 1000), "BAR_TO_HPA": F(1000), "MBAR_TO_HPA": F(1), "HPA_TO_MBAR": F(1),
    "HPA_TO_ATM": F(100, 101325),
}
REL, ABS = F(1, 100000), F(1, 10 ** 9)

POINTS = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]


def sector(name):
    """[low, high) of a compass point in degrees (N: from low on, or before high)."""
    i = POINTS.index(name)
    return (F(45 * i, 2) - F(45, 4)) % 360, F(45 * i, 2) + F(45, 4)


def near(e, a):
    """Whether the plain number a is e."""
    if isinstance(a, bool) or not isinstance(a, (int, float)) or math.isnan(a) or math.isinf(a):
        return False
    return abs(F(a) - e) <= REL * abs(e) + ABS
