"""C21: the dictionary of each kind of group, from its attributes (a reads an attribute)."""


def _dirdict(a, card, deg, var=False):
    return {"cardinal": a(card) if card else None, "variable": var, "units": "degrees", "direction": a(deg)}


# as_dict expected from the attributes as read (a = reader of an attribute)
def dist(a, n):
    return {"units": "meters", "distance": a(n)}


def temp(a, n):
    return {"units": "celsius", "temperature": a(n)}


def spd(a, n):
    return {"units": "knot", "speed": a(n)}


D = {
    "type": lambda a: {"type": a("type_"), "code": a("code")},
    "station": lambda a: {k: a(k) for k in ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation",
                                            "country", "code")},
    "time": lambda a: {"datetime": ("str", a("time")), "code": a("code")},
    "modifier": lambda a: {"modifier": a("description"), "code": a("code")},
    "wind": lambda a: {"direction": {"cardinal": a("cardinal_direction"), "variable": a("variable"),
                                     "units": "degrees", "direction": a("direction_in_degrees")},
                       "speed": spd(a, "speed_in_knot"), "gust": spd(a, "gust_in_knot"), "code": a("code")},
    "wind_variation": lambda a: {"from_": _dirdict(a, "from_cardinal_direction", "from_in_degrees"),
                                 "to": _dirdict(a, "to_cardinal_direction", "to_in_degrees"), "code": a("code")},
    "minvis": lambda a: {"visibility": dist(a, "in_meters"),
                         "direction": _dirdict(a, "cardinal_direction", "direction_in_degrees"), "code": a("code")},
    "vis": lambda a: {"visibility": dist(a, "in_meters"), "cavok": a("cavok"),
                      "direction": _dirdict(a, "cardinal_direction", "direction_in_degrees"), "code": a("code")},
    "rvr": lambda a: {"name": a("name"), "rvr_low": ("limit", a("low_range"), a("low_in_meters")), "low_range": dist(a, "low_in_meters"),
                      "rvr_high": ("limit", a("high_range"), a("high_in_meters")), "high_range": dist(a, "high_in_meters"),
                      "trend": a("trend"), "code": a("code")},
    "weather": lambda a: {k: a(k) for k in ("intensity", "description", "precipitation", "obscuration", "other",
                                            "code")},
    "cloud": lambda a: {"cover": a("cover"), "oktas": a("oktas"), "height_units": "meters",
                        "height": a("height_in_meters"), "type": a("cloud_type"), "code": a("code")},
    "temps": lambda a: {"temperature": temp(a, "temperature_in_celsius"), "dewpoint": temp(a, "dewpoint_in_celsius"),
                        "code": a("code")},
    "pressure": lambda a: {"units": "hectopascals", "pressure": a("in_hPa")},
    "recent": lambda a: {k: a(k) for k in ("description", "precipitation", "obscuration", "other", "code")},
    "windshear": lambda a: {"all": a("all_"), "name": a("name"), "code": a("code")},
    "sea": lambda a: {"state": a("state"), "temperature": temp(a, "temperature_in_celsius"),
                      "height": dist(a, "height_in_meters"), "code": a("code")},
    "rwystate": lambda a: {k: a(k) for k in ("name", "deposits", "contamination", "deposits_depth",
                                             "surface_friction", "snoclo", "clrd", "code")},
    "valid": lambda a: {"from_": {"datetime": ("str", a("period_from.time")), "code": a("period_from.code")},
                        "until": {"datetime": ("str", a("period_until.time")), "code": a("period_until.code")},
                        "code": a("code")},
    "missing": lambda a: {"is_missing": a("is_missing"), "modifier": a("description"), "code": a("code")},
    "cancelled": lambda a: {"is_cancelled": a("is_cancelled"), "code": a("code")},
    "ttemp": lambda a: {"units": "celsius", "temperature": a("in_celsius"),
                        "datetime": ("str", a("time.time"))},
    "tind": lambda a: {"forecast_period": {
        "init": {"datetime": ("str", a("forecast_period[0].time")), "code": a("forecast_period[0].code")},
        "end": {"datetime": ("str", a("forecast_period[1].time")), "code": a("forecast_period[1].code")}},
        "from_": {"datetime": ("str", a("period_from.time")), "code": a("period_from.code")},
        "until": {"datetime": ("str", a("period_until.time")), "code": a("period_until.code")},
        "at": ("time?", a("period_at")), "translation": a("translation"), "code": a("code")},
    "cind": lambda a: {"valid": {"from_": {"datetime": ("str", a("valid.period_from.time")),
                                           "code": a("valid.period_from.code")},
                                 "until": {"datetime": ("str", a("valid.period_until.time")),
                                           "code": a("valid.period_until.code")}, "code": a("valid.code")},
                       "translation": a("translation"), "code": a("code")},
}
