"""C22: model times are parsed and converted exactly."""
import datetime
import io
import os
import time

import cftime
import numpy as np
from hypothesis import strategies as st

from ..core import require

CALENDARS = {  # FMS number -> (cftime class, name)
    1: (cftime.Datetime360Day, "360_day"),
    2: (cftime.DatetimeJulian, "julian"),
    3: (cftime.DatetimeGregorian, None),
    4: (cftime.DatetimeNoLeap, "noleap"),
}
ZONES = ["UTC", "America/New_York", "EST5EDT", "Asia/Kolkata", "XXX-14", "YYY+11:30"]
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
EPOCH = datetime.datetime(1970, 1, 1)
TEXT = ["", "", "        Current model time: year, month, day, hour, minute, second",
        " (Calendar: no_calendar=0, thirty_day_months=1, julian=2, gregorian=3, noleap=4)",
        " 7 8 9", "\t! x", " .", " 12 a=3"]


def days_in_month(calendar, year, month):
    if calendar == 1:
        return 30
    if month != 2:
        return DAYS[month - 1]
    if calendar == 2:
        leap = year % 4 == 0
    elif calendar == 3:  # the mixed Julian/Gregorian calendar
        leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0 or year <= 1582)
    else:
        leap = False
    return 29 if leap else 28


def valid(calendar, fields):
    year, month, day, hour, minute, second = fields
    if not (1 <= month <= 12 and 1 <= day and 0 <= hour < 24 and 0 <= minute < 60
            and 0 <= second < 60):
        return False
    if calendar == 3 and (year, month) == (1582, 10) and 5 <= day <= 14:
        return False
    return day <= days_in_month(calendar, year, month)


@st.composite
def coupler(draw):
    calendar = draw(st.sampled_from([1, 2, 3, 4]))
    year = draw(st.one_of(st.integers(1, 9999), st.sampled_from(
        [1, 4, 100, 400, 1582, 1900, 2000, 2016, 2100, 9999])))
    month = draw(st.one_of(st.integers(1, 12), st.just(2)))
    last = days_in_month(calendar, year, month)
    day = draw(st.one_of(st.integers(1, last), st.just(last)))
    fields = [year, month, day, draw(st.integers(0, 23)), draw(st.integers(0, 59)),
              draw(st.integers(0, 59))]
    broken = draw(st.sampled_from([None] * 5 + ["day", "month", "hour", "minute"]))
    if broken:
        fields[{"month": 1, "day": 2, "hour": 3, "minute": 4}[broken]] = {
            "month": 13, "day": last + 1, "hour": 24, "minute": 60}[broken]
    other = [draw(st.integers(1, 9999)), draw(st.integers(1, 12)), draw(st.integers(1, 28)),
             draw(st.integers(0, 23)), 0, 0]
    return {
        "what": "coupler", "calendar": calendar, "fields": fields, "other": other,
        "width": draw(st.sampled_from([1, 2, 4, 6, 12])),
        "zeros": draw(st.booleans()),
        "separator": draw(st.sampled_from([" ", "  ", "\t", "     "])),
        "lead": draw(st.sampled_from(["", " ", "     ", "\t"])),
        "text": [draw(st.sampled_from(TEXT)) for _ in range(3)],
        "newline": draw(st.sampled_from(["\n", "\n", "\r\n"])),
        "end": draw(st.sampled_from(["", "newline", "more"])),
        "as": draw(st.sampled_from(["memory", "file"])),
    }


@st.composite
def dates(draw):
    unit = draw(st.sampled_from(["Y", "M", "W", "D", "h", "m", "s", "ms", "us", "us", "ns"]))
    if unit == "ns":
        year = draw(st.integers(1700, 2250))
    else:
        year = draw(st.one_of(st.integers(1, 9999), st.integers(1950, 2106)))
    month = draw(st.integers(1, 12))
    day = draw(st.integers(1, days_in_month(3 if year > 1582 else 4, year, month)))
    second = draw(st.one_of(st.integers(0, 86399), st.sampled_from([0, 86399])))
    micro = draw(st.one_of(
        st.integers(0, 999999), st.sampled_from([0, 1, 499999, 500000, 999999])))
    return {"what": "datetime64", "unit": unit, "year": year, "month": month, "day": day,
            "second": second, "micro": micro, "zone": draw(st.sampled_from(ZONES)),
            "nano": draw(st.sampled_from([0, 0, 1, 999]))}


def strategy(tier):
    return st.one_of(coupler(), dates())


def number(value, case):
    text = str(value)
    return text.rjust(case["width"], "0" if case["zeros"] else " ")


def check_coupler(case, ctx):
    import fv3gfs.util.io as module

    eol, sep = case["newline"], case["separator"]
    lines = [case["lead"] + number(case["calendar"], case) + case["text"][0]]
    for fields, text in ((case["other"], case["text"][1]), (case["fields"], case["text"][2])):
        lines.append(case["lead"] + sep.join(number(f, case) for f in fields) + text)
    content = eol.join(lines)
    if case["end"] != "":
        content += eol
    if case["end"] == "more":
        content += "  1999 1 1 0 0 0" + eol
    if case["as"] == "file":
        path = os.path.join(ctx.scratch, "coupler.res")
        with open(path, "w", newline="") as f:
            f.write(content)
        file = open(path, "r")
    else:
        file = io.StringIO(content)
    calendar, fields = case["calendar"], case["fields"]
    what = f"coupler file {content!r}"
    with file:
        if not valid(calendar, fields):
            ctx.raises(ValueError, lambda: module.get_current_date_from_coupler_res(file), what)
            ctx.label("invalid date")
            return
        with ctx.sut(what):
            got = module.get_current_date_from_coupler_res(file)
    kind, name = CALENDARS[calendar]
    require(type(got) is kind, f"{what}: is a {type(got).__name__}, wanted {kind.__name__}")
    if name is not None:
        require(got.calendar == name, f"{what}: calendar {got.calendar}")
    found = [got.year, got.month, got.day, got.hour, got.minute, got.second]
    require(found == fields and got.microsecond == 0, f"{what}: parsed as {got}")
    ctx.label("calendar", calendar)
    ctx.nontrivial()


def check_date(case, ctx):
    from fv3gfs.util.time import datetime64_to_datetime

    exact = datetime.datetime(case["year"], case["month"], case["day"]) + datetime.timedelta(
        seconds=case["second"], microseconds=case["micro"])
    unit = case["unit"]
    value = np.datetime64(exact, "us").astype(f"datetime64[{unit}]")
    extra = 0
    if unit == "ns":
        value = value + np.timedelta64(case["nano"], "ns")
        extra = case["nano"] > 0
    # the microseconds since 1970 of what the value now says, in integers
    micros = int(value.astype("datetime64[us]").astype("int64"))
    if unit in ("Y", "M", "W") and micros < int(
            np.datetime64("0001-01-01", "us").astype("int64")):
        return  # the week began before year 1
    want = EPOCH + datetime.timedelta(microseconds=micros)
    # digits below the microsecond may be rounded either way
    tolerance = datetime.timedelta(microseconds=extra)
    near = abs(want.year - 2020) < 120
    what = f"{value!r} in time zone {case['zone']}"
    saved = os.environ.get("TZ")
    os.environ["TZ"] = case["zone"]
    time.tzset()
    try:
        with ctx.sut(what):
            got = datetime64_to_datetime(value)
    finally:
        if saved is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = saved
        time.tzset()
    require(type(got) is datetime.datetime and got.tzinfo is None, f"{what}: {got!r}")
    require(abs(got - want) <= tolerance, f"{what}: {got!r} instead of {want!r}")
    ctx.label("unit", unit)
    ctx.label("near the present" if near else "far")
    ctx.nontrivial(case["zone"] != "UTC")


NEEDS_SCRATCH = True


def check(case, ctx):
    if case["what"] == "coupler":
        check_coupler(case, ctx)
    else:
        check_date(case, ctx)
