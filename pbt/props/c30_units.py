"""C30: comparison of units ignores only surrounding whitespace."""
from hypothesis import strategies as st

from ..core import require

SPACE = " \t\n\r\x0b\x0c"
BASE = ["m", "m/s", "m s**-1", "m s-1", "kg m^-2", "K", "k", "", "degC", "days since 2016",
        "1", "Pa", "pa", "m  s", "\u00b5m", "\u03bcm", "kg/kg", "N/A", "unknown"]


@st.composite
def one(draw):
    core = draw(st.one_of(
        st.sampled_from(BASE), st.text(max_size=6),
        st.text(alphabet="mskK/ *-^12\t", max_size=6)))
    before = draw(st.text(alphabet=SPACE, max_size=3))
    after = draw(st.text(alphabet=SPACE, max_size=3))
    return before + core + after


@st.composite
def cases(draw, tier):
    a = draw(one())
    how = draw(st.sampled_from(["other", "other", "pad", "case", "inner", "cut", "same"]))
    b = draw(one())
    if how == "pad":
        b = draw(st.text(alphabet=SPACE, max_size=3)) + a.strip() + draw(
            st.text(alphabet=SPACE, max_size=3))
    elif how == "case":
        b = a.swapcase()
    elif how == "inner":
        k = draw(st.integers(0, len(a)))
        b = a[:k] + " " + a[k:]
    elif how == "cut":
        b = a[: draw(st.integers(0, len(a)))]
    elif how == "same":
        b = a
    return {"a": a, "b": b}


def strategy(tier):
    return cases(tier)


def strip(text):
    start, end = 0, len(text)
    while start < end and text[start].isspace():
        start += 1
    while end > start and text[end - 1].isspace():
        end -= 1
    return text[start:end]


def check(case, ctx):
    import fv3gfs.util as util

    a, b = case["a"], case["b"]
    equal = strip(a) == strip(b)
    for u, v in ((a, b), (b, a)):
        with ctx.sut("units_are_equal"):
            got = util.units_are_equal(u, v)
        require(bool(got) is equal, f"units_are_equal({u!r}, {v!r}) is {got}")
        if equal:
            with ctx.sut("ensure_equal_units"):
                util.ensure_equal_units(u, v)
        else:
            ctx.raises(util.UnitsError, lambda: util.ensure_equal_units(u, v),
                       f"ensure_equal_units({u!r}, {v!r})")
    for u in (a, b):
        require(util.units_are_equal(u, u), f"{u!r} is not equal to itself")
    ctx.label("equal" if equal else "different")
    ctx.nontrivial(a != b)
