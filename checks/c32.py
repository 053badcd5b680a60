"""C32: release version parsing and bumping."""
import contextlib
import functools
import importlib.util
import io

from hypothesis import strategies as st

from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated version texts (components, separators, pre-release parts) and texts which are none; round trip against the components they were made from, ordering against an own comparison of tuples"
ASSUMPTIONS = ["the version text is what `setup.py --version` prints: no line break except one at the end"]
PATH = "/repo/subtrees/z_quantum_actions/bin/get_next_version.py"


@functools.lru_cache(None)
def module():
    spec = importlib.util.spec_from_file_location("get_next_version_under_test", PATH)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


numbers = st.one_of(st.integers(0, 12), st.integers(0, 12), st.sampled_from([9, 10, 99, 100, 999, 10**9, 10**20]))
part = st.text("abcdefghijklmnopqrstuvwxyz0123456789", min_size=1, max_size=8)


@st.composite
def versions(draw):
    pre = draw(st.one_of(
        st.none(),
        st.builds("dev{}+g{}".format, numbers, part), st.builds("dev{}+g{}.d{}".format, numbers, part, st.integers(20200101, 20301231)),
        st.builds("{}{}".format, st.sampled_from(["rc", "a", "alpha.", "beta-", "post"]), numbers), st.lists(part, min_size=1, max_size=3).map(".".join), st.lists(part, min_size=1, max_size=3).map("-".join),
    ))
    patch = draw(st.one_of(st.none(), numbers, numbers))
    sep = draw(st.sampled_from([".", ".", "-"]))
    if patch is None and pre and pre[0].isdigit():
        pre = "x" + pre  # otherwise a number after a dot reads as the patch
    return {"major": draw(numbers), "minor": draw(numbers), "patch": patch, "pre": pre, "sep": sep, "newline": draw(st.booleans()), "zeros": draw(st.sampled_from([0, 0, 0, 1, 2]))}


def text(d):
    z = "0" * d["zeros"]
    out = f"{z}{d['major']}.{z}{d['minor']}"
    if d["patch"] is not None:
        out += f".{z}{d['patch']}"
    if d["pre"]:
        out += d["sep"] + d["pre"]
    return out


@sub(versions(), quick=2000, thorough=60000, rule="a pre-release part", nt=lambda d: d["pre"])
def parsing(d):
    m = module()
    version = text(d)
    got = m.parse_version_str(version + "\n" * d["newline"])
    want = (d["major"], d["minor"], d["patch"], d["pre"])
    require(tuple(got) == want, "parsing gives other components", version, tuple(got), want)
    require(all(type(x) is int for x in got[:2]) and (got.patch is None or type(got.patch) is int), "components are not numbers", got)
    rendered = got.version_str
    require(m.parse_version_str(rendered) == got, "the rendered version reads otherwise", version, rendered)
    if not d["zeros"]:
        require(rendered == text({**d, "sep": "."}), "the rendered version differs", version, rendered)
    label(f"patch {d['patch'] is not None}, pre {d['pre'] is not None}")


@sub(versions(), quick=2000, thorough=60000, rule="a pre-release part or no patch", nt=lambda d: d["pre"] or d["patch"] is None)
def bumping(d):
    m = module()
    version = text(d)
    parsed = m.parse_version_str(version)
    keep = tuple(parsed)
    got = parsed.bump_minor
    require(tuple(parsed) == keep, "bumping changed the version it was asked of")
    require(tuple(got) == (d["major"], d["minor"] + 1, 0, None), "another next version", version, got)
    require(got.version_str == f"{d['major']}.{d['minor'] + 1}.0", "another text of the next version", got.version_str)
    require(got[:3] > (parsed.major, parsed.minor, parsed.patch or 0), "the next version is not larger", version, got)
    again = m.parse_version_str(got.version_str)
    require(again == got and tuple(again.bump_minor) == (d["major"], d["minor"] + 2, 0, None), "bumping twice does not add two")
    # the script as a whole, with a stand-in for asking setup.py
    real = m._read_current_version
    m._read_current_version = lambda: version + "\n" * d["newline"]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            m.main()
    finally:
        m._read_current_version = real
    commands = [line for line in out.getvalue().split("\n") if line.startswith("::")]
    require(commands == [f"::set-output name=next_version::{d['major']}.{d['minor'] + 1}.0"], "the script sets other outputs", commands)


@sub(
    st.one_of(
        st.text("v.-+ ab", max_size=8), st.builds("{}{}".format, st.sampled_from(["v", " ", "-", ".", "release-", "a"]), versions().map(text)),
        numbers.map(str), st.builds("{}.".format, numbers), st.builds("{}.{}{}".format, numbers, st.sampled_from(["x", "-", "dev", " "]), numbers), st.builds("{}-{}.{}".format, numbers, numbers, numbers), st.just(""), st.just("\n"),
    ),
    quick=1500, thorough=20000, rule="contains digits", nt=lambda s: any(c.isdigit() for c in s),
)
def rejected(s):
    m = module()
    raises(ValueError, lambda: m.parse_version_str(s), "a text which does not begin with major.minor is accepted")
