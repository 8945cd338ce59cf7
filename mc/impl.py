"""The code under test: imported from /repo/lib by every run, nothing cached."""
import contextlib
import io
import sys


def _quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def parse(dialect, text):
    """Parse one configuration with the named entry point."""
    if dialect == "asa":
        from acltk.fwsmObjects import fwsmConfig as C
    elif dialect == "ios":
        from acltk.iosObjects import iosConfig as C
    elif dialect == "pf":
        from acltk.pfsenseObjects import pfsenseConfig as C, pfsenseParserOptions

        return _quiet(C.fromString, text, None, pfsenseParserOptions(fetch_urltable=False))
    elif dialect == "auto":
        from acltk import ACLConfig as C
    else:
        raise ValueError(dialect)
    return _quiet(C.fromString, text)


def parse_bytes(dialect, data):
    if dialect == "asa":
        from acltk.fwsmObjects import fwsmConfig as C
    elif dialect == "ios":
        from acltk.iosObjects import iosConfig as C
    elif dialect == "pf":
        from acltk.pfsenseObjects import pfsenseConfig as C
    else:
        from acltk import ACLConfig as C
    return _quiet(C.fromFile, io.BytesIO(data))


def caf(text):
    from acltk import cafBlock

    return _quiet(cafBlock.fromString, text)


def run_filter(config, text):
    """The set of rules and NAT rules a filter selects from a configuration."""
    return _quiet(config.filter, caf(text))


def preload():
    """Import everything once in the parent, so that workers share it."""
    import acltk  # noqa
    import acltk.caf, acltk.fwsm, acltk.ios, acltk.cafSemantics  # noqa
    import acltk.fwsmSemantics, acltk.iosSemantics, acltk.pfsenseSemantics  # noqa
