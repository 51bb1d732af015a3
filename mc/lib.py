"""Shared helpers: writing spec files, an independent RPM oracle, enumeration helpers."""
import itertools
import os
import sys

import rpm

from specfile import Specfile


class Oracle:
    """RPM itself, driven directly through its bindings (not through the code under test)."""

    FLAGS = rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE

    @staticmethod
    def reset(macros=()):
        rpm.reloadConfig()
        for name, value in macros:
            rpm.addMacro(name, value)

    @classmethod
    def parse(cls, text, directory, macros=(), name="oracle.spec"):
        """Returns rpm.spec or None if RPM rejects the text."""
        cls.reset([("_sourcedir", directory)] + list(macros))
        path = os.path.join(directory, name)
        with open(path, "wb") as f:
            f.write(text.encode("utf-8", "surrogateescape"))
        try:
            return rpm.spec(path, cls.FLAGS)
        except (ValueError, rpm.error):
            return None
        finally:
            os.unlink(path)


def write(path, text):
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))


def read(path):
    with open(path, "rb") as f:
        return f.read()


def load(ctx, text, name="test.spec", **kw):
    d = ctx.fresh_dir()
    p = os.path.join(d, name)
    write(p, text)
    return Specfile(p, **kw)


HEADER = ["Name: test", "Version: 1", "Release: 1", "Summary: s", "License: l"]
TAIL = ["%description", "d"]


def words(alphabet, lo, hi):
    for k in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=k)
