"""Imports the code under test from /repo/src, never from a stale .pyc."""
import importlib._bootstrap_external as _be
import os
import sys

REPO_SRC = os.path.realpath("/repo/src")

_orig = _be.cache_from_source


def _no_cache(path, *a, **k):
    if os.path.realpath(path).startswith(REPO_SRC + os.sep):
        raise NotImplementedError  # compile from source: a .pyc may be out of date
    return _orig(path, *a, **k)


_be.cache_from_source = _no_cache
sys.dont_write_bytecode = True
sys.path[:] = [REPO_SRC] + [p for p in sys.path if os.path.realpath(p or ".") != REPO_SRC]

import pymantic  # noqa: E402

if not os.path.realpath(pymantic.__file__).startswith(REPO_SRC + os.sep):
    raise RuntimeError("pymantic does not come from /repo/src: %s" % pymantic.__file__)
