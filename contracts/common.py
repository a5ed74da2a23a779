"""Helpers shared by the contract modules."""

import os
import sys

sys.path.insert(0, "/verif")
from vf.api import Contract, Concrete, REPO, setup_path  # noqa

setup_path()


def outcome(fn, *args, **kwargs):
    """("return", value) or ("raise", exception)"""
    try:
        return "return", fn(*args, **kwargs)
    except Exception as exc:  # pylint:disable=broad-except
        return "raise", exc
