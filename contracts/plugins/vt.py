"""Plugins used by the concrete harness: every attribute type, with values set by the test."""

from libff.plugin import *

ATTRIBUTES = [
    ("str", String, "a"), ("path", Path, "b"), ("num", Number, "c"), ("size", Size, "d"),
    ("time", Time, "e"), ("dur", Duration, "f"), ("mode", Mode, "g"), ("flag", Boolean, "h"),
    ("list", ListOfStrings, "i"), ("kind", FileType, "j"), ("num2", Number, "k"),
    ("str2", String, "l"), ("num3", Number, "m"),
]


class Vfast(Plugin):
    """Test plugin."""
    speed = Speed.FAST
    attributes = [("f_" + n, t, d) for n, t, d in ATTRIBUTES]
    prefix = "f_"

    def can_handle(self, entry):
        return hasattr(entry, "vt")

    def process(self, entry, cached):
        return [(k, v) for k, v in entry.vt.items() if k.startswith(self.prefix)]


class Vt(Plugin):
    """Test plugin."""
    attributes = [("n_" + n, t, d) for n, t, d in ATTRIBUTES]
    prefix = "n_"
    can_handle = Vfast.can_handle
    process = Vfast.process


class Vslow(Plugin):
    """Test plugin."""
    speed = Speed.SLOW
    attributes = [("s_" + n, t, d) for n, t, d in ATTRIBUTES]
    prefix = "s_"
    can_handle = Vfast.can_handle
    process = Vfast.process
