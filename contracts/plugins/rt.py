"""Plugin for file references: every attribute type, with values read from the file."""

import json

from libff.plugin import *



TYPES = {"str": String, "path": Path, "num": Number, "size": Size, "time": Time, "dur": Duration, "mode": Mode, "flag": Boolean,
    "list": ListOfStrings, "kind": FileType}


class Refs(Plugin):
    """Test plugin."""
    attributes = [("r_" + n, t, n) for n, t in TYPES.items()]

    def can_handle(self, entry):
        return entry.is_file() and entry.name.endswith(".json")

    def process(self, entry, cached):
        with open(entry.path, encoding="utf-8") as f:
            return [("r_" + k, v) for k, v in json.load(f).items()]
