"""What a contract module registers."""

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Contract:
    """A function contract: body(E) sets up symbolic inputs, calls the real function and states
       its obligations.  replay names the concrete check that reruns counter-models;
       from_model(label, inputs) yields inputs for it."""

    def __init__(self, name, body, replay=None, from_model=None, bounded=None, budget=100):
        self.name = name
        self.body = body
        self.replay = replay
        self.from_model = from_model
        self.bounded = bounded
        self.budget = budget


class Concrete:
    """Bounded cross-check on the real code: directed inputs plus random ones.
       run(input) returns None or a text describing the failure."""

    def __init__(self, name, run, gen=None, directed=(), weight=1, timeout=10, count=None):
        self.name = name
        self.run = run
        self.gen = gen
        self.directed = directed
        self.weight = weight
        self.timeout = timeout
        self.count = count


def setup_path():
    for p in (REPO, VERIF):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.dont_write_bytecode = True
