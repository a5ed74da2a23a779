"""Check runner: discharges the contracts of a property and cross-checks them on the real code."""
