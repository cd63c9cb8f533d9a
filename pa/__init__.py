"""Static analysis framework for the parce source tree (no code of parce is run)."""
