"""Per-check manifest notes that differ from the default."""
META = {}
