"""gdsa: static-analysis framework specific to heitzmann/gdspy (see /verif/DESIGN.md)."""
