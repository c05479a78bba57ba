"""Registers conversions in the real package; nothing needed here."""
