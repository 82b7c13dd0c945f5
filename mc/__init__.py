"""Exhaustive bounded exploration (model checking) of jgressier/aerokit."""
