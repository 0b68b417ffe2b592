"""Whole-program abstract interpreter for the balloon-learning-environment."""
