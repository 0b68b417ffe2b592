"""Loads the program and builds an interpreter."""
import time

from . import stubs_py, stubs_np, stubs_lib  # pylint: disable=unused-import
from .interp import Interp
from .program import Program
from .stubs import S


def load(repo='/repo'):
  prog = Program(repo)
  I = Interp(prog, S)
  I.load_all()
  return I
