"""C15: see minksum.py."""
from minksum import make

CHECK = make(True)
