"""C16: see minksum.py."""
from minksum import make

CHECK = make(False)
