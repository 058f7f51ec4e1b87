"""C41: size makes no difference."""
from . import sizes

ASSUMPTIONS = ["inputs of the families in mc/sizes.py"]
PARTS = list(sizes.ALL.values())
