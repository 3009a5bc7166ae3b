"""Stand-in for openquake.hazardlib (not installed here)."""
from openquake.hazardlib import (
    geo, gsim, mfd, pmf, scalerel, source, tom)
