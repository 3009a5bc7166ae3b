# Stand-in for the part of numpy used by openquake.commonlib.
from numpy import testing
