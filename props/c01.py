from .partition import Partition

PROP = Partition("C01", ["chain", "semi"])
