from .partition import Partition

PROP = Partition("C02", ["dep"])
