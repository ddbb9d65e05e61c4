from .partition import Partition

PROP = Partition("C03", ["tree", "cfg"])
