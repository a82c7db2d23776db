"""File systems observed or perturbed by the harnesses."""
import datetime

from fsspec.implementations.local import LocalFileSystem
from fsspec.implementations.memory import MemoryFileSystem


class AgedMemory(MemoryFileSystem):
    """Memory file system with chosen creation dates."""
    cachable = False
    ages = {}

    def created(self, path):
        age = next(v for k, v in self.ages.items() if path.endswith(k))
        return datetime.datetime.now(datetime.timezone.utc) - age
