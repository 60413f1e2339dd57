from .compute import sort
from .ephemeral import MemoryCacheReader, MemoryCacheWriter
from .persistent import FileCacheReader, FileCacheWriter

__all__ = [
    "FileCacheReader",
    "FileCacheWriter",
    "MemoryCacheReader",
    "MemoryCacheWriter",
    "sort",
]
