"""Extract all translation units once (the cache is keyed by the content of every file a unit includes)."""
from . import facts, serial
facts.warm(facts.sources('*'))
serial.Facts()
