"""C01: the value codecs, over the abstract byte stream, and BufferedIndexInput's own decoder."""
from .codec import *
from . import codec, c03
CONTRACTS = codec.CONTRACTS + [c for c in c03.cs if c.name.split("::")[-1] in ("readVInt", "readByte/buffered", "refill", "newBuffer")] + [c for c in c03.CONTRACTS if c.assumed]
TUS = codec.TUS + ["store/BufferedIndexInput.cpp"]
HARNESS = "c01.cpp"
SECS = 8
