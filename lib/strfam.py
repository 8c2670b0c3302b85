"""Families of string types and the constants of Str.tla that describe them."""
FAM = {
    "basic15": dict(L=15, CopyKind='"own"', Refs="TRUE", RefShort="FALSE", Owns="TRUE", Erasable="TRUE"),
    "basic7": dict(L=7, CopyKind='"own"', Refs="TRUE", RefShort="FALSE", Owns="TRUE", Erasable="TRUE"),
    "basic3": dict(L=3, CopyKind='"own"', Refs="TRUE", RefShort="FALSE", Owns="TRUE", Erasable="TRUE"),
    "generic15": dict(L=15, CopyKind='"keep"', Refs="TRUE", RefShort="FALSE", Owns="TRUE", Erasable="TRUE"),
    "generic7": dict(L=7, CopyKind='"keep"', Refs="TRUE", RefShort="FALSE", Owns="TRUE", Erasable="TRUE"),
    "view15": dict(L=15, CopyKind='"keep"', Refs="TRUE", RefShort="FALSE", Owns="FALSE", Erasable="FALSE"),
    "view3": dict(L=3, CopyKind='"keep"', Refs="TRUE", RefShort="FALSE", Owns="FALSE", Erasable="FALSE"),
    "cstring": dict(L=15, CopyKind='"own"', Refs="TRUE", RefShort="TRUE", Owns="TRUE", Erasable="FALSE"),
}
