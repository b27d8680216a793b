"""labels the contracts whose set-up enumerates a size instead of quantifying over it: "bounded" in the evidence, never counted as proved"""
import re

RULES = [
    (r"\b[0-9] (parts|factors|sub-elements)|\[[0-9] factors|factors with|of [123] (parts|scalar|named)|Element of [123] ", "number of parts"),
    (r"of parts (with degrees|of value ranks) \(|of factors mapped by|of factors in |three factors|(pairs|triples) of spaces|reconstruct_from_elements \(", "number of parts"),
    (r"product of cells of dimension \(", "number and dimensions of the factors"),
    (r"of shape \(|shape of rank \d|rank-\d+ index shapes|index rank \d|value ranks \(", "tensor rank or shape"),
    (r"\b\d point ind(ex|ices)", "number of point indices"),
    (r"symmetry between indices of lengths|shape and symmetry$|^symmetry \{", "tensor rank, shape or symmetry"),
]


def label(c):
    if not c.bounded and "any number of" not in c.name:
        hit = [b for r, b in RULES if re.search(r, c.name)]
        if hit: c.bounded = ", ".join(dict.fromkeys(hit))
    return c
