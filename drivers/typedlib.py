"""Typed and half-and-half tree configurations."""
from evolib import *
from eckity.base import typed_functions as TF


def isless(a: float, b: float) -> bool:
    return np.less(a, b)


def pick(c: bool, a: float, b: float) -> float:
    return np.where(c, a, b)


def tree_conf(r):
    """typed and half-and-half tree configurations"""
    c = random_conf(r)
    while c.kind != "tree":
        c = random_conf(r)
    c.typed = r.random() < .7
    return c


def tree_creator(c, r):
    cls = r.choice([FullCreator, GrowCreator] + [HalfCreator] * 2 * (c.n >= 6))
    if c.typed:
        return cls(init_depth=r.choice([(1, 3), (2, 3), (2, 4)]),
                   function_set=[TF.add2floats, TF.neg_float, pick, isless, TF.and2bools, TF.not2bools],
                   terminal_set={"x": float, "y": float, "b": bool, "c": bool, True: bool, 1.5: float}, root_type=r.choice([float, bool]),
                   erc_range=r.choice([None, (-1.0, 1.0)]), bloat_weight=c.bloat8 / 8)
    return cls(init_depth=r.choice([(1, 3), (2, 4)]), function_set=[f_add, f_sub, f_neg, f_max], terminal_set=["x", "y", 1, 2],
               erc_range=r.choice([None, (-1.0, 1.0)]), bloat_weight=c.bloat8 / 8)
