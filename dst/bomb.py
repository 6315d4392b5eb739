"""A turbine model of the user that fails on demand, in any worker"""

import os

from .kernel import make_exc


def make_bomb(flag):
    from foxes.core import TurbineModel

    b = bomb_class()(flag)
    return b


_cls = None


def bomb_class():
    global _cls
    if _cls is None:
        from foxes.core import TurbineModel

        class Bomb(TurbineModel):
            def __init__(self, flag):
                super().__init__()
                self.flag = flag

            def output_farm_vars(self, algo):
                return []

            def calculate(self, algo, mdata, fdata, st_sel):
                if os.path.exists(self.flag):
                    with open(self.flag) as f:
                        raise make_exc(f.read().strip(), "user model")
                return {}

        Bomb.__module__ = __name__
        Bomb.__qualname__ = "Bomb"
        globals()["Bomb"] = Bomb
        _cls = Bomb
    return _cls


def __getattr__(name):
    if name == "Bomb":
        return bomb_class()
    raise AttributeError(name)
