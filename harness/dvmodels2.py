"""Classes that have the names, but not the attributes, of classes of dvmodels."""
from typing import Any
from dessia_common.core import DessiaObject


class Leaf(DessiaObject):
    _standalone_in_db = False

    def __init__(self, radius: float = 0., number: float = 0., name: str = ''):
        self.radius = radius
        self.number = number
        super().__init__(name=name)


class Kw(DessiaObject):
    _standalone_in_db = True

    def __init__(self, x: Any = 0, depth: Any = 1, name: str = ''):
        self.x = x
        self.depth = depth
        super().__init__(name=name)
