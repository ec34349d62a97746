"""Classes used by the executable contracts; importable under a dotted name so that serialisation can rebuild them."""
from typing import Any, Dict, List, Optional, Tuple
from dessia_common.core import DessiaObject, PhysicalObject


class Leaf(DessiaObject):
    _standalone_in_db = False

    def __init__(self, number: float = 0., label: str = '', flag: bool = False, name: str = ''):
        self.number = number
        self.label = label
        self.flag = flag
        super().__init__(name=name)


class LeafSub(Leaf):
    pass


class Twin(DessiaObject):
    """same attributes as Leaf, other class"""

    def __init__(self, number: float = 0., label: str = '', flag: bool = False, name: str = ''):
        self.number = number
        self.label = label
        self.flag = flag
        super().__init__(name=name)


class Box(DessiaObject):
    _standalone_in_db = True

    def __init__(self, content: Any = None, items: List[Any] = None, table: Dict[str, Any] = None, name: str = ''):
        self.content = content
        self.items = [] if items is None else items
        self.table = {} if table is None else table
        super().__init__(name=name)


class Kw(DessiaObject):
    """keyword-only attributes"""
    _standalone_in_db = True

    def __init__(self, x: Any = 0, *, unit: str = 'm', scale: float = 1., name: str = ''):
        self.x = x
        self.unit = unit
        self.scale = scale
        super().__init__(name=name)


class Pair(DessiaObject):
    _standalone_in_db = True

    def __init__(self, left: Box, right: Box, weight: float = 1., name: str = ''):
        self.left = left
        self.right = right
        self.weight = weight
        super().__init__(name=name)


class Team(DessiaObject):
    _standalone_in_db = True

    def __init__(self, leaves: List[Leaf], boss: Leaf = None, index: Dict[str, Leaf] = None, name: str = ''):
        self.leaves = leaves
        self.boss = boss
        self.index = {} if index is None else index
        super().__init__(name=name)


class Partial(DessiaObject):
    """has attributes that are excluded from data equality, from hash and from serialisation"""
    _standalone_in_db = True
    _non_data_eq_attributes = ['name', 'comment']
    _non_data_hash_attributes = ['name', 'weight']
    _non_serializable_attributes = ['hidden']

    def __init__(self, value: int, weight: float = 1., comment: str = '', name: str = ''):
        self.value = value
        self.weight = weight
        self.comment = comment
        self.hidden = object()
        self._cache = object()
        super().__init__(name=name)


class Strict(DessiaObject):
    _eq_is_data_eq = False

    def __init__(self, value: int = 0, name: str = ''):
        self.value = value
        super().__init__(name=name)


class Item(DessiaObject):
    """numeric attributes for filters, datasets, samplings"""
    _vector_features = ['x', 'y', 'z']
    _standalone_in_db = True

    def __init__(self, x: float, y: float, z: int = 0, name: str = ''):
        self.x = x
        self.y = y
        self.z = z
        super().__init__(name=name)


class Deep(DessiaObject):
    def __init__(self, item: Item, kind: str = '', name: str = ''):
        self.item = item
        self.kind = kind
        super().__init__(name=name)


class Bare(DessiaObject):
    """no explicit vector features"""

    def __init__(self, a: float, b: float, name: str = ''):
        self.a = a
        self.b = b
        super().__init__(name=name)


class ItemXY(Item):
    _vector_features = ['x', 'y']


class ItemYX(Item):
    _vector_features = ['z', 'y', 'x']
