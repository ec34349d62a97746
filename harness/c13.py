from lib import *
import inspect
from typing import Any, Dict, List, Literal, Tuple, Type, Union
import dvmodels as M


def api():
    from dessia_common.schemas.core import serialize_annotation, deserialize_annotation
    return serialize_annotation, deserialize_annotation


def leaf(rng):
    from dessia_common.typings import InstanceOf, MethodType, ClassMethodType, AttributeType, ClassAttributeType, CadViewType, MarkdownType, PlotDataType
    from dessia_common.measures import Distance
    from dessia_common.files import BinaryFile, StringFile
    k = rng.randrange(10)
    if k < 4:
        return rng.choice([int, float, bool, str])
    if k < 6:
        return rng.choice([M.Leaf, M.Box, M.Team, Distance, BinaryFile, StringFile, Any])
    if k == 6:
        words = ['a', 'b c', 'x,y', 'two words', 'UPPER', 'a[b]', '0', 'l', 'dotted.name', 'with: colon', '']
        return Literal[tuple(rng.sample(words, rng.randrange(1, 4)))]
    if k == 7:
        return InstanceOf[rng.choice([M.Leaf, M.Box])]
    if k == 8:
        return rng.choice([MethodType, ClassMethodType, AttributeType, ClassAttributeType, CadViewType, MarkdownType, PlotDataType])[rng.choice([M.Leaf, M.Box])]
    return rng.choice([Type, Type[M.Leaf]])


def annotation(rng, depth=3):
    k = rng.randrange(8)
    if depth == 0 or k < 2:
        return leaf(rng)
    sub = lambda: annotation(rng, depth - 1)
    if k < 4:
        return List[sub()]
    if k == 4:
        return Tuple[tuple(sub() for _ in range(rng.randrange(1, 4)))]
    if k == 5:
        return Tuple[sub(), ...]
    if k == 6:
        return Dict[rng.choice([str, int]), sub()]
    for _ in range(20):
        u = Union[tuple(sub() for _ in range(rng.choice([2, 3])))]
        if type(None) not in getattr(u, '__args__', ()):
            return u
    return int


def roundtrip(run, rng):
    ser, des = api()
    for _ in range(run.n(1500)):
        a = annotation(rng)
        run.case(str(a))
        text = ser(a)
        run.check(isinstance(text, str) and bool(text), 'serialized annotation is not a text', annotation=a, got=text)
        back = des(text)
        run.check(back == a, 'an annotation changes when serialized and deserialized', annotation=a, text=text, back=back)


def injective(run, rng):
    ser, _ = api()
    seen = {}
    for _ in range(run.n(500)):
        a = annotation(rng, 2)
        run.case(str(a))
        t = ser(a)
        run.check(t not in seen or seen[t] == a, 'two different annotations have the same serialization', text=t, a=a, b=seen.get(t))
        seen[t] = a


def args(run, rng):
    from dessia_common.schemas.core import extract_args

    def word(d):
        if d == 0 or rng.random() < .5:
            return rng.choice(['int', 'str', 'pkg.mod.Class', '...', 'typing.Any'])
        return rng.choice(['List', 'Tuple', 'Dict']) + '[' + ','.join(word(d - 1) for _ in range(rng.randrange(1, 4))) + ']'
    for _ in range(run.n(500)):
        ws = [word(3) for _ in range(rng.randrange(0, 5))]
        text = rng.choice([',', ', ']).join(ws)
        run.case(text)
        run.eq(extract_args(text), ws, 'extract_args does not split at the first level', text=text)


def build(rng):
    """a class with a random signature"""
    names = ['alpha', 'beta', 'gamma', 'delta', 'count', 'label', 'flag', 'size']
    k, nd = rng.randrange(1, 7), 0
    chosen = rng.sample(names, k)
    nd = rng.randrange(0, k + 1)
    types = {n: rng.choice(['int', 'float', 'str', 'bool', 'Leaf', 'List[int]', 'Tuple[int, str]', 'Dict[str, float]', 'List[Leaf]']) for n in chosen}
    defaults = {}
    for n in chosen[k - nd:]:
        t = types[n]
        defaults[n] = {'int': rng.choice([0, 3, None]), 'float': rng.choice([0., 1.5]), 'str': rng.choice(['', 'x']), 'bool': rng.choice([True, False])}.get(t)
    sig = ', '.join(f'{n}: {types[n]}' + (f' = {defaults[n]!r}' if n in defaults else '') for n in chosen)
    body = '\n'.join(f'        self.{n} = {n}' for n in chosen)
    src = f'class Gen(DessiaObject):\n    """ A generated class.\n\n' + ''.join(f'    :param {n}: doc of {n}\n' for n in chosen) + f'    """\n' \
          f'    def __init__(self, {sig}, name: str = \'\'):\n{body}\n        DessiaObject.__init__(self, name=name)\n\n' \
          f'    def method(self, {sig}):\n        """ A method. """\n        return 1\n'
    ns = dict(DessiaObject=M.DessiaObject, Leaf=M.Leaf, List=List, Tuple=Tuple, Dict=Dict, __name__='dvmodels')
    exec(src, ns)
    return ns['Gen'], chosen, defaults, types


def class_schemas(run, rng):
    from dessia_common.schemas.core import ClassSchema, MethodSchema, split_default_args, serialize_annotation
    for _ in range(run.n(120)):
        cls, names, defaults, types = build(rng)
        run.case((names, defaults, types))
        req, dfl = split_default_args(inspect.getfullargspec(cls.__init__))
        run.eq(list(req), [n for n in names if n not in defaults], 'required arguments differ from the signature')
        run.eq(dict(dfl), {**defaults, 'name': ''}, 'default arguments differ from the signature')
        merged, _ = split_default_args(inspect.getfullargspec(cls.__init__), merge=True)
        run.eq(list(merged), [(n, defaults[n]) if n in defaults else n for n in names] + [('name', '')], 'merged arguments')
        for schema, extra in ((ClassSchema(cls), ['name']), (MethodSchema(cls.method), [])):
            props = schema.property_schemas
            run.eq(list(props), names + extra, 'schema properties are not the arguments of the signature, in order')
            for n in names:
                p = props[n]
                run.check(bool(p.has_default_value) == (n in defaults), 'schema default does not match the signature', name=n)
                run.eq(p.serialized, serialize_annotation(inspect.signature(cls.__init__).parameters[n].annotation), 'schema typing', name=n)
                if n in defaults and types[n] in ('int', 'float', 'str', 'bool'):
                    run.check(p.default_value() == defaults[n] and type(p.default_value()) is type(defaults[n]), 'schema default value', name=n, got=p.default_value(), want=defaults[n])
            d = schema.to_dict()
            json.dumps(d)
            got = [c['key'] for s in d['steps'] for c in s['properties']]
            run.eq(got, names + extra, 'keys of the serialized schema')
            for c in d['steps'][0]['properties']:
                n = c['key']
                if n in names:
                    run.check(('defaultValue' in c) == (n in defaults), 'defaultValue of the serialized schema', name=n, chunk=c)
                    run.eq(c['pythonTyping'], props[n].serialized, 'pythonTyping of the serialized schema')
            run.check(schema.is_valid, 'a well typed signature is reported invalid', names=names, types=types, checks=schema.check_list())
        run.check(list(ClassSchema(cls).default_dict()) == names + ['name', 'object_class'], 'default_dict')


def schema_twice(run, rng):
    """a schema does not depend on what was computed before"""
    from dessia_common.schemas.core import ClassSchema
    def strip(d):
        return {k: (strip(v) if isinstance(v, dict) else [strip(x) if isinstance(x, dict) else x for x in v] if isinstance(v, list) else v) for k, v in d.items() if k not in ('group_id', 'id')}
    for cls in (M.Leaf, M.Box, M.Team, M.Pair, M.Item, M.Partial) * run.n(2):
        try:
            a = strip(ClassSchema(cls).to_dict())
        except ValueError:
            continue      # unsupported dictionary typing
        run.case(cls.__name__)
        run.eq(strip(ClassSchema(cls).to_dict()), a, 'schema of the same class changes')


if __name__ == '__main__':
    sys.exit(main('C13', [('roundtrip', roundtrip), ('injective', injective), ('args', args), ('class_schemas', class_schemas), ('schema_twice', schema_twice)],
                  {}))
