"""Classes and a random workflow generator with a reference semantics, for the workflow contracts."""
import itertools
from typing import List
from dessia_common.core import DessiaObject, DessiaFilter
from dessia_common.displays import DisplaySetting
from dessia_common.typings import MethodType, ClassMethodType, AttributeType
from dessia_common.workflow.core import Block, Pipe, Variable, Workflow
from dessia_common.workflow import blocks as wb

LOG = []          # (id of probe block, tag, input values) in order of evaluation


class Gear(DessiaObject):
    """a model with methods for workflow blocks"""
    _standalone_in_db = True

    def __init__(self, x: int, y: int, ratio: int = 3, name: str = ''):
        self.x = x
        self.y = y
        self.ratio = ratio
        super().__init__(name=name)

    def scaled(self, factor: int, offset: int = 5) -> int:
        return self.x * factor + offset

    def spun(self, turns: int, progress_callback=lambda x: None) -> int:
        progress_callback(0.5)
        return self.y * 2 + turns * self.ratio

    @classmethod
    def pinion(cls, x: int, y: int = 4) -> 'Gear':
        return cls(x=x, y=y, ratio=7, name='pinion')

    @classmethod
    def display_settings(cls, **kwargs):
        return [DisplaySetting(selector='Markdown', type_='markdown', method='to_markdown', load_by_default=True)]

    def key(self):
        return ('Gear', self.x, self.y, self.ratio, self.name)


class Probe(Block):
    """a block with any number of inputs and outputs that records its evaluations"""

    def __init__(self, tag: int = 0, number_inputs: int = 1, number_outputs: int = 1, name: str = 'Probe',
                 position=(0, 0)):
        self.tag = tag
        self.number_inputs = number_inputs
        self.number_outputs = number_outputs
        super().__init__(inputs=[Variable(type_=int, name=f'in {i}') for i in range(number_inputs)],
                         outputs=[Variable(type_=int, name=f'out {i}') for i in range(number_outputs)],
                         name=name, position=position)

    def equivalent_hash(self):
        return self.tag + 3 * self.number_inputs + 5 * self.number_outputs

    def equivalent(self, other):
        return super().equivalent(other) and self.tag == other.tag and self.number_outputs == other.number_outputs

    @classmethod
    def dict_to_object(cls, dict_, **kwargs):
        block = cls(tag=dict_['tag'], number_inputs=dict_['number_inputs'], number_outputs=dict_['number_outputs'],
                    name=dict_['name'], position=dict_['position'])
        block.deserialize_variables(dict_)
        return block

    @staticmethod
    def reference(tag, number_outputs, args):
        return [(tag * 31 + 7 * o + 1 + sum((i + 2 + o) * v for i, v in enumerate(args))) % 100003
                for o in range(number_outputs)]

    def evaluate(self, values, **kwargs):
        args = [values[i] for i in self.inputs]
        LOG.append((self, self.tag, tuple(args)))
        return self.reference(self.tag, self.number_outputs, args)

    def _to_script(self, _):
        from dessia_common.workflow.utils import ToScriptElement
        return ToScriptElement(declaration=f'Probe(tag={self.tag}, number_inputs={self.number_inputs}, '
                                           f'number_outputs={self.number_outputs}, {self.base_script()})',
                               imports=[self.full_classname])


# kinds of values: 'n' int, 'l' list of ints, 'g' Gear, 'G' list of gears, 's' string, 'L' list of lists, 'any'
def sub_spec(rng, n_in):
    """a small sub-workflow on ints with n_in free inputs"""
    return dict(kind='sub', tags=[rng.randint(1, 50), rng.randint(1, 50)], n=n_in)


def build_sub(p):
    b0 = Probe(tag=p['tags'][0], number_inputs=p['n'])
    b1 = Probe(tag=p['tags'][1], number_inputs=1)
    return Workflow([b0, b1], [Pipe(b0.outputs[0], b1.inputs[0])], b1.outputs[0], name='sub')


def ref_sub(p, args):
    (a,) = Probe.reference(p['tags'][0], 1, args)
    (b,) = Probe.reference(p['tags'][1], 1, [a])
    return b


class Kind:
    """one kind of block: parameters, signature, construction, reference semantics"""

    def __init__(self, name, params, sig, build, ref):
        self.name, self.params, self.sig, self.build, self.ref = name, params, sig, build, ref


def _flt(p):
    return wb.Filter([DessiaFilter(a, o, b) for a, o, b in p['filters']], logical_operator=p['op'])


_OPS = {'>': lambda a, b: a > b, 'gt': lambda a, b: a > b, '<': lambda a, b: a < b, 'lt': lambda a, b: a < b,
        '>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def _ref_filter(p, gears):
    comb = all if p['op'] == 'and' else any
    return [g for g in gears if comb(_OPS[o](getattr(g, a), b) for a, o, b in p['filters'])]


KINDS = [
    Kind('Probe', lambda r: dict(tag=r.randint(1, 90), i=r.randint(1, 3), o=r.randint(1, 2)),
         lambda p: (['n'] * p['i'], ['n'] * p['o']),
         lambda p: Probe(tag=p['tag'], number_inputs=p['i'], number_outputs=p['o']),
         lambda p, a: Probe.reference(p['tag'], p['o'], a)),
    Kind('Link', lambda r: dict(tag=r.randint(1, 90)), lambda p: (['n'], ['n']), lambda p: Probe(tag=p['tag']),
         lambda p, a: Probe.reference(p['tag'], 1, a)),
    Kind('Substraction', lambda r: {}, lambda p: (['n', 'n'], ['n']), lambda p: wb.Substraction(),
         lambda p, a: [a[0] - a[1]]),
    Kind('Sum', lambda r: dict(n=r.randint(1, 4)), lambda p: (['n'] * p['n'], ['n']),
         lambda p: wb.Sum(number_elements=p['n']), lambda p, a: [sum(a)]),
    Kind('Sequence', lambda r: dict(n=r.randint(1, 4)), lambda p: (['n'] * p['n'], ['l']),
         lambda p: wb.Sequence(p['n']), lambda p, a: [list(a)]),
    Kind('SequenceG', lambda r: dict(n=r.randint(1, 3)), lambda p: (['g'] * p['n'], ['G']),
         lambda p: wb.Sequence(p['n']), lambda p, a: [list(a)]),
    Kind('SequenceL', lambda r: dict(n=r.randint(1, 3)), lambda p: (['l'] * p['n'], ['L']),
         lambda p: wb.Sequence(p['n']), lambda p, a: [list(a)]),
    Kind('Concatenate', lambda r: dict(n=r.randint(1, 3)), lambda p: (['l'] * p['n'], ['l']),
         lambda p: wb.Concatenate(p['n']), lambda p, a: [[x for l in a for x in l]]),
    Kind('Flatten', lambda r: {}, lambda p: (['L'], ['l']), lambda p: wb.Flatten(),
         lambda p, a: [[x for l in a[0] for x in l]]),
    Kind('Unpacker', lambda r: dict(ix=r.choice([[0], [0, 0], [-1], [-1, 0]])), lambda p: (['l'], ['n'] * len(p['ix'])),
         lambda p: wb.Unpacker(p['ix']), lambda p, a: [a[0][i] for i in p['ix']]),
    Kind('Product', lambda r: dict(n=r.randint(1, 2)), lambda p: (['l'] * p['n'], ['any']),
         lambda p: wb.Product(p['n']), lambda p, a: [list(itertools.product(*a))]),
    Kind('InstantiateModel', lambda r: {}, lambda p: (['n', 'n', 'n', 's'], ['g']), lambda p: wb.InstantiateModel(Gear),
         lambda p, a: [Gear(a[0], a[1], a[2], a[3])]),
    Kind('ClassMethod', lambda r: {}, lambda p: (['n', 'n'], ['g']),
         lambda p: wb.ClassMethod(ClassMethodType(Gear, 'pinion')), lambda p, a: [Gear(a[0], a[1], 7, 'pinion')]),
    Kind('ModelMethod', lambda r: {}, lambda p: (['g', 'n', 'n'], ['n', 'g']),
         lambda p: wb.ModelMethod(MethodType(Gear, 'scaled')), lambda p, a: [a[0].x * a[1] + a[2], a[0]]),
    Kind('ModelMethod2', lambda r: {}, lambda p: (['g', 'n'], ['n', 'g']),
         lambda p: wb.ModelMethod(MethodType(Gear, 'spun')), lambda p, a: [a[0].y * 2 + a[1] * a[0].ratio, a[0]]),
    Kind('ModelAttribute', lambda r: dict(a=r.choice(['x', 'y', 'ratio'])), lambda p: (['g'], ['n']),
         lambda p: wb.ModelAttribute(p['a']), lambda p, a: [getattr(a[0], p['a'])]),
    Kind('GetModelAttribute', lambda r: dict(a=r.choice(['x', 'y', 'ratio'])), lambda p: (['g'], ['n']),
         lambda p: wb.GetModelAttribute(AttributeType(Gear, p['a'])), lambda p, a: [getattr(a[0], p['a'])]),
    Kind('Filter', lambda r: dict(op=r.choice(['and', 'or']),
                                  filters=[(r.choice(['x', 'y']), r.choice(sorted(_OPS)), r.randint(0, 9))
                                           for _ in range(r.randint(1, 2))]),
         lambda p: (['G'], ['G']), _flt, lambda p, a: [_ref_filter(p, a[0])]),
    Kind('ConcatenateStrings', lambda r: dict(n=r.randint(1, 3), sep=r.choice(['', '-', ', '])),
         lambda p: (['s'] * p['n'], ['s']), lambda p: wb.ConcatenateStrings(p['n'], separator=p['sep']),
         lambda p, a: [p['sep'].join(a)]),
    Kind('WorkflowBlock', lambda r: sub_spec(r, r.randint(1, 3)), lambda p: (['n'] * p['n'], ['n']),
         lambda p: wb.WorkflowBlock(build_sub(p)), lambda p, a: [ref_sub(p, a)]),
    Kind('ForEach', lambda r: dict(sub_spec(r, r.randint(1, 3)), it=0), lambda p: (
        ['l' if i == p['it'] % p['n'] else 'n' for i in range(p['n'])], ['l']),
         lambda p: wb.ForEach(wb.WorkflowBlock(build_sub(p)), iter_input_index=p['it'] % p['n']),
         lambda p, a: [[ref_sub(p, [v if i == p['it'] % p['n'] else x for i, x in enumerate(a)])
                        for v in a[p['it'] % p['n']]]]),
]
BY_NAME = {k.name: k for k in KINDS}
KIND_TYPES = {'n': int, 'l': List[int], 'g': Gear, 'G': List[Gear], 's': str, 'L': List[List[int]]}


def value(rng, kind):
    if kind == 'n':
        return rng.randint(-9, 30)
    if kind == 's':
        return rng.choice(['', 'a', 'bc', 'é"'])
    if kind == 'l':
        return [rng.randint(-9, 30) for _ in range(rng.randint(1, 3))]
    if kind == 'L':
        return [value(rng, 'l') for _ in range(rng.randint(1, 2))]
    if kind == 'g':
        return Gear(rng.randint(0, 9), rng.randint(0, 9), rng.randint(1, 5), rng.choice(['', 'g']))
    if kind == 'G':
        return [value(rng, 'g') for _ in range(rng.randint(0, 3))]
    raise KeyError(kind)


def spec(rng, n_blocks=None, kinds=None, nbvs=True, chain=False):
    """a random workflow: a DAG of blocks; inputs not wired are workflow inputs"""
    n = n_blocks or rng.randint(1, 7)
    blocks, wires, nbv_kinds = [], {}, []
    for b in range(n):
        k = rng.choice(kinds or KINDS)
        if isinstance(k, str):
            k = BY_NAME[k]
        p = k.params(rng)
        if 'it' in p:
            p['it'] = rng.randint(0, 2)
        ins, outs = k.sig(p)
        for i, kind in enumerate(ins):
            cands = [('out', b2, o) for b2 in range(b) for o, ok in enumerate(blocks[b2][3]) if ok == kind]
            r = rng.random()
            if cands and (chain and i == 0 or r < .75):
                wires[b, i] = rng.choice(cands[-1:] if chain else cands[-4:])
            elif nbvs and r < .87:
                ks = [j for j, kk in enumerate(nbv_kinds) if kk == kind]
                if ks and rng.random() < .6:
                    j = rng.choice(ks)
                else:
                    j = len(nbv_kinds)
                    nbv_kinds.append(kind)
                wires[b, i] = ('nbv', j)
            else:
                wires[b, i] = None
        blocks.append((k.name, p, ins, outs))
    out = (n - 1, rng.randrange(len(blocks[-1][3])))
    if rng.random() < .3:
        b = rng.randrange(n)
        out = (b, rng.randrange(len(blocks[b][3])))
    return dict(blocks=blocks, wires=wires, nbvs=nbv_kinds, out=out)


class Built:
    pass


def build(sp, rng=None, steps=None, **kw):
    """the workflow of the spec; with rng, blocks and pipes are given in a random order"""
    b = Built()
    b.spec = sp
    b.blocks = [BY_NAME[k].build(p) for k, p, _, _ in sp['blocks']]
    b.nbvs = [Variable(type_=KIND_TYPES[k], name=f'nbv {j}') for j, k in enumerate(sp['nbvs'])]
    b.pipe = {}
    for (bi, i), w in sp['wires'].items():
        if w is not None:
            src = b.nbvs[w[1]] if w[0] == 'nbv' else b.blocks[w[1]].outputs[w[2]]
            b.pipe[bi, i] = Pipe(src, b.blocks[bi].inputs[i])
    blocks, pipes = list(b.blocks), list(b.pipe.values())
    if rng is not None:
        rng.shuffle(blocks)
        rng.shuffle(pipes)
    b.workflow = Workflow(blocks, pipes, b.blocks[sp['out'][0]].outputs[sp['out'][1]], name='wf', **kw)
    return b


def free_inputs(sp):
    """keys of the workflow inputs of the spec"""
    return [('in',) + k for k, w in sp['wires'].items() if w is None] + [('nbv', j) for j in range(len(sp['nbvs']))]


def kind_of(sp, key):
    return sp['nbvs'][key[1]] if key[0] == 'nbv' else sp['blocks'][key[1]][2][key[2]]


def var_of(b, key):
    return b.nbvs[key[1]] if key[0] == 'nbv' else b.blocks[key[1]].inputs[key[2]]


def index_of(b, key):
    v = var_of(b, key)
    return [j for j, x in enumerate(b.workflow.inputs) if x is v][0]


def values_for(rng, sp):
    return {k: value(rng, kind_of(sp, k)) for k in free_inputs(sp)}


def runtime(sp):
    """blocks the output depends on"""
    todo, seen = [sp['out'][0]], set()
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        for i in range(len(sp['blocks'][b][2])):
            w = sp['wires'].get((b, i))
            if w is not None and w[0] == 'out':
                todo.append(w[1])
    return seen


def upstream(sp, b):
    return {w[1] for i in range(len(sp['blocks'][b][2])) for w in [sp['wires'].get((b, i))] if w is not None and w[0] == 'out'}


def oracle(sp, vals, only=None):
    """the output values of all blocks (or those of `only`)"""
    memo = {}

    def get(b):
        if b not in memo:
            k, p, ins, _ = sp['blocks'][b]
            memo[b] = BY_NAME[k].ref(p, [arg(b, i) for i in range(len(ins))])
        return memo[b]

    def arg(b, i):
        w = sp['wires'][b, i]
        if w is None:
            return vals['in', b, i]
        if w[0] == 'nbv':
            return vals['nbv', w[1]]
        return get(w[1])[w[2]]

    for b in (range(len(sp['blocks'])) if only is None else only):
        get(b)
    return memo, arg


def norm(v):
    """structural normal form of a value, to compare without the repository's equality"""
    if isinstance(v, Gear):
        return v.key()
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [norm(x) for x in v])
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return (type(v).__name__, v)
