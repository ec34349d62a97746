"""C16: addressing, serialisation and copy of workflows"""
import io
import json
import lib
from lib import main, Skip
import wfmodels as W
from wfmodels import norm
from dessia_common.core import DessiaObject
from dessia_common.workflow.core import Variable, Pipe, Workflow, WorkflowState, WorkflowRun
from dessia_common.workflow import blocks as wb
from c05 import good_spec, run_values
from c06 import configure


def addressing(run, rng):
    """an address designates one variable: address -> variable -> address and back"""
    for _ in range(run.n(100, 4000)):
        if run.over():
            break
        sp = W.spec(rng)
        b = W.build(sp, rng)
        wf = b.workflow
        run.case(sp)
        seen = {}
        for v in wf.variables:
            a = wf.variable_indices(v)
            run.check(a not in seen, 'two variables have the same address', address=a)
            seen[a] = v
            run.check(wf.variable_from_index(a) is v, 'variable_from_index(variable_indices(v)) is not v', address=a)
            if not isinstance(a, int):
                run.check(wf.variable_from_index(list(a)) is v, 'address read from JSON', address=a)
                run.check(wf.block_from_variable(v) is wf.blocks[a[0]], 'block_from_variable')
                run.check((wf.blocks[a[0]].outputs if a[1] else wf.blocks[a[0]].inputs)[a[2]] is v, 'address (block, side, rank)')
            else:
                run.check(wf.nonblock_variables[a] is v and wf.is_variable_nbv(v), 'address of a nonblock variable')
            run.check(wf.variables[wf.variable_index(v)] is v, 'variable_index')
        run.eq(len(wf.variables), sum(len(x.inputs) + len(x.outputs) for x in wf.blocks) + len(sp['nbvs']), 'number of variables')
        for p in wf.pipes:
            up, down = wf.pipe_variable_indices(p)
            run.check(wf.variable_from_index(up) is p.input_variable and wf.variable_from_index(down) is p.output_variable, 'pipe addresses')
            run.check(wf.pipe_from_variable_indices(up, down) is p, 'pipe_from_variable_indices')
        for i, blk in enumerate(b.blocks):
            run.check({id(x) for x in wf.upstream_blocks(blk)} == {id(b.blocks[u]) for u in W.upstream(sp, i)}, 'upstream_blocks')
            outs = {id(p) for k, p in b.pipe.items() if sp['wires'][k][:2] == ('out', i)}
            run.check({id(p) for p in wf.block_outgoing_pipes(blk)} == outs, 'block_outgoing_pipes')
        run.check({id(x) for x in wf.runtime_blocks} == {id(b.blocks[i]) for i in W.runtime(sp)} and
                  len(wf.runtime_blocks) == len(W.runtime(sp)), 'runtime_blocks: the blocks the output depends on, once each')


def decorate(run, rng, sp, b):
    """random names, labels, positions, defaults, locks, steps, documentation"""
    wf = b.workflow
    conf = configure(run, rng, b, sp)
    for i in range(len(wf.inputs)):
        if rng.random() < .3:
            wf.rename_input(i, rng.choice(['a label', 'é', 'x/y']))
    for j, blk in enumerate(wf.blocks):
        if rng.random() < .5 and type(blk).__name__ not in ('WorkflowBlock', 'ForEach'):
            blk.name = rng.choice(['one', 'two', 'é "'])
        if rng.random() < .5:
            blk.position = (rng.randint(0, 9), 2.5)
    for v in wf.nonblock_variables:
        if rng.random() < .5:
            v.position = (rng.randint(0, 9), 2.5)
    wf.description = rng.choice(['', 'short'])
    wf.documentation = rng.choice(['', 'long\ntext'])
    if rng.random() < .5:
        for _ in range(rng.randint(1, 2)):
            wf.insert_step(rng.choice(['s', 't']))
        for i in range(len(wf.inputs)):
            if rng.random() < .6:
                wf.change_input_step(i, rng.randrange(len(wf.steps)))
        if rng.random() < .5:
            wf.save_step_documentation(0, 'doc')
        gears = [v for v in wf.variables if v.type_ is W.Gear and any(v in x.outputs for x in wf.blocks)]
        if gears and rng.random() < .6:
            v = rng.choice(gears)
            wf.add_step_display(wf.variables.index(v), rng.randrange(len(wf.steps)), 'Markdown')
    return conf


def describe(wf, addr=True):
    """what a workflow is, without the repository's equality"""
    def var(v):
        return dict(name=v.name, type_=str(v.type_), label=v.label, locked=v.locked, default=(norm(v.default_value) if v.has_default_value else '-'))
    full = dict(
        name=wf.name, description=wf.description, documentation=wf.documentation,
        blocks=[dict(cls=type(b).__name__, name=b.name, position=tuple(b.position), inputs=[var(v) for v in b.inputs],
                     outputs=[v.name for v in b.outputs]) for b in wf.blocks],
        nbvs=[dict(var(v), position=tuple(v.position)) for v in wf.nonblock_variables],
        pipes=sorted(str(wf.pipe_variable_indices(p)) for p in wf.pipes),
        output=wf.variable_indices(wf.output),
        inputs=[wf.variable_indices(v) for v in wf.inputs],
        steps=[dict(label=s.label, inputs=[wf.variable_indices(v) for v in s.inputs], documentation=s.documentation,
                    group=sorted(str(wf.variable_indices(v)) for v in s.group_inputs), variable=s.display_variable_index,
                    display=None if s.display_setting is None else s.display_setting.selector) for s in wf.steps],
        spare=sorted(str(wf.variable_indices(v)) for v in wf.spare_inputs))
    return full


def diff_keys(a, b, path=''):
    if type(a) is type(b) and isinstance(a, dict) and set(a) == set(b):
        return [x for k in a for x in diff_keys(a[k], b[k], f'{path}/{k}')]
    if type(a) is type(b) and isinstance(a, list) and len(a) == len(b):
        return [x for k, (u, v) in enumerate(zip(a, b)) for x in diff_keys(u, v, f'{path}/{k}')]
    return [] if a == b else [(path, a, b)]


def same_run(run, rng, sp, b, conf, wf2, what):
    """the two workflows compute the same results"""
    for _ in range(2):
        vals = W.values_for(rng, sp)
        eff = {k: (c[1] if c[2] else vals[k]) for k, c in conf.items()}
        try:
            memo, _ = W.oracle(sp, eff)
        except IndexError:
            continue
        r = wf2.run(run_values(b, vals))
        run.eq(norm(r.output_value), norm(memo[sp['out'][0]][sp['out'][1]]), f'output of the {what} workflow')


def make(run, rng, **kw):
    while True:
        sp, vals = good_spec(rng, **kw)
        b = W.build(sp, rng)
        # a variable that feeds several ports: ports of one type (deserialization gives it the type of its port)
        types = {}
        for (bi, i), w in sp['wires'].items():
            if w is not None and w[0] == 'nbv':
                types.setdefault(w[1], []).append(b.blocks[bi].inputs[i].type_)
        if all(t == ts[0] for ts in types.values() for t in ts):
            break
    for j, ts in types.items():
        b.nbvs[j].type_ = ts[0]
    conf = decorate(run, rng, sp, b)
    return sp, b, conf, vals


def roundtrip(run, rng):
    """to_dict -> JSON -> dict_to_object gives an equal workflow that computes the same results"""
    for _ in range(run.n(80, 3000)):
        if run.over():
            break
        sp, b, conf, vals = make(run, rng)
        wf = b.workflow
        before = describe(wf)
        run.case((sp, before))
        text = json.dumps(wf.to_dict())
        run.eq(describe(wf), before, 'to_dict changed the workflow')
        wf2 = Workflow.dict_to_object(json.loads(text))
        d = diff_keys(before, describe(wf2))
        run.check(not d, 'the deserialized workflow differs', diff=d)
        run.check(wf2 == wf and hash(wf2) == hash(wf), 'the deserialized workflow is not equal to the original')
        run.check(not {id(v) for v in wf.variables} & {id(v) for v in wf2.variables}, 'shared variables')
        run.eq(json.loads(json.dumps(wf2.to_dict())), json.loads(text), 'serializing again gives another dictionary')
        same_run(run, rng, sp, b, conf, wf2, 'deserialized')
        wf3 = DessiaObject.dict_to_object(json.loads(text))
        run.check(isinstance(wf3, Workflow) and wf3 == wf, 'DessiaObject.dict_to_object of a workflow')


def copies(run, rng):
    """a copy is equal, computes the same results and shares nothing with the original"""
    for _ in range(run.n(80, 3000)):
        if run.over():
            break
        sp, b, conf, vals = make(run, rng)
        wf = b.workflow
        before = describe(wf)
        run.case((sp, before))
        c = wf.copy()
        run.eq(describe(wf), before, 'copy changed the workflow')
        ref, got = dict(before), describe(c)
        for k in ('blocks', 'nbvs'):
            for x, y in zip(ref[k], got[k]):
                pass
        d = diff_keys(ref, got)
        run.check(not d, 'the copy differs', diff=d)
        run.check(c == wf and hash(c) == hash(wf), 'the copy is not equal to the original')
        ids = lambda w: {id(x) for x in w.variables + w.blocks + w.pipes + w.steps}
        run.check(not ids(wf) & ids(c), 'the copy shares blocks, pipes, steps or variables')
        same_run(run, rng, sp, b, conf, c, 'copied')
        # changing the copy does not change the original
        for v in c.inputs:
            v.lock(None)
            v.label = 'changed'
        for s in c.steps:
            s.label = 'changed'
        if c.steps:
            c.reset_steps()
        c.insert_step('new')
        run.eq(describe(wf), before, 'changing the copy changed the original')


def equality(run, rng):
    """workflows with a different structure are different"""
    for _ in range(run.n(80, 3000)):
        if run.over():
            break
        sp, vals = good_spec(rng, n_blocks=rng.randint(2, 6), kinds=['Probe', 'Sum', 'Sequence', 'InstantiateModel', 'ModelAttribute'])
        a, b = W.build(sp), W.build(sp)
        run.case(sp)
        run.check(a.workflow == b.workflow and b.workflow == a.workflow and hash(a.workflow) == hash(b.workflow), 'two constructions of the same workflow are not equal')
        how = rng.choice(['wire', 'block', 'output', 'lock', 'param'])
        sp2 = dict(sp, wires=dict(sp['wires']), blocks=list(sp['blocks']))
        if how == 'wire':
            outs = [(k, w) for k, w in sp['wires'].items() if w is not None and w[0] == 'out']
            if not outs:
                continue
            k, w = rng.choice(outs)
            kind = sp['blocks'][k[0]][2][k[1]]
            alts = [('out', b2, o) for b2 in range(k[0]) for o, ok in enumerate(sp['blocks'][b2][3]) if ok == kind and ('out', b2, o) != w]
            if not alts:
                continue
            sp2['wires'][k] = rng.choice(alts)
        elif how == 'output':
            alts = [(i, o) for i, x in enumerate(sp['blocks']) for o in range(len(x[3])) if (i, o) != tuple(sp['out'])]
            if not alts:
                continue
            sp2['out'] = rng.choice(alts)
        elif how == 'block':
            sp2['blocks'].append(('Probe', dict(tag=5, i=1, o=1), ['n'], ['n']))
            sp2['wires'][len(sp['blocks']), 0] = None
        elif how == 'param':
            i = [j for j, x in enumerate(sp['blocks']) if x[0] == 'Probe']
            if not i:
                continue
            k, p, ins, outs = sp['blocks'][i[0]]
            sp2['blocks'][i[0]] = (k, dict(p, tag=p['tag'] + 1), ins, outs)
        b = W.build(sp2)
        if how == 'lock':
            if not b.workflow.inputs:
                continue
            b.workflow.inputs[0].lock(3)
        run.check(not (a.workflow == b.workflow), f'workflows that differ by {how} are equal', other=sp2)


def states(run, rng):
    """states and runs survive serialisation and copy"""
    for _ in range(run.n(50, 2000)):
        if run.over():
            break
        sp, b, conf, vals = make(run, rng)
        eff = {k: (c[1] if c[2] else vals[k]) for k, c in conf.items()}
        try:
            memo, _ = W.oracle(sp, eff)
        except IndexError:
            continue
        run.case((sp, vals))
        wf = b.workflow
        want = norm(memo[sp['out'][0]][sp['out'][1]])
        r = wf.run(run_values(b, vals), name='my run')
        r2 = WorkflowRun.dict_to_object(json.loads(json.dumps(r.to_dict())))
        out = norm(r2.output_value)
        run.eq(json.dumps(out).replace('"tuple"', '"list"'), json.dumps(want).replace('"tuple"', '"list"'), 'output of a deserialized run')
        run.eq(r2.name, 'my run', 'name of a deserialized run')
        run.eq({i: norm(v) for i, v in r2.input_values.items()}, {i: norm(v) for i, v in r.input_values.items()}, 'inputs of a deserialized run')
        run.check(r2.workflow == wf, 'workflow of a deserialized run')
        run.eq([wf.blocks.index(x) for x, _ in r.execution_info.after_block_memory_usage],
               [r2.workflow.blocks.index(x) for x, _ in r2.execution_info.after_block_memory_usage], 'blocks executed, after deserialization')
        if 'tuple' not in json.dumps(want):
            run.check(r2 == r and hash(r2) == hash(r), 'the deserialized run is not equal to the run')
        c = r.copy()
        run.check(c.workflow is not wf, 'the copy of a run shares its workflow')
        if 'tuple' not in json.dumps(want):     # copies hold lists in place of tuples
            run.check(c == r, 'copy of a run')
            run.eq(norm(c.output_value), want, 'output value of the copy of a run')
        # a state copied half-way goes on by itself
        st = wf.start_run(wf.input_values(run_values(b, vals)))
        for _ in range(rng.randint(0, 3)):
            st.block_evaluation(rng.randrange(len(wf.blocks)))
        done = [bool(st.activated_items[x]) for x in wf.blocks]
        st2 = st.copy()
        run.eq([bool(st2.activated_items[x]) for x in st2.workflow.blocks], done, 'evaluated blocks of a copied state')
        st2.continue_run()
        run.eq(json.dumps(norm(st2.to_workflow_run().output_value)).replace('"tuple"', '"list"'), json.dumps(want).replace('"tuple"', '"list"'), 'output of a copied state')
        run.eq([bool(st.activated_items[x]) for x in wf.blocks], done, 'continuing the copy changed the original state')
        st.continue_run()
        run.eq(norm(st.to_workflow_run().output_value), want, 'output of a state that was copied')


def script(run, rng):
    """the exported script builds a workflow with the same blocks, pipes and output"""
    for _ in range(run.n(40, 1500)):
        if run.over():
            break
        sp, vals = good_spec(rng)
        b = W.build(sp, rng)
        run.case(sp)
        text = b.workflow.to_script()
        env = {}
        exec(compile(text, 'script', 'exec'), env)
        wf2 = env['workflow']
        x, y = describe(b.workflow), describe(wf2)
        for k in ('blocks', 'pipes', 'output', 'inputs', 'name'):
            run.eq(y[k], x[k], f'{k} of the workflow built by the script', script=text)
        run.check(wf2 == b.workflow, 'the workflow built by the script is not equal')
        conf = {k: (W.var_of(b, k).has_default_value, W.var_of(b, k).default_value, False) for k in W.free_inputs(sp)}
        same_run(run, rng, sp, b, conf, wf2, 'scripted')


if __name__ == '__main__':
    import sys
    sys.exit(main('C16', [('addressing', addressing), ('roundtrip', roundtrip), ('copies', copies), ('equality', equality),
                          ('states', states), ('script', script)]))
