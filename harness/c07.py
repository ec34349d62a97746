"""C07: wizard steps of a workflow partition its inputs"""
import lib
from lib import main
import wfmodels as W
from dessia_common.workflow.core import Step


def snapshot(wf):
    ids = {id(v): i for i, v in enumerate(wf.inputs)}
    return ([ids.get(id(v)) for v in wf.spare_inputs], [[ids.get(id(v)) for v in s.inputs] for s in wf.steps])


def form(run, wf, hist):
    """the run form shows every input exactly once: in its step or among the spare ones"""
    d = wf.method_schemas['run']
    spare, steps = snapshot(wf)
    if not isinstance(d, dict) or 'steps' not in d or 'spareProperties' not in d:
        raise lib.Skip('the form has another shape')

    def keys(props):
        out = []
        for p in props:
            out += keys(p['properties']) if p.get('formType') == 'group' else [int(p['key'])]
        return out
    run.eq([sorted(keys(s['properties'])) for s in d['steps']], [sorted(s) for s in steps], 'inputs shown in the steps of the form', hist=hist)
    run.eq(sorted(keys(d['spareProperties'])), sorted(spare), 'inputs shown out of the steps of the form', hist=hist)
    run.eq([s['label'] for s in d['steps']], [s.label for s in wf.steps], 'labels shown in the form', hist=hist)


def histories(run, rng):
    for _ in range(run.n(120, 5000)):
        if run.over():
            break
        sp = W.spec(rng, kinds=['Probe', 'Sum', 'InstantiateModel', 'ModelMethod'])
        b = W.build(sp, rng)
        wf = b.workflow
        n = len(wf.inputs)
        spare, steps = list(range(n)), []
        labels, docs = [], []
        hist = []
        run.case((sp, hist))
        run.eq(snapshot(wf), (spare, steps), 'a new workflow has all its inputs spare')
        for _ in range(rng.randint(3, 14)):
            op = rng.choice(['insert', 'insert', 'change', 'change', 'change', 'changes', 'remove_input', 'reorder_inputs',
                             'bad_reorder_inputs', 'reorder_steps', 'bad_reorder_steps', 'remove_step', 'reset', 'rename',
                             'doc'])
            before = snapshot(wf)
            bad = None
            if op == 'insert':
                at = rng.choice([None, 0, rng.randint(0, len(steps))])
                label = rng.choice(['', 'a', 'b'])
                hist.append((op, at, label))
                wf.insert_step(label, at)
                at = len(steps) if at is None else at
                steps.insert(at, [])
                labels.insert(at, label)
                docs.insert(at, '')
            elif op in ('change', 'changes') and n and steps:
                ixs = [rng.randrange(n)] if op == 'change' else rng.sample(range(n), rng.randint(1, n))
                st = rng.randrange(len(steps))
                hist.append((op, ixs, st))
                if op == 'change':
                    wf.change_input_step(ixs[0], st)
                else:
                    wf.change_inputs_step(ixs, st)
                for i in ixs:
                    src = spare if i in spare else [s for s in steps if i in s][0]
                    src.remove(i)
                    steps[st].append(i)
            elif op == 'remove_input' and n:
                i = rng.randrange(n)
                hist.append((op, i))
                if i in spare:
                    try:
                        wf.remove_input_from_step(i)
                    except Exception:
                        pass
                    run.eq(sorted(snapshot(wf)[0]), sorted(spare), 'removing a spare input changed the partition', hist=hist)
                    run.eq(snapshot(wf)[1], steps, 'removing a spare input changed the steps', hist=hist)
                    spare = snapshot(wf)[0]
                else:
                    wf.remove_input_from_step(i)
                    [s for s in steps if i in s][0].remove(i)
                    spare.append(i)
            elif op == 'reorder_inputs' and steps:
                st = rng.randrange(len(steps))
                order = rng.sample(steps[st], len(steps[st]))
                hist.append((op, st, order))
                wf.reorder_step_inputs(st, order)
                steps[st] = order
            elif op == 'bad_reorder_inputs' and steps:
                st = rng.randrange(len(steps))
                order = list(steps[st])
                how = rng.choice(['dup', 'other', 'drop', 'neg'])
                if how == 'dup' and order:
                    order.append(order[0])
                elif how == 'other' and len(order) < n:
                    order.append(rng.choice([i for i in range(n) if i not in order]))
                elif how == 'drop' and order:
                    order.pop()
                elif how == 'neg' and order:
                    order[0] -= n
                else:
                    continue
                hist.append((op, st, order))
                run.raises(lambda: wf.reorder_step_inputs(st, order), Exception, 'reorder_step_inputs with an order that is not a permutation', hist=hist)
            elif op == 'reorder_steps':
                order = rng.sample(range(len(steps)), len(steps))
                hist.append((op, order))
                wf.reorder_steps(order)
                steps = [steps[i] for i in order]
                labels = [labels[i] for i in order]
                docs = [docs[i] for i in order]
            elif op == 'bad_reorder_steps' and steps:
                order = list(range(len(steps)))
                how = rng.choice(['dup', 'drop', 'neg', 'out'])
                if how == 'dup':
                    order[0] = order[-1]
                    if len(order) == 1:
                        continue
                elif how == 'drop':
                    order.pop()
                elif how == 'neg':
                    if len(order) < 2:
                        continue
                    order[0] = -1
                else:
                    order[-1] += 5
                hist.append((op, order))
                run.raises(lambda: wf.reorder_steps(order), Exception, 'reorder_steps with an order that is not a permutation', hist=hist)
            elif op == 'remove_step' and steps:
                st = rng.randrange(len(steps))
                hist.append((op, st))
                wf.remove_step(st)
                spare += reversed(steps[st])
                del steps[st], labels[st], docs[st]
            elif op == 'reset' and rng.random() < .3:
                hist.append(op)
                wf.reset_steps()
                for s in reversed(steps):
                    spare += reversed(s)
                steps, labels, docs = [], [], []
            elif op == 'rename' and steps:
                st = rng.randrange(len(steps))
                hist.append((op, st))
                wf.rename_step(st, 'new')
                labels[st] = 'new'
            elif op == 'doc' and steps:
                st = rng.randrange(len(steps))
                hist.append((op, st))
                wf.save_step_documentation(st, 'text')
                docs[st] = 'text'
            else:
                continue
            gs, gt = snapshot(wf)
            flat = gs + [i for s in gt for i in s]
            run.eq(sorted(flat, key=str), list(sorted(range(n), key=str)), 'every input is in exactly one step or spare, once', hist=hist)
            run.eq(gt, steps, 'inputs of the steps', hist=hist)
            run.eq(sorted(gs), sorted(spare), 'spare inputs', hist=hist)
            spare = gs
            run.eq([s.label for s in wf.steps], labels, 'labels of the steps', hist=hist)
            run.eq([s.documentation for s in wf.steps], docs, 'documentation of the steps', hist=hist)
            for i, v in enumerate(wf.inputs):
                st = wf.find_input_step(v)
                want = [j for j, s in enumerate(steps) if i in s]
                run.check((st is None) == (not want) and (st is None or st is wf.steps[want[0]]), 'find_input_step', hist=hist)
        form(run, wf, hist)


def constructor(run, rng):
    """steps given to the constructor: the other inputs are spare"""
    for _ in range(run.n(40, 1000)):
        sp = W.spec(rng, kinds=['Probe', 'Sum', 'InstantiateModel'])
        b = W.build(sp)
        n = len(b.workflow.inputs)
        groups = [[] for _ in range(rng.randint(1, 3))]
        for i in range(n):
            if rng.random() < .7:
                rng.choice(groups).append(i)
        run.case((sp, groups))
        wf0 = b.workflow
        steps = [Step(label=f's{j}', inputs=[wf0.inputs[i] for i in g]) for j, g in enumerate(groups)]
        wf = W.Workflow(wf0.blocks, wf0.pipes, wf0.output, steps=steps)
        run.eq(snapshot(wf), ([i for i in range(n) if not any(i in g for g in groups)], groups), 'partition of a workflow built with steps')


def display(run, rng):
    """adding a display to a step moves the inputs it needs to this step, unless an earlier step has them"""
    for _ in range(run.n(60, 1500)):
        sp = W.spec(rng, kinds=['Probe', 'Sum', 'InstantiateModel', 'ModelMethod', 'ClassMethod'], n_blocks=rng.randint(2, 5))
        gears = [(i, o) for i, blk in enumerate(sp['blocks']) for o, k in enumerate(blk[3]) if k == 'g']
        if not gears:
            continue
        b = W.build(sp, rng)
        wf = b.workflow
        n = len(wf.inputs)
        hist = []
        run.case((sp, hist))
        for _ in range(rng.randint(1, 4)):
            wf.insert_step('s')
        for i in range(n):
            if rng.random() < .6:
                st = rng.randrange(len(wf.steps))
                hist.append((i, st))
                wf.change_input_step(i, st)
        for k in W.free_inputs(sp):
            if rng.random() < .15:
                W.var_of(b, k).lock(W.value(rng, W.kind_of(sp, k)))
                hist.append(('lock', W.index_of(b, k)))
        bi, o = rng.choice(gears)
        need, todo, seen = set(), [bi], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for i in range(len(sp['blocks'][x][2])):
                w = sp['wires'][x, i]
                if w is None or w[0] == 'nbv':
                    k = ('in', x, i) if w is None else w
                    if not W.var_of(b, k).locked:
                        need.add(W.index_of(b, k))
                else:
                    todo.append(w[1])
        var = b.blocks[bi].outputs[o]
        up = wf.upstream_inputs(var)
        run.eq(sorted(wf.input_index(v) for v in up), sorted(need), 'upstream_inputs: unlocked inputs the variable depends on', hist=hist)
        st = rng.randrange(len(wf.steps))
        _, before = snapshot(wf)
        sel = var.available_display_settings[0].selector
        hist.append(('display', bi, o, st, sel))
        wf.add_step_display(wf.variables.index(var), st, sel)
        gs, gt = snapshot(wf)
        run.eq(sorted(gs + [i for s in gt for i in s]), list(range(n)), 'every input is in exactly one step or spare, once', hist=hist)
        earlier = {i for s in before[:st] for i in s}
        for i in need:
            at = [j for j, s in enumerate(gt) if i in s]
            run.check(len(at) == 1 and at[0] <= st, 'an input the display needs is not in this step nor an earlier one', input=i, hist=hist)
            if i in earlier:
                run.check(i in before[at[0]], 'an input of an earlier step was moved', input=i, hist=hist)
        for i in set(range(n)) - need:
            run.eq([j for j, s in enumerate(gt) if i in s], [j for j, s in enumerate(before) if i in s], 'an input the display does not need was moved', hist=hist)
        run.check(wf.steps[st].display_setting.selector == sel and wf.steps[st].display_variable_index == wf.variables.index(var), 'display of the step')
        form(run, wf, hist)
        run.check({id(v) for v in wf.steps[st].group_inputs} == {id(v) for v in up}, 'inputs grouped under the display')
        wf.remove_step_display(st)
        run.check(wf.steps[st].display_setting is None and wf.steps[st].group_inputs == [], 'display removed')
        run.eq(snapshot(wf), (gs, gt), 'removing the display moved inputs')


if __name__ == '__main__':
    import sys
    sys.exit(main('C07', [('histories', histories), ('constructor', constructor), ('display', display)]))
