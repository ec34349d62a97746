"""C05: execution of workflows"""
import lib
from lib import main
import wfmodels as W
from wfmodels import norm
from dessia_common.workflow.core import Variable, Pipe, Workflow
from dessia_common.workflow import blocks as wb
from dessia_common.files import StringFile, BinaryFile


def run_values(b, vals):
    return {W.index_of(b, k): v for k, v in vals.items()}


def good_spec(rng, **kw):
    """a spec whose reference evaluation is defined (no index error)"""
    while True:
        sp = W.spec(rng, **kw)
        vals = W.values_for(rng, sp)
        try:
            W.oracle(sp, vals)
        except IndexError:
            continue
        return sp, vals


def check_log(run, sp, b, n0, expected):
    """probe blocks evaluated since n0: exactly the expected ones, once each, after what they depend on"""
    ids = {id(x): i for i, x in enumerate(b.blocks)}
    seq = [ids[id(blk)] for blk, _, _ in W.LOG[n0:] if id(blk) in ids]
    probes = {i for i in expected if sp['blocks'][i][0] in ('Probe', 'Link')}
    run.eq(sorted(seq), sorted(probes), 'the probe blocks evaluated are not the blocks the output depends on, once each')
    done = set()
    for i in seq:
        run.check(all(u in done for u in W.upstream(sp, i) if sp['blocks'][u][0] in ('Probe', 'Link')),
                  'block evaluated before a block it depends on', block=i, order=seq)
        done.add(i)


def results(run, rng):
    """run() gives the dataflow value of the output, whatever the order of blocks and pipes"""
    for _ in range(run.n(150, 6000)):
        if run.over():
            break
        deep = False
        kinds = rng.choice([None, None, ['Probe'], ['Probe', 'Sum', 'Substraction'],
                            ['Probe', 'Sequence', 'Concatenate', 'ForEach', 'Unpacker', 'SequenceL', 'Flatten', 'Product'],
                            ['InstantiateModel', 'ClassMethod', 'ModelMethod', 'ModelMethod2', 'ModelAttribute',
                             'GetModelAttribute', 'SequenceG', 'Filter']])
        if rng.random() < .07:    # deeper than it has inputs
            deep = True
            sp, vals = good_spec(rng, n_blocks=rng.randint(6, 12), kinds=['Link', 'Link', 'Link', 'Link', 'Probe', 'WorkflowBlock'], chain=True, nbvs=rng.random() < .3)
        else:
            sp, vals = good_spec(rng, kinds=kinds)
        run.case((sp, vals))
        rt = W.runtime(sp)
        memo, arg = W.oracle(sp, vals)
        want = norm(memo[sp['out'][0]][sp['out'][1]])
        for order in ((rng,) if deep else (None, rng, rng)):
            b = W.build(sp, order)
            iv = run_values(b, vals)
            before = dict(iv)
            n0 = len(W.LOG)
            calls = []
            r = b.workflow.run(iv, progress_callback=calls.append)
            run.eq(norm(r.output_value), want, 'output value of the run')
            run.check(iv == before and all(iv[k] is before[k] for k in iv), 'run() changed the dictionary of input values')
            check_log(run, sp, b, n0, rt)
            done = [blk for blk, _ in r.execution_info.after_block_memory_usage]
            run.check(len(done) == len(rt) and {id(x) for x in done} == {id(b.blocks[i]) for i in rt},
                      'the blocks reported as executed are not those the output depends on')
            run.eq(r.progress, 1, 'progress of a finished run')
            for k, v in vals.items():
                run.check(norm(r.input_values[W.index_of(b, k)]) == norm(v), 'the run does not record the input values')


def again(run, rng):
    """a workflow can be run any number of times: each run depends on its own inputs only"""
    for _ in range(run.n(60, 2000)):
        if run.over():
            break
        sp, vals = good_spec(rng)
        b = W.build(sp, rng)
        for _ in range(3):
            try:
                vals = W.values_for(rng, sp)
                memo, _ = W.oracle(sp, vals)
            except IndexError:
                continue
            run.case((sp, vals))
            r = b.workflow.run(run_values(b, vals))
            run.eq(norm(r.output_value), norm(memo[sp['out'][0]][sp['out'][1]]), 'output of a repeated run')
            for (bi, i), pipe in b.pipe.items():
                if pipe in r.values and bi in W.runtime(sp):
                    w = sp['wires'][bi, i]
                    wv = vals['nbv', w[1]] if w[0] == 'nbv' else memo[w[1]][w[2]]
                    run.eq(norm(r.values[pipe]), norm(wv), 'value memorized on a pipe')


def stepwise(run, rng):
    """any history of inputs given and evaluations asked for reaches the same result, each block evaluated once"""
    for _ in range(run.n(80, 4000)):
        if run.over():
            break
        sp, vals = good_spec(rng, kinds=rng.choice([None, ['Probe'], ['Probe', 'Sum', 'Sequence', 'Unpacker', 'Concatenate']]))
        rt = W.runtime(sp)
        if len(rt) < len(sp['blocks']) and rng.random() < .7:
            continue
        memo, arg = W.oracle(sp, vals)
        b = W.build(sp, rng)
        n0 = len(W.LOG)
        hist = []
        run.case((sp, vals, hist))
        state = b.workflow.start_run({})
        missing = [k for k in W.free_inputs(sp)]
        # inputs with default values are already there
        given = set()
        for k in list(missing):
            v = W.var_of(b, k)
            if v.has_default_value:
                vals = dict(vals, **{})
                vals[k] = v.default_value
                given.add(k)
                missing.remove(k)
        try:
            memo, arg = W.oracle(sp, vals)
        except IndexError:
            continue
        rng.shuffle(missing)
        done, secondary_done = set(), set()
        pos = {id(x): i for i, x in enumerate(b.blocks)}
        wf_index = {i: [j for j, x in enumerate(b.workflow.blocks) if x is blk][0] for i, blk in enumerate(b.blocks)}

        def ready(i):
            for k in range(len(sp['blocks'][i][2])):
                w = sp['wires'][i, k]
                if w is None and ('in', i, k) not in given or w is not None and w[0] == 'nbv' and w not in given:
                    return False
                if w is not None and w[0] == 'out' and w[1] not in done and w[1] not in secondary_done:
                    return False
            return True

        for _ in range(40):
            op = rng.choice(['input', 'eval', 'eval', 'next', 'continue', 'state'])
            hist.append(op)
            if op == 'input' and missing:
                k = missing.pop()
                hist[-1] = ('input', k)
                state.add_input_value(W.index_of(b, k), vals[k])
                given.add(k)
            elif op == 'eval':
                i = rng.randrange(len(b.blocks))
                hist[-1] = ('eval', i)
                want = ready(i) and (i not in done)
                got = state.block_evaluation(wf_index[i])
                run.eq(bool(got), want, 'block_evaluation: evaluated iff all inputs are there and it was not evaluated', block=i, hist=hist)
                if want:
                    (done if i in rt else secondary_done).add(i)
            elif op == 'next' and len(rt) == len(b.blocks):
                can = {i for i in range(len(b.blocks)) if ready(i) and i not in done}
                got = state.evaluate_next_block()
                if got is None:
                    run.check(not can, 'evaluate_next_block found nothing to do', can=can, hist=hist)
                else:
                    run.check(pos[id(got)] in can, 'evaluate_next_block evaluated a block that was not ready', got=pos[id(got)], can=can)
                    done.add(pos[id(got)])
            elif op == 'continue' and rng.random() < .4:
                got = state.continue_run()
                new = set()
                while True:
                    more = {i for i in rt if i not in done and ready(i)}
                    if not more:
                        break
                    done |= more
                    new |= more
                run.check(len(got) == len(new) and {pos[id(x)] for x in got} == new,
                          'continue_run: evaluated blocks', got=[pos[id(x)] for x in got], want=new, hist=hist)
            run.check(abs(state.progress - len(done) / len(rt)) < 1e-9, 'progress is not the share of evaluated blocks',
                      progress=state.progress, done=done, runtime=rt, hist=hist)
            for (bi, i), pipe in b.pipe.items():
                w = sp['wires'][bi, i]
                avail = w in given if w[0] == 'nbv' else w[1] in done or w[1] in secondary_done
                run.eq(bool(state.activated_items[pipe]), avail, 'pipe activated iff its value is known', hist=hist)
                if avail:
                    wv = vals[w] if w[0] == 'nbv' else memo[w[1]][w[2]]
                    run.eq(norm(state.values[pipe]), norm(wv), 'value carried by a pipe', hist=hist)
            for i, blk in enumerate(b.blocks):
                run.eq(bool(state.activated_items[blk]), i in done or i in secondary_done, 'block marked as evaluated', hist=hist)
            if done == rt:
                break
            if op == 'state':
                run.raises(state.to_workflow_run, ValueError, 'to_workflow_run of an unfinished state', hist=hist)
        for k in missing:
            state.add_input_value(W.index_of(b, k), vals[k])
        state.continue_run()
        r = state.to_workflow_run(name='r')
        run.eq(norm(r.output_value), norm(memo[sp['out'][0]][sp['out'][1]]), 'output after a stepwise run', hist=hist)
        ids = [id(blk) for blk, _, _ in W.LOG[n0:] if id(blk) in pos and pos[id(blk)] in rt]
        run.check(len(ids) == len(set(ids)), 'a block was evaluated twice', hist=hist)
        run.eq(state.continue_run(), [], 'nothing left to evaluate')


def missing_inputs(run, rng):
    for _ in range(run.n(60, 2000)):
        if run.over():
            break
        sp, vals = good_spec(rng)
        b = W.build(sp, rng)
        need = [k for k in W.free_inputs(sp) if not W.var_of(b, k).has_default_value]
        if not need:
            continue
        drop = rng.sample(need, rng.randint(1, len(need)))
        run.case((sp, drop))
        n0 = len(W.LOG)
        run.raises(lambda: b.workflow.run(run_values(b, {k: v for k, v in vals.items() if k not in drop})), ValueError,
                   'run() without a value for an input that has no default')
        run.eq(len(W.LOG), n0, 'blocks were evaluated although an input is missing')


def each_block(run, rng):
    """every kind of block computes its documented function of its inputs"""
    for kind in W.KINDS:
        for _ in range(run.n(8, 300)):
            sp, vals = good_spec(rng, n_blocks=1, kinds=[kind.name], nbvs=False)
            blk = kind.build(sp['blocks'][0][1])
            args = [vals['in', 0, i] for i in range(len(sp['blocks'][0][2]))]
            keys = [norm(a) for a in args]
            run.case((kind.name, sp['blocks'][0][1], args))
            try:
                want = kind.ref(sp['blocks'][0][1], args)
            except IndexError:
                continue
            got = blk.evaluate(dict(zip(blk.inputs, args)))
            run.eq([norm(x) for x in got], [norm(x) for x in want], f'block {kind.name}')
            run.check(len(got) >= len(blk.outputs), 'a value for every output')
            run.eq([norm(a) for a in args], keys, f'block {kind.name} changed its inputs')


def secondary(run, rng):
    """blocks the output does not depend on are evaluated only on demand, and give the same values"""
    for _ in range(run.n(40, 1000)):
        if run.over():
            break
        sp, vals = good_spec(rng, n_blocks=rng.randint(3, 7), kinds=['Probe', 'Sum', 'Sequence', 'Unpacker'])
        rt = W.runtime(sp)
        if len(rt) == len(sp['blocks']):
            continue
        run.case((sp, vals))
        b = W.build(sp, rng)
        memo, arg = W.oracle(sp, vals)
        n0 = len(W.LOG)
        state = b.workflow.start_run(run_values(b, vals))
        state.continue_run()
        check_log(run, sp, b, n0, rt)
        side = [i for i in range(len(sp['blocks'])) if i not in rt]
        for i in side:
            run.check(b.workflow.is_block_secondary(b.blocks[i]), 'is_block_secondary')
        for i in side:
            branch, todo = [], [i]
            while todo:
                x = todo.pop()
                if x not in branch and x not in rt:
                    branch.append(x)
                    todo += [u for u in W.upstream(sp, x)]
            blocks = b.workflow.secondary_branch_blocks(b.blocks[i])
            run.check({id(x) for x in blocks} == {id(b.blocks[x]) for x in branch}, 'secondary branch of a block', block=i,
                      got=[[j for j, y in enumerate(b.blocks) if y is x] for x in blocks], want=branch)
            got = state.evaluate_branch(blocks, {x: {} for x in blocks})
            run.eq([norm(x) for x in got[b.blocks[i]]], [norm(x) for x in memo[i]], 'value of a secondary block', block=i)
        run.eq(norm(state.to_workflow_run().output_value), norm(memo[sp['out'][0]][sp['out'][1]]), 'output after secondary blocks')


def set_attribute(run, rng):
    from dessia_common.typings import AttributeType
    for _ in range(run.n(10, 100)):
        a = rng.choice(['x', 'y', 'ratio'])
        g, v = W.value(rng, 'g'), rng.randint(50, 90)
        run.case((a, v))
        before = dict(x=g.x, y=g.y, ratio=g.ratio)
        blk = wb.SetModelAttribute(AttributeType(W.Gear, a))
        out = blk.evaluate({blk.inputs[0]: g, blk.inputs[1]: v})[0]
        before[a] = v
        run.check(out is g and dict(x=g.x, y=g.y, ratio=g.ratio) == before, 'SetModelAttribute sets this attribute only')


if __name__ == '__main__':
    import sys
    sys.exit(main('C05', [('results', results), ('again', again), ('stepwise', stepwise), ('missing_inputs', missing_inputs),
                          ('each_block', each_block), ('secondary', secondary), ('set_attribute', set_attribute)]))
