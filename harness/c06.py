"""C06: inputs of workflows: values given, defaults, locks"""
import lib
from lib import main, Skip
import wfmodels as W
from wfmodels import norm
from dessia_common.workflow.core import Variable, Pipe, Workflow
from dessia_common.workflow import blocks as wb
from c05 import good_spec, run_values
try:
    from dessia_common.schemas.core import UNDEFINED
except ImportError:
    UNDEFINED = None


def which(run, rng):
    """inputs of a workflow: the variables nothing feeds, each once"""
    for _ in range(run.n(120, 5000)):
        if run.over():
            break
        sp = W.spec(rng)
        b = W.build(sp, rng)
        run.case(sp)
        wf = b.workflow
        want = {id(W.var_of(b, k)) for k in W.free_inputs(sp)}
        run.eq(len(wf.inputs), len(want), 'number of inputs')
        run.check({id(v) for v in wf.inputs} == want, 'inputs are the variables no pipe feeds')
        run.check(len(wf.outputs) == 1 and wf.outputs[0] is wf.output, 'outputs')
        for i, v in enumerate(wf.inputs):
            run.eq(wf.input_index(v), i, 'input_index of an input')
        for (bi, i), w in sp['wires'].items():
            v = b.blocks[bi].inputs[i]
            if w is None:
                run.check(wf.inputs[wf.input_index(v)] is v, 'input_index of a free block input')
            elif w[0] == 'nbv':
                run.check(wf.inputs[wf.input_index(v)] is b.nbvs[w[1]], 'input_index of a block input fed by a variable')
            else:
                run.check(wf.input_index(v) is None, 'input_index of a fed block input')
            pipe = b.pipe.get((bi, i))
            run.check(wf.variable_input_pipe(v) is pipe, 'variable_input_pipe')
        for bi, blk in enumerate(wf.blocks):
            k = [j for j, x in enumerate(b.blocks) if x is blk][0]
            ins = [sp['wires'][k, i] for i in range(len(sp['blocks'][k][2]))]
            want = [wf.input_index(blk.inputs[i]) for i, w in enumerate(ins) if w is None or w[0] == 'nbv']
            run.eq(wf.block_inputs_global_indices(bi), want, 'block_inputs_global_indices')


def variable(run, rng):
    """a locked variable always has a value; locking needs one"""
    for _ in range(run.n(150, 4000)):
        v = Variable(type_=int, name='v') if rng.random() < .5 else Variable(type_=int, default_value=rng.choice([0, 7, None, False]), name='v')
        has, val, locked = v.has_default_value, v.default_value, False
        hist = [(has, val)]
        run.case(hist)
        for _ in range(rng.randint(1, 8)):
            op = rng.choice(['lock', 'lockv', 'unlock', 'drop', 'set', 'assign'])
            x = rng.choice([0, 1, None, False, '', [], 12])
            hist.append((op, x))
            if op == 'lock':
                if has:
                    v.lock()
                    locked = True
                else:
                    run.raises(v.lock, ValueError, 'lock() without any default value', hist=hist)
            elif op == 'lockv':
                v.lock(x)
                has, val, locked = True, x, True
            elif op == 'unlock':
                v.unlock()
                locked = False
            elif op == 'drop':
                v.unlock(keep_default=False)
                has, locked = False, False
            elif op == 'set':
                v.default_value = x
                has, val = True, x
            elif op == 'assign':
                try:
                    v.locked = True
                except AttributeError:
                    pass
                else:
                    run.check(False, 'locked could be assigned')
            run.eq(v.locked, locked, 'locked', hist=hist)
            run.eq(v.has_default_value, has, 'has_default_value', hist=hist)
            if has:
                run.check(v.default_value is val, 'default_value', hist=hist)
        c = v.copy()
        run.check(c is not v and c.locked == locked and c.has_default_value == has and c.type_ == v.type_ and
                  (not has or c.default_value == val), 'copy of a variable')


def configure(run, rng, b, sp):
    """give random defaults and locks; returns {key: (has default, value, locked)}"""
    conf = {}
    for k in W.free_inputs(sp):
        v = W.var_of(b, k)
        i = W.index_of(b, k)
        r = rng.random()
        val = W.value(rng, W.kind_of(sp, k))
        if r < .2:
            v.lock(val)
            conf[k] = (True, val, True)
        elif r < .3:
            b.workflow.lock_input(i, val)
            conf[k] = (True, val, True)
        elif r < .45:
            b.workflow.set_input_default(i, val)
            conf[k] = (True, val, False)
        elif r < .5:
            v.lock(val)
            v.unlock()
            conf[k] = (True, val, False)
        elif r < .6:
            b.workflow.reset_input_default(i)
            conf[k] = (False, None, False)
        else:
            conf[k] = (v.has_default_value, v.default_value, False)
    return conf


def precedence(run, rng):
    """value used for an input: the locked one, else the given one, else the default; else the run is refused"""
    for _ in range(run.n(150, 6000)):
        if run.over():
            break
        sp, vals = good_spec(rng)
        b = W.build(sp, rng)
        conf = configure(run, rng, b, sp)
        given = {k: v for k, v in vals.items() if rng.random() < .6}
        run.case((sp, conf, given))
        eff, miss = {}, []
        for k, (has, val, locked) in conf.items():
            if locked:
                eff[k] = val
            elif k in given:
                eff[k] = given[k]
            elif has:
                eff[k] = val
            else:
                miss.append(k)
        wf = b.workflow
        iv = run_values(b, given)
        got = wf.input_values(iv)
        for k in conf:
            i = W.index_of(b, k)
            if k in miss:
                run.check(i not in got, 'input_values invents a value')
            else:
                run.check(i in got and got[i] is eff[k], 'input_values: locked value, else given value, else default', index=i,
                          got=got.get(i), want=eff[k], conf=conf[k], given=given.get(k))
        run.eq({i: id(v) for i, v in wf.default_values.items()},
               {W.index_of(b, k): id(val) for k, (has, val, _) in conf.items() if has}, 'default_values')
        run.check({id(v) for v in wf.locked_inputs} == {id(W.var_of(b, k)) for k, c in conf.items() if c[2]}, 'locked_inputs')
        if miss:
            run.raises(lambda: wf.run(iv), ValueError, 'run() without a value for an input', missing=miss)
            continue
        try:
            memo, _ = W.oracle(sp, eff)
        except IndexError:
            continue
        r = wf.run(iv)
        run.eq(norm(r.output_value), norm(memo[sp['out'][0]][sp['out'][1]]), 'output of the run')
        for k, v in eff.items():
            run.check(norm(r.input_values[W.index_of(b, k)]) == norm(v), 'input value recorded by the run')
        for k, (has, val, locked) in conf.items():
            v = W.var_of(b, k)
            run.check(v.has_default_value == has and v.locked == locked and (not has or v.default_value is val),
                      'the run changed the default or the lock of an input')


def arguments(run, rng):
    """the dictionary of a platform call is turned into the input values"""
    for _ in range(run.n(80, 3000)):
        if run.over():
            break
        sp, vals = good_spec(rng, kinds=['Probe', 'Sum', 'Sequence', 'Substraction', 'InstantiateModel', 'ModelAttribute', 'ConcatenateStrings'])
        for k in W.free_inputs(sp):
            if W.kind_of(sp, k) in 'gG' or k[0] == 'in' and sp['blocks'][k[1]][0] in ('Sum', 'Sequence', 'Substraction'):
                break
        else:
            b = W.build(sp, rng)
            wf = b.workflow
            conf = configure(run, rng, b, sp)
            given = {k: v for k, v in vals.items() if conf[k][2] or not conf[k][0] or rng.random() < .5}
            d = {(str if rng.random() < .5 else int)(W.index_of(b, k)): v for k, v in given.items()}
            name = rng.choice([None, 'my run'])
            if name is not None:
                d[str(len(wf.inputs))] = name
            run.case((sp, conf, given, name))
            args = wf.dict_to_arguments(d, 'run')
            run.eq(args['name'], name, 'name of the run')
            want = {W.index_of(b, k): v for k, v in given.items() if not conf[k][2]}
            run.eq(args['input_values'], want, 'dict_to_arguments: values of the inputs that are not locked')
            full = {W.index_of(b, k): (c[1] if c[2] else given.get(k, c[1])) for k, c in conf.items()}
            run.eq(wf.input_values(args['input_values']), full, 'values of the call')
            for k, (has, val, locked) in conf.items():
                if not has and k in given:
                    d2 = {i: v for i, v in d.items() if int(i) != W.index_of(b, k)}
                    try:
                        wf.dict_to_arguments(d2, 'run')
                    except Exception:
                        break
                    run.check(False, 'dict_to_arguments accepted a call without a value for an input that has no default')
            run.raises(lambda: wf.dict_to_arguments(d, 'not_a_method'), NotImplementedError, 'unknown method')


def method_dict(run, rng):
    """the prefilled call: the default value of every input that has one, under the index of the input"""
    for _ in range(run.n(40, 1000)):
        sp, vals = good_spec(rng)
        b = W.build(sp, rng)
        conf = configure(run, rng, b, sp)
        run.case((sp, conf))
        d = b.workflow.method_dict('run')
        run.eq(set(d), {str(W.index_of(b, k)) for k, c in conf.items() if c[0]}, 'keys of the prefilled call')
        for k, c in conf.items():
            if c[0] and W.kind_of(sp, k) in 'nls':
                run.eq(d[str(W.index_of(b, k))], c[1], 'prefilled value')


def schemas(run, rng):
    """the form of the run method has one entry per input, editable iff unlocked, with its default"""
    for _ in range(run.n(50, 1500)):
        if run.over():
            break
        sp, vals = good_spec(rng)
        b = W.build(sp, rng)
        conf = configure(run, rng, b, sp)
        labels = {}
        for k in conf:
            if rng.random() < .3:
                labels[k] = rng.choice(['Label', 'x y', 'é'])
                b.workflow.rename_input(W.index_of(b, k), labels[k])
        run.case((sp, conf))
        for k, c in conf.items():
            v = W.var_of(b, k)
            s = b.workflow.input_schema(v)
            run.eq(s.name, str(W.index_of(b, k)), 'schema name is the index of the input')
            run.eq(bool(s.editable), not c[2], 'schema editable iff not locked')
            if c[0]:
                run.check(s.default_value is c[1], 'schema default value')
            if k in labels:
                run.eq(s.title, labels[k], 'schema title is the label')


if __name__ == '__main__':
    import sys
    sys.exit(main('C06', [('which', which), ('variable', variable), ('precedence', precedence), ('arguments', arguments),
                          ('method_dict', method_dict), ('schemas', schemas)]))
