"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the texts below)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'dessia_common/'


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=[D + f for f in files], mechanism=[dict(name=n, where=D + w) for n, w in mech], hook_needed=None)
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [dict(name=n, meaning=m, where=D + w) for n, m, w in state]
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)


PROPS = [
    P('C01', 'Data equality is an equivalence that sees every difference and agrees with hash',
      "Two values are data-equal exactly when they have the same kind (numbers and booleans compare by value, floats up to the documented tolerance; lists and tuples are one kind, sequence; objects must have the same class), the same keys or the same length, and data-equal elements at every position and every data attribute, at any depth. The relation is reflexive, symmetric and, apart from the float tolerance, transitive; the name and the attributes a class declares as non-data do not take part in it. Two standalone objects that compare equal have the same hash.",
      ['inputs'], 'every pair of JSON-like values and Dessia objects, nested to any depth; every choice of declared non-data attributes',
      'The tests compare a few hand-made objects; a difference at one depth, on one side only, or hidden behind a longer dictionary is outside what they sample.',
      ['core.py', 'utils/helpers.py'],
      [('data_eq, dict_data_eq, sequence_data_eq', 'core.py'), ('DessiaObject._data_eq/_data_hash', 'core.py'), ('choose_hash, sequence_hash, dict_hash', 'utils/diff.py')],
      ['value of == , data_eq and hash()']),
    P('C02', 'A difference report is empty exactly for equal values and locates differences',
      "Comparing two values gives an empty difference exactly when they are data-equal. Every reported difference is real: its path leads, in both values, to parts that differ, or to an element that only one of them has, or to parts of different types. Every difference of dictionaries, sequences and object attributes is reported, at any depth.",
      ['inputs'], 'every pair of nested values and objects',
      'Tests diff a handful of pairs; missing differences (extra keys or elements on one side, swapped operands) only show on pairs they do not contain.',
      ['utils/diff.py', 'core.py'], [('diff, dict_diff, sequence_diff, Diff', 'utils/diff.py'), ('DessiaObject._data_diff', 'core.py')]),
    P('C03', 'Serialization round trip restores the object',
      "An object written to a dictionary, to JSON text or to a file and read back is of the same class and data-equal to the original, with every name, data attribute, element order and key preserved (tuples may come back as lists), whether or not shared sub-objects are written as references. With references, sub-objects that were one shared object come back as one shared object and different data is never merged. Writing the restored object again gives the same dictionary.",
      ['inputs', 'configurations'], 'every object graph of Dessia objects, lists, tuples, dictionaries and scalars, with any sharing; with and without pointers',
      'Tests round-trip a few fixed models; sharing patterns, nesting and unusual keys are unbounded.',
      ['serialization.py', 'core.py', 'files.py'],
      [('serialize, serialize_with_pointers, pointer memo', 'serialization.py'), ('deserialize, dict_to_object, dereference_jsonpointers', 'serialization.py'), ('to_dict, dict_to_object, save_to_file, load_from_file', 'core.py')]),
    P('C04', 'A deep copy is equal and shares no mutable part with the original',
      "A deep copy has the same class and is data-equal to the original, with the same names, and shares no mutable list, dictionary or object with it, so that modifying either one never shows in the other; an object used in several places of the original is one object in the copy. A shallow copy is data-equal and leaves the original unchanged.",
      ['inputs', 'histories'], 'every object graph, every later modification of the copy or the original',
      'Tests copy some models and compare; aliasing only shows after a mutation of one particular nested part.',
      ['core.py', 'utils/copy.py'], [('DessiaObject.copy, __deepcopy__', 'core.py'), ('deepcopy_value, deepcopy_sequence, deepcopy_dict', 'utils/copy.py')]),
    P('C05', 'A workflow run gives what its blocks compute along the pipes, each exactly once',
      "Running a workflow gives as output the value obtained by applying every block to the values that its pipes and the given inputs bring, whatever the order in which blocks, pipes and inputs were declared. Every block is evaluated exactly once per run, after the blocks it depends on; repeating a run, or running it block by block from a state, gives the same result, and a run with a required input missing is refused.",
      ['programs', 'inputs', 'schedules'], 'every acyclic workflow built from the available blocks, every input values, every declaration order and every order of stepwise activation',
      'Tests execute a few fixed workflows with one order of activation each.',
      ['workflow/core.py', 'workflow/blocks.py'], [('Workflow.run, WorkflowState.activate_inputs, _activate_pipe, _activate_block, continue_run, activable_*', 'workflow/core.py'), ('Block.evaluate of every block', 'workflow/blocks.py')],
      state=[('activated_items', 'which pipes, blocks and variables have a value', 'workflow/core.py'), ('values', 'value of each variable', 'workflow/core.py')]),
    P('C06', 'Workflow inputs, defaults and locks match the unfed ports and chosen values',
      "The inputs of a workflow are exactly the block inputs and free variables that nothing feeds, each once; an input is required unless it has a default value or is locked. A value given at run time takes precedence over the default, a locked input keeps its chosen value, and the described arguments and schemas (names, defaults, required ones) are those of the inputs.",
      ['programs', 'histories', 'inputs'], 'every workflow, every sequence of setting defaults, locking and unlocking, every given subset of inputs',
      'Tests fix the inputs of a few workflows; combinations of pipes, defaults and locks are unbounded.',
      ['workflow/core.py', 'workflow/blocks.py'], [('Workflow.inputs, optional_input_indices, imposed variables, default_values', 'workflow/core.py'), ('dict_to_arguments, method_dict, method_schemas, input_values', 'workflow/core.py'), ('Variable.lock, unlock, locked', 'workflow/core.py')]),
    P('C07', 'Wizard steps always partition the workflow inputs under any editing history',
      "After any sequence of inserting, removing, renaming, reordering and resetting steps and of moving, detaching and reordering their inputs, every workflow input is either in exactly one step or in the list of inputs without step, never in two places nor lost. Invalid indices and orders are refused without changing anything, and the displayed forms of the steps show exactly their inputs.",
      ['histories'], 'every sequence of step operations on every workflow',
      'Tests play a few short editing sequences; a lost or doubled input needs a specific sequence.',
      ['workflow/core.py'], [('insert_step, remove_step, reset_steps, change_input_step(s), remove_input_from_step, reorder_steps, reorder_step_inputs', 'workflow/core.py')],
      state=[('steps', 'ordered steps with their inputs', 'workflow/core.py'), ('inputs without step', 'inputs not assigned to a step', 'workflow/core.py')]),
    P('C08', 'Filters keep exactly the elements that satisfy the logical combination, in order',
      "A filter keeps exactly the elements whose attribute satisfies its comparison with the bound, in their order and as the same objects, and does not modify the filtered list. A list of one or more filters keeps exactly the elements satisfying all of them for 'and', at least one for 'or', and exactly one of the two for 'xor'; an unknown combination is refused.",
      ['inputs'], 'every list of objects, of any length, every list of filters, every operator and bound',
      'Tests run a few filters on one random dataset and check sizes.',
      ['core.py', 'datatools/dataset.py'], [('DessiaFilter.get_booleans_index, apply, booleanlist_to_indexlist', 'core.py'), ('FiltersList.combine_booleans_lists, get_booleans_index, apply', 'core.py'), ('Dataset.filtering', 'datatools/dataset.py')]),
    P('C09', 'Object paths read exactly the designated part and setting changes nothing else',
      "Reading an object at a path gives the part reached by following each segment (attribute, key or index, and references inside serialized data); a path that leads nowhere is refused. Setting a value at a path makes reading that path give the value and leaves every other part unchanged.",
      ['inputs', 'histories'], 'every nested value, every valid or invalid path, every new value',
      'Tests read a few paths of fixed objects.',
      ['utils/helpers.py', 'serialization.py', 'core.py'], [('get_in_object_from_path, set_in_object_from_path, extract_segment_from_object', 'utils/helpers.py')]),
    P('C10', 'A dataset stays coherent with its objects through any history of operations',
      "After any sequence of slicing, indexing, filtering, adding, extending and sorting, a dataset holds exactly the expected objects in the expected order, its matrix and columns are the values of the common attributes of those objects, and in a clustered dataset every object keeps its label. Operands are not modified by operations that return a new dataset, and means, variances, covariances and distances are those of the matrix.",
      ['histories', 'inputs'], 'every list of objects and every sequence of operations, with the matrix read (and so cached) at any moment',
      'Tests apply single operations on one dataset; stale caches and label mixups need a sequence.',
      ['datatools/dataset.py', 'datatools/cluster.py', 'datatools/metrics.py'], [('Dataset.__getitem__, __add__, extend, sort, filtering, matrix cache', 'datatools/dataset.py'), ('ClusteredDataset labels, clustered_sublists', 'datatools/cluster.py'), ('metrics', 'datatools/metrics.py')],
      state=[('matrix cache', 'cached values of the common attributes', 'datatools/dataset.py'), ('labels', 'label of each object', 'datatools/cluster.py')]),
    P('C11', 'Interpolation position and value are inverse of each other',
      "For a list of numbers, increasing or not, the fractional position found for a value lies between 0 and the last index and interpolating the list at that position gives the value back; a value is refused only when no segment of the list contains it. Interpolating at a position between two indices gives the linear combination of the two neighbours, for numbers and vectors alike, and positions outside the list are refused.",
      ['inputs'], 'every list of numbers (or vectors) and every value or position',
      'Tests try one increasing list.',
      ['utils/interpolation.py'], [('istep_from_value_on_list, interpolate_from_istep', 'utils/interpolation.py')]),
    P('C12', 'Factorisations into two or three factors are exact and complete',
      "For every positive integer, the two-factor decomposition lists every ordered pair of positive integers whose product is the number, each exactly once and nothing else; the three-factor decomposition does so for ordered triples. The incomplete three-factor decomposition lists every combination of three factors exactly once up to order. Zero has no decomposition.",
      ['inputs'], 'every positive integer (in the range where floating-point division of integers is exact)',
      'Tests try a few integers.',
      ['utils/algebra.py'], [('number2factor, number3factor, get_incomplete_factors', 'utils/algebra.py')]),
    P('C13', 'Type annotations and schemas round-trip and match signatures',
      "Every annotation built from builtin types, Dessia classes, lists, sequences, dictionaries, tuples (of fixed or variable length), unions, optionals, literals and the method and attribute types survives being written to text and read back, and different annotations have different texts. The schema of a class or method lists exactly its parameters, in order, with their defaults, and as required exactly those without default.",
      ['inputs', 'programs'], 'every annotation, nested to any depth, and every class signature',
      'Tests serialize a list of annotations; nesting is unbounded.',
      ['utils/types.py', 'typings.py', 'schemas/core.py', 'serialization.py'], [('serialize_typing, deserialize_annotation, extract_args, union/tuple/literal handling', 'schemas/core.py'), ('ClassSchema, MethodSchema', 'schemas/core.py')]),
    P('C14', 'Checks report exactly the problems at or above the asked level',
      "Asking a check list for a level gives exactly its checks at that level or above, in order, and raising at a level raises exactly when there is one; the sum of check lists holds the checks of both. A type check holds an error exactly when the value is not of the type, an object is valid at a level exactly when none of its checks reaches it, and the copy and serialization checks fail exactly for objects that differ from their copy or round trip.",
      ['inputs'], 'every list of checks, every level, every value and type',
      'Tests look at one list and one level.',
      ['checks.py', 'core.py'], [('CheckList.checks_above_level, raise_if_above_level, __add__', 'checks.py'), ('type_check, is_int, is_float, is_str', 'checks.py'), ('DessiaObject.is_valid', 'core.py')]),
    P('C15', 'Optimisation variables, parameters and samples map exactly onto their bounds',
      "The conversions between values and dimensionless values are inverse of each other, map the bounds to 0 and 1 and never leave the bounds for values in [0, 1]; a periodic parameter compares values modulo its period. Optimisers only evaluate models inside the bounds with fixed attributes unchanged and return a model whose cost is the returned cost. Samplings keep constants fixed and samples within bounds; a full factorial design is the full product of the levels.",
      ['inputs', 'configurations'], 'all bounds, values, periods, numbers of variables and levels',
      'Tests optimise one model and sample one class.',
      ['optimization.py', 'core.py', 'datatools/sampling.py'], [('BoundedAttributeValue, InstantiatingModelOptimizer', 'optimization.py'), ('Parameter, ParameterSet', 'core.py'), ('ClassSampler', 'datatools/sampling.py')]),
    P('C16', 'Workflow addresses, copies and serialized forms preserve the same graph',
      "The address of a workflow variable designates that variable and no other. Copying a workflow, or writing it to a dictionary and reading it back, gives an equal workflow with the same blocks, pipes, inputs, output, steps, names, labels, positions, default values, locks, description and documentation, which computes the same results; the generated script rebuilds an equal workflow.",
      ['programs', 'histories'], 'every workflow built from the available blocks, every decoration and step layout',
      'Tests copy and serialize a few workflows without checking every attribute.',
      ['workflow/core.py', 'workflow/blocks.py'], [('variable_indices, variable_from_index', 'workflow/core.py'), ('Workflow.__deepcopy__, copy_pipes, copy_step, to_dict, dict_to_object, _data_eq, to_script', 'workflow/core.py')]),
    P('C17', 'Storage predicates and key conversion decide validity of every nested value',
      "The BSON validity test accepts a value exactly when every nested part is a scalar, list, tuple or dictionary with admissible keys, and gives an explanation exactly when it refuses. The JSON test accepts exactly what JSON can hold. Converting dictionary keys to strings changes all keys at every depth, nothing else, and does not modify its argument; serialized objects are valid for storage.",
      ['inputs'], 'every nested value with one or several invalid parts anywhere, with and without non-string keys allowed',
      'Tests try a few shallow dictionaries.',
      ['utils/types.py', 'core.py'], [('is_bson_valid, is_jsonable, is_sequence, is_file_or_file_sequence', 'utils/types.py'), ('stringify_dict_keys', 'core.py')]),
    P('C18', 'The Pareto front is sound and complete',
      "No point of the front is dominated by any point, and every point left out is at least equalled in every cost by a point of the front. Successive fronts are the fronts of what the previous ones leave, in the order of the dataset, and the computation modifies neither the costs nor the dataset.",
      ['inputs'], 'every finite set of cost vectors of any dimension, with ties and duplicates, and every number of sheets',
      'Tests compute the front of one random dataset and compare a few rows.',
      ['datatools/dataset.py'], [('Dataset.pareto_indexes, pareto_points, pareto_sheets', 'datatools/dataset.py')]),
    P('C19', 'Type matching accepts a connection only when every value fits',
      "When an annotation is said to match another, every value of the first is a value of the second, for builtin types, classes and subclasses, lists, dictionaries, tuples of fixed length, unions and optionals nested to any depth. Every annotation matches itself, and a class matches its base classes and every union that contains it. (An optional counts as the type it makes optional, int counts as float.)",
      ['inputs'], 'every pair of annotations, nested to any depth',
      'Tests try pairs of shallow annotations.',
      ['utils/types.py'], [('typematch, union_match, particular_typematches, complex_first_type_match, heal_type', 'utils/types.py')]),
]

NOT_APPLICABLE = []
TECH = 'contract-based deductive verification: contracts on the real functions, VCs from the current source, z3/cvc5; bounded executable contracts for what is out of reach'


def level(pid):
    return 'proof' if os.path.exists(os.path.join(HERE, 'contracts', pid.lower() + '.py')) else 'exploration'


def main():
    import importlib.util
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    notes = {}
    nf = os.path.join(HERE, 'tools', 'level_notes.json')
    if os.path.exists(nf):
        notes = json.load(open(nf))
    checks = []
    for p in PROPS:
        i = p['id']
        lv = level(i)
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique=TECH if lv == 'proof' else 'executable contracts on the real functions, bounded (no discharged obligations yet)',
                           level=lv, level_note=notes.get(i, 'Discharged obligations and the bounded remainder are counted separately in the evidence file; see DESIGN.md.')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=NOT_APPLICABLE,
                       notes='No hooks in /repo. Repairs are the fix: commits listed in known_findings.txt.'), f, indent=1)


main()
