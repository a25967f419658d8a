import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))
p("C01","Training resumed from a saved checkpoint equals the uninterrupted run",
 "If training is killed at any step and the last durable checkpoint (a module's state saved by path, as ordered pytree leaves or pickled, a whole pickled module, or a TrainState's state dict, together with the forked RNG context) is restored into a freshly built model of the same architecture, then continuing produces exactly the variables, optimizer state, step count and RNG keys of the run that was never interrupted. This holds whatever the fresh model's initial values, the order in which its attributes were assigned, or the hash randomisation of the new process. Saving a checkpoint never changes the training run it is taken from.",
 ["crash_points","histories","configurations","fault_sequences"],
 "For every architecture (shared and nested submodules, Dict/Sequence containers, BatchStat variables, optimizers), every checkpoint interval and storage form, and every sequence of crashes, lost or torn checkpoint writes and restarts.",
 "tests/test_state.py and tests/test_partitioning.py save or split one fixed module once in one process; no test restarts from a checkpoint, none crosses a process or hash-seed boundary, and test_helpers only builds a TrainState and steps it once.",
 ["nnx/module.py","nnx/state.py","nnx/helpers.py","nnx/pytreelib.py","nnx/contextlib.py"],
 [("sorted traversal gives every variable a stable path","nnx/module.py:_iter_state_recursive"),("State keeps its mapping sorted and flattens to keyed leaves","nnx/state.py:State"),("flax state-dict hooks of Pytree","nnx/pytreelib.py:_to_flax_state_dict/_from_flax_state_dict"),("Context.partition forks and ContextDef.merge restores count paths","nnx/contextlib.py")],
 observe=["Module.get_state/partition/update_state","flax.serialization.to/from_state_dict","jax.tree_util.tree_flatten(State)","Context.make_rng"])
p("C02","A damaged state dict is rejected whole, never half-restored",
 "Restoring an nnx Pytree or TrainState from a flax state dict either succeeds with every node field taken from the dict, in the structure of the target, or raises and yields nothing: a missing, unknown or renamed field of any pytree, list, tuple or optimizer state, or a missing key of a dict, nested at any depth, is rejected (arrays and nnx.State objects are leaves). In both cases the target object and the dict passed in are left unchanged, and an intact dict can still be restored afterwards.",
 ["fault_sequences","inputs","histories"],
 "For every nesting of Pytrees, containers, lists, tuples and optimizer states, and every sequence of storage faults (lost, renamed, injected or torn entries at any depth) between save and restore.",
 "tests/test_pytree.py restores one flat intact dict and rejects one missing and one unknown top-level field; nesting, combined damage and the state of the target after a failure are never examined.",
 ["nnx/pytreelib.py","nnx/helpers.py"],
 [("missing/unknown field checks","nnx/pytreelib.py:_from_flax_state_dict"),("replace works on a copy","nnx/pytreelib.py:Pytree.replace")],
 observe=["flax.serialization.from_state_dict","flax.serialization.from_bytes"])
p("C03","nnx.jit, nnx.grad and nnx.remat update the module exactly once or not at all",
 "A call through nnx.jit, nnx.grad or nnx.remat/nnx.Remat (alone or nested, stateful or not, with aux outputs, static arguments and an RNG context) that returns gives the same result and leaves the module's variables in the same state as calling the function directly would, with stateful=False leaving the module untouched; gradients are those of the selected variables only. A call that fails in the user function, during tracing, compilation, execution or write-back (a function may be refused for building new submodules) leaves every variable of the module as it was before the call. Either way later calls behave as if no failed call had ever been made.",
 ["programs","fault_sequences","histories","inputs"],
 "For every module graph (shared, nested and cyclic submodules), every function that reads, updates or adds variables on it, every nesting of the transforms, and every point at which a user exception, interrupt, compilation or execution failure strikes.",
 "tests/test_transforms.py runs one happy-path example per option; no test makes a transformed function fail, calls it again after a failure, or compares with direct execution over varied graphs.",
 ["nnx/transforms.py","nnx/module.py","nnx/tracers.py"],
 [("partition before, update_state after the jax call","nnx/transforms.py:JitTransform.__call__, GradTransform.__call__, remat_apply"),("trace stack popped in finally","nnx/tracers.py:nnx_trace")],
 observe=["return values","Module.get_state before and after each call"])
p("C04","nnx.scan equals running the steps one by one, or changes nothing",
 "A call through nnx.scan or nnx.Scan that returns gives the carry, outputs and variables that applying the function step by step gives (in reverse step order when reverse=True): scanned variables are sliced and stacked along their declared axis, carried variables thread through all steps, variables created in the body appear on the module (a carried or broadcast one is created once, by the first step that runs, and later steps see it), and RNG streams listed in split_rngs differ per step while the others repeat. This holds for every choice of in_axes, out_axes, length, unroll and variable filters. A call that fails at any point leaves the module's variables exactly as they were and later calls unaffected.",
 ["programs","configurations","fault_sequences","inputs"],
 "For every scanned module and body, every combination of scan options and length, and every point at which the body, its tracing or its execution fails.",
 "tests/test_transforms.py checks a handful of fixed scans, mostly shapes, axis 0, forward order, without failures; values against a step-by-step execution, reverse order with new variables, and state after an abort are never checked.",
 ["nnx/transforms.py"],
 [("state split by filters into scanned, broadcast and carried parts","nnx/transforms.py:scan_apply"),("first step run separately when the body creates carry variables","nnx/transforms.py:scan_apply"),("per-step construction under vmap","nnx/transforms.py:scan_init")],
 observe=["return values","Module.get_state"])
p("C05","Modules and contexts can only be changed at the trace level that made them",
 "While a transform is tracing (nnx.jit, nnx.grad, nnx.scan, nnx.remat or jax.jit, nested to any depth), every attempt to change a module (attribute assignment or deletion, update_state, pop_state, sow, mutable leaves, item assignment) or to draw from or fork an RNG context that was created at another level is refused with TraceContextError and changes nothing; attempts on objects of the current level succeed. When a transform ends, normally or by an exception, the surrounding level is usable again and objects leaked from inside are refused. Transforms running in one thread never change what is allowed in another.",
 ["schedules","histories","fault_sequences","programs"],
 "For every nesting of transforms, every sequence of attempts on objects of every level, every abort point and every interleaving of threads running their own transforms.",
 "tests/test_module.py and tests/test_context.py each try one mutation one level down; aborted transforms, deeper nesting, the other mutators, leaked objects and threads are not covered.",
 ["nnx/tracers.py","nnx/module.py","nnx/contextlib.py","nnx/transforms.py"],
 [("TraceState compares creation-time and current jax and nnx traces","nnx/tracers.py:TraceState.is_valid"),("per-thread trace stack","nnx/tracers.py:TraceContext"),("guards in _setattr, make_rng, partition","nnx/module.py, nnx/contextlib.py")],
 observe=["raised errors","variables before and after each refused attempt"])
p("C06","RNG keys never repeat and depend only on seed, stream and call history",
 "Within one stream of a context and everything forked from it (by partition/merge, nnx.jit or nnx.scan, to any depth), no two drawn keys are ever equal, and each key is a function of the stream's seed and the calls made on that lineage alone. Which keys a context hands out is unaffected by other contexts, other streams, other threads, refused draws or the process's hash randomisation, and a transformed call counts as exactly one fork of the context it is given, whether it returns or fails. A forked context and its parent never influence each other after the fork, and neither do a context and its deep or unpickled copy, which hands out the keys the context would hand out.",
 ["schedules","histories","fault_sequences","configurations"],
 "For every history of draws and forks (long ones included), every interleaving of threads with their own contexts, aborted calls, and every process hash seed.",
 "tests/test_context.py draws a few keys and forks once, sequentially and in one process; collisions need particular count paths and interference needs failed calls, threads or another process.",
 ["nnx/contextlib.py"],
 [("hash of the count path folded into the stream key","nnx/contextlib.py:_stable_hash, Context.make_rng"),("fork appends to the count path and advances the parent","nnx/contextlib.py:Context.partition")],
 observe=["Context.make_rng","Context.partition().merge()"])
p("C07","A jitted call's outcome depends on its arguments, never on call history",
 "The result and module updates of a call through one nnx.jit-transformed function are determined by the module (its types, submodule sharing, static attributes, variable kinds and metadata, initialisation mode, values) and the arguments of that call. Earlier calls with near-identical modules or arguments, earlier failures, cache evictions and calls made by other threads with other modules never change it. Modules that differ in any of these respects never share a trace.",
 ["histories","fault_sequences","schedules","inputs"],
 "For every sequence of calls of one transformed function over modules differing in one respect at any depth, interleaved with failing calls, cache clears and other threads' calls.",
 "tests/test_transforms.py calls each jitted function once or twice with the same module; a stale cache hit needs two calls whose modules differ only in one hashed or compared component.",
 ["nnx/module.py","nnx/transforms.py","nnx/containers.py","nnx/state.py"],
 [("ModuleDef equality and hashing as jit cache key","nnx/module.py:ModuleDef.__eq__/__hash__"),("container metadata and State keys as tree aux data","nnx/containers.py:NodeBase, nnx/state.py")],
 observe=["return values","Module.get_state"])
p("C08","Module identity and sharing survive partition, merge, copying and threads",
 "However many modules are created, cloned, merged or copied, in one or in several threads at the same time, two attributes refer to the same submodule after partition and merge (or clone) exactly when they did before, every distinct submodule keeps its own variables, and no two distinct modules are ever confused. Rebuilt and copied modules (merge, clone, copy.copy, copy.deepcopy, pickle, also in another process) are independent of their source and usable at the level where they were made.",
 ["schedules","histories","inputs"],
 "For every module graph (shared, nested, cyclic), every interleaving of threads that create, clone, merge and copy modules, and every composition of the results.",
 "tests/test_module.py checks one shared and one cyclic graph in one thread; identity collisions need a particular interleaving of constructors or a copy composed with its original.",
 ["nnx/ids.py","nnx/module.py"],
 [("process-wide unique ids under a lock","nnx/ids.py:UUIDManager"),("traversals memoise by module id","nnx/module.py:_make_module_def_recursive, _iter_state_recursive, _build_module_recursive")],
 observe=["Module.partition/merge/clone","copy.copy, copy.deepcopy","hash()"])
p("C09","repr of any object is unaffected by other threads and by earlier failures",
 "repr() of a module, state, pytree, container or module definition returns the same text whether other threads are printing at the same time or not, and whether or not an earlier repr failed part-way because an attribute's own repr raised. Shared and cyclic submodules are elided only within the repr call that already printed them.",
 ["schedules","fault_sequences","histories"],
 "For every set of objects printed concurrently, every interleaving, and every history of printing calls some of which are aborted by a failing attribute repr, including while the exception is still held.",
 "tests/test_module.py and tests/test_state.py print one object once; concurrency and failures in the middle of a repr are never exercised.",
 ["nnx/reprlib.py","nnx/module.py"],
 [("per-thread indent stack","nnx/reprlib.py:ReprContext"),("set of already printed modules","nnx/module.py:Module.__nnx_repr__")],
 observe=["repr()"])
p("C10","Logical axis rules are scoped to their block and their thread",
 "Inside a logical_axis_rules block every logical-axis lookup, constraint and read of a logically partitioned variable that is not given explicit rules uses that block's rules, and leaving the block, normally or by an exception, restores the rules in force before it, to any nesting depth. (Code of a transformed function makes its lookups when it is traced.) Rules set in one thread are never seen by another.",
 ["schedules","fault_sequences","histories"],
 "For every nesting of rule blocks and global settings, every exception unwinding them, and every interleaving of threads using different rules and meshes.",
 "tests/test_spmd.py uses a single mesh without rules and one thread; nesting, exceptions and concurrent threads with different rules are untested.",
 ["nnx/spmd.py"],
 [("thread-local rules restored in finally","nnx/spmd.py:_AxisRules, logical_axis_rules"),("unbox_fn applies the constraint on every read","nnx/spmd.py:with_logical_partitioning")],
 observe=["get_logical_axis_rules","logical_to_mesh_axes","shardings of constrained arrays"])
p("C11","Initialisation mode covers exactly the init call",
 "While module.init(...) runs, every module reachable from it when the call began reports is_initializing; when the outermost such call ends, normally or by an exception, no module of the graph as it was at the beginning or is at the end (including shared ones, ones replaced or removed during the call, and clones attached to it) still does, unless it already did when that call began. Ending a nested init call does not end the initialisation mode of the call around it, and modules outside the graph, and modules in other threads, are never affected.",
 ["histories","fault_sequences","schedules","programs"],
 "For every module graph, every nesting of init calls and edits of the graph inside them, every abort point, and other threads initialising their own modules.",
 "tests/test_module.py checks the flag once inside and once after one successful init; nesting, graph edits and failures are not covered.",
 ["nnx/module.py"],
 [("flag set before and cleared after the call on all reachable modules","nnx/module.py:Module.init, for_each")],
 observe=["Module.is_initializing"])
p("C12","An initialised immutable Pytree never changes",
 "Once construction of a (non-mutable) nnx.Pytree has finished, no assignment succeeds and no field ever changes: not while another thread is replacing or constructing pytrees, and not after a constructor, replace or restore failed part-way. replace returns a new, equally immutable object with exactly the requested fields changed, or raises; pytrees rebuilt by jax tree functions are immutable too.",
 ["schedules","fault_sequences","histories"],
 "For every mix of pytree classes (plain, dataclass, with containers, mutable=True), every interleaving of threads, and every point at which a constructor, setter or replace fails.",
 "tests/test_pytree.py tries one assignment after one construction; concurrent replace and failures in the middle are untested.",
 ["nnx/pytreelib.py"],
 [("per-object mutable/initialising marks removed in finally","nnx/pytreelib.py:_mutable, _initializing"),("replace mutates a copy","nnx/pytreelib.py:Pytree.replace")],
 observe=["setattr","Pytree.replace","jax.tree_map"])
p("C13","Module edits, snapshots and merges follow the reference semantics at every step",
 "Any interleaving of attribute edits, state updates, partitions, merges, clones, pops and pure-state operations on module graphs by cooperating tasks has exactly the effect of the same operations on a plain object graph with shared references: every value reads back, filters split the state into disjoint parts that together lose nothing, and variable kind and metadata are kept. A snapshot (state, pure module, clone) taken at any point never changes afterwards, and operations on it never reach the module it came from. An operation that is refused leaves every variable at its old or its intended new value, never anything else, and refused assignments change nothing.",
 ["histories","schedules","fault_sequences","inputs"],
 "For every module graph and every interleaved history of operations by several tasks, including refused ones (incompatible container, failing predicate, non-exhaustive filters, unknown path).",
 "The unit tests apply one or two operations to one fixed module each; aliasing between snapshots and live modules shows only after particular multi-step histories, and state after refused operations is never examined.",
 ["nnx/module.py","nnx/state.py","nnx/containers.py","nnx/partitioning.py"],
 [("containers replaced, never edited, on assignment","nnx/module.py:_setattr, nnx/containers.py:Container.replace"),("update merges states left to right then assigns by path","nnx/module.py:_update_module"),("State operations build new mappings","nnx/state.py")],
 observe=["all public Module, Pure, State operations"])
p("C14","Every sown value is collected exactly once, in order",
 "Values recorded with sow, directly or inside jitted, scanned or failing calls, are kept in the order they were recorded until a pop_state that selects them; that pop returns each of them exactly once and removes them, and leaves everything else in place. A call that fails before it returns contributes none of its values if it was transformed, and a pop_state that fails removes nothing. A sow or pop that is refused changes nothing.",
 ["histories","fault_sequences","schedules"],
 "For every interleaving of producers and collectors over every module graph, every failing forward call and failing filter.",
 "tests/test_module.py sows twice and pops once on one flat module; multiple collectors, failures in the middle and shared submodules are untested.",
 ["nnx/module.py","nnx/transforms.py"],
 [("sow appends to a tuple variable","nnx/module.py:Module.sow"),("pop walks the graph and deletes matched attributes","nnx/module.py:_pop_recursive")],
 observe=["Module.sow","Module.pop_state","Module.get_state"])
p("C15","A module shared by concurrent readers gives each the sequential answer",
 "Threads that only read one shared module (call it, partition, clone, filter, apply, call through a pure module, compute gradients of it, run jitted functions over their own clones) each get exactly the result they would get alone, and the shared module, state and pure module are unchanged by any of them, including readers that fail part-way. apply on a module, pure module or train state never changes its receiver, whatever the called method assigns, records, adds or removes, and whether it returns or fails.",
 ["schedules","fault_sequences","programs"],
 "For every interleaving of reader threads over every module built from the library's layers and user modules, and every reader failing at any of its steps.",
 "All unit tests are single-threaded; test_module.py checks apply on one module without failures.",
 ["nnx/module.py","nnx/transforms.py","nnx/nn/linear.py","nnx/nn/normalization.py","nnx/nn/stochastic.py"],
 [("apply works on a clone","nnx/module.py:Module.apply, Pure.apply, ModuleDef.apply"),("no shared scratch state in layers and transforms","nnx/nn, nnx/transforms.py")],
 observe=["return values","Module.get_state"])
p("C16","Train-state versions are independent and update as the optimizer prescribes",
 "Applying gradients to any retained version of a TrainState yields a new version whose parameters, optimizer state and step are those the optimizer prescribes for that version, and leaves every other version, the gradients and the module definition unchanged. Hence a parameter server and workers exchanging versions and gradients over a lossy, duplicating, reordering network compute exactly the fold of the updates that were applied, and every replica that applied the same updates is identical. A failing update yields no new version and changes none.",
 ["fault_sequences","histories","schedules"],
 "For every optimizer and model, every history of message loss, duplication, delay and reordering between workers and server, server crashes to an older version, and failing updates.",
 "tests/test_helpers.py applies one gradient to one TrainState once.",
 ["nnx/helpers.py","nnx/pytreelib.py","nnx/state.py"],
 [("apply_gradients builds a new version via replace","nnx/helpers.py:TrainState.apply_gradients"),("apply by state name","nnx/helpers.py:TrainState.apply")],
 observe=["TrainState.params, opt_state, step, apply, apply_gradients"])
p("C17","Concurrent type registrations are never lost",
 "Once registering a node type has returned, or a Pytree or variable class has been defined, in any thread and whatever other threads register at the same time, its instances are treated as nodes from then on by every module and pytree in the process. Registrations never affect the treatment of other types.",
 ["schedules","histories"],
 "For every interleaving of threads that register node types, define classes and partition modules using them.",
 "No test registers a type from a thread; losing a registration needs two registrations to overlap.",
 ["nnx/nodes.py","nnx/pytreelib.py","nnx/containers.py"],
 [("process-wide registry","nnx/nodes.py:register_node_type")],
 observe=["nodes.is_node","Module.partition","jax.tree_util.tree_leaves"])
p("C25","Running statistics and dropout keys follow exactly the calls that were made",
 "After any history of calls, a BatchNorm layer's running mean and variance are the exponential moving average (weight `momentum` on the old value) of the batches of the training calls made through that layer, whether called eagerly or through nnx.jit/grad/remat/scan, averaged over all shards when an axis name is given; calls in inference mode, calls on clones or through apply, failed transformed calls and other replicas never change them, and no call changes scale or bias. The mode of BatchNorm and Dropout is the one given to the call, else the layer's, else the context's flag, and a call without any fails. Dropout draws exactly one key from its stream per call that needs a mask and none otherwise, and returns each input element either zeroed or divided by the keep probability.",
 ["histories","fault_sequences","configurations","schedules"],
 "For every net of BatchNorm and Dropout layers (used repeatedly), every history of training and inference calls in every form, failing calls, and statistics exchanged between replicas, lost, repeated or restored from a checkpoint.",
 "tests only run BatchNorm inside one integration example and test Dropout on one input; no test compares running statistics after several calls, after failures, across shards, or with modes given in several places.",
 ["nnx/nn/normalization.py","nnx/nn/stochastic.py","nnx/module.py"],
 [("running average updated on the module in training mode","nnx/nn/normalization.py:BatchNorm.__call__"),("first mode that is given","nnx/module.py:first_from"),("mask drawn from the layer's stream","nnx/nn/stochastic.py:Dropout.__call__")],
 observe=["BatchNorm.mean, BatchNorm.var","return values","Context.make_rng"])
p("C24","Dict and Sequence keep to their elements through every edit and call",
 "At every moment of any history of edits, snapshots, clones, merges, pops, state updates and jitted calls, nnx.Dict behaves as the mapping (iteration, length, membership, get, items, equality; KeyError for what is no key) and nnx.Sequence as the sequence (length, iteration, indices from both ends, IndexError outside) of exactly the elements put into it and not removed. Calling a Sequence runs every element once, in order, each on the result of the one before (a tuple as arguments, a dict as keywords), and gives the context to exactly those that take one; when an element fails, the ones before it have run, the ones after it have not, and its exception is raised. A call changes nothing but what the elements change themselves: not the caller's arguments, not what elements return, not what other threads calling the same Sequence compute.",
 ["histories","fault_sequences","schedules","programs"],
 "For every history of container operations, every list of elements (shared, stateful, failing, not callable), every failing element or element iterable, and every interleaving of threads calling a shared Sequence.",
 "tests/test_helpers.py and tests/test_module.py build one Sequence and a few Dicts and read an element; no missing keys, empty or edited containers, failing elements, kept results or concurrent calls.",
 ["nnx/helpers.py"],
 [("mapping protocol over the module's attributes","nnx/helpers.py:Dict"),("pipeline of the elements","nnx/helpers.py:Sequence.__call__")],
 observe=["nnx.Dict","nnx.Sequence"])
NA=[
("C18","Filter algebra selects exactly the variables it describes","Filters built from types, strings, callables, Any/All/Not style sequences and ellipsis match exactly the variables their definition describes, for every path and value.",["nnx/partitioning.py"],"to_predicate","nnx/partitioning.py:to_predicate"),
("C19","Layers compute their documented functions","Linear, Conv, Embed, BatchNorm, LayerNorm, RMSNorm style layers and Dropout compute their documented mathematical functions for every shape, dtype and option.",["nnx/nn/linear.py","nnx/nn/normalization.py","nnx/nn/stochastic.py"],"layer forward methods","nnx/nn"),
("C20","Dtype promotion of layers follows the declared dtypes","Layer inputs and parameters are promoted to the declared or inferred dtype for every combination of argument dtypes.",["nnx/nn/dtypes.py"],"promote_dtype/canonicalize","nnx/nn/dtypes.py"),
("C21","Scan keeps sharding metadata consistent with the added axis","Adding and removing the scan axis name in variable sharding metadata are inverse for every sharding tuple and axis index.",["nnx/spmd.py","nnx/transforms.py"],"add_axis/remove_axis","nnx/spmd.py"),
("C22","Logical axes map to mesh axes by rule priority","For every sequence of logical names and every rule list, the computed partition spec assigns each mesh axis at most once, in rule order.",["nnx/spmd.py"],"_logical_to_mesh_axes","nnx/spmd.py"),
("C23","Container and dataclass field declarations are honoured","Fields declared with nnx.param, nnx.variable, nnx.static_field and similar get the declared container for every dataclass declaration, and containers compare and convert as declared.",["nnx/dataclasses.py","nnx/containers.py"],"field helpers","nnx/dataclasses.py"),
]
for id,t,s,f,n,w in NA:
    p(id,t,s,["inputs"],"For every input of a pure function.","The tests sample a few inputs.",f,[(n,w)])
with open('/verif/properties.jsonl','w') as fh:
    for x in P: fh.write(json.dumps(x)+"\n")
