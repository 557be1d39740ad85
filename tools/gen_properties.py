#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long JSON lines stay reviewable)."""
import json, os
C='client/rust/src/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':hook}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

HOOK='A constructor for collactions (the public type has none): Collaction::new behind cfg(tp_sim).'
prop('C01','A collaction is applied entirely or not at all',
 'Applying a pending collaction to a realm either performs every one of its state writes, in order, against the working copy, or (when any assertion fails, any handle is stale, or any value has the wrong type) leaves every value of the working copy exactly as it was. A rejected collaction is handed back unchanged, ready to be retried, and no collaction, however malformed, stale or duplicated, crashes the engine. Assertions inside a collaction see the writes that precede them in it.',
 ['histories','schedules','fault_sequences','inputs'],
 'Every sequence of collactions from any number of sending threads, containing any mix of assertions and writes on any value types (numbers, text, handles, lists), with handles that have become stale or mistyped by the time they are applied, with delayed, duplicated, reordered and retried collactions.',
 'No existing test builds a collaction or an engine at all; the guarantee is over every mix and position of failing action and every interleaving of producers with object removal.',
 [C+'engine.rs',C+'action/mod.rs',C+'action/property.rs',C+'contract/properties/states/dyn_handle.rs'],
 [('apply loop with reversal of already-applied actions',C+'engine.rs: Engine::apply_collaction / reverse_actions'),('value swap that doubles as undo',C+'engine.rs: Engine::apply_action')],
 ['values of all states in the working copy after each apply','the CollactionResult returned'],
 [('working copy','the Fork baseline of the realm, mutated by actions',C+'realm.rs')],HOOK)
prop('C02','Every accepted collaction is decided exactly once, in sending order',
 'Each collaction successfully handed to the queue is taken out and decided (applied or rejected) exactly once, never lost, duplicated, altered or invented, even when the sender exits right after sending. Collactions of one sender are decided in the order it sent them, and if one send completed before another began, on any threads, the earlier one is decided first.',
 ['schedules','histories','fault_sequences','configurations'],
 'Every interleaving of any number of sending threads with the applying thread, for unbounded queues and every bounded capacity including zero, with senders that stall, die or hang up at any point, and any mix of polling and timed waiting on the applying side.',
 'Depends on thread interleavings; the existing tests never start a thread or an engine.',
 [C+'engine.rs'],
 [('multi-producer queue between senders and engine',C+'engine.rs: Engine::new'),('one collaction dequeued per apply call',C+'engine.rs: Engine::try_apply, Engine::apply_timeout')],
 ['order and identity of decided collactions against the recorded send history'],
 [('pending queue','collactions sent but not yet decided',C+'engine.rs')],HOOK)
prop('C03','A bounded queue limits pending collactions and never strands a sender',
 'With capacity n, no more than n sent collactions are ever pending at once: a non-blocking send beyond that is refused, a timed send gives up only after its timeout, and a blocking send waits until room appears. Any refused or abandoned send hands the collaction back unchanged, and every blocked sender is released when room appears or when the engine goes away; an unbounded queue never blocks or refuses while the engine lives.',
 ['schedules','configurations','fault_sequences','histories'],
 'Every capacity (none, zero, small, larger), every number of senders, every interleaving of blocking, timed and non-blocking sends with applies, engine shutdown at any point, stalls and spurious wake-ups.',
 'Capacity and wake-up behaviour appear only under particular interleavings and shutdown points; no existing test creates a queue.',
 [C+'engine.rs'],
 [('capacity passed to the queue',C+'engine.rs: Engine::new'),('receiver owned by the engine, dropped with it',C+'engine.rs: struct Engine')],
 ['result of each send call with its simulated start/end time','number of sent-but-undecided collactions'],None,HOOK)
prop('C04','Waiting for a collaction honours its timeout and reports hang-up correctly',
 'Polling the engine never blocks; a timed wait returns a collaction as soon as one is available, reports a timeout no earlier than the requested time and only if nothing was available, and is not cut short by spurious wake-ups. Once every sender is gone the engine first hands out all remaining collactions and only then, and without waiting, reports that senders are disconnected; while a sender lives it never reports disconnection.',
 ['schedules','fault_sequences','inputs'],
 'Every timeout including zero and effectively infinite ones, every interleaving of arrivals, sender exits and deadlines, clock granularity, spurious wake-ups and interrupted waits.',
 'The boundary cases need a collaction or hang-up landing exactly around a deadline; nothing in the existing tests waits on the engine.',
 [C+'engine.rs'],
 [('non-blocking receive',C+'engine.rs: Engine::try_apply'),('receive with deadline',C+'engine.rs: Engine::apply_timeout')],
 ['return value and simulated duration of try_apply / apply_timeout'],None,HOOK)
prop('C05','Realm time is the saturating sum of its ticks and converts to true seconds',
 'After any sequence of ticks, realm time equals the running sum of all ticks applied, clamped at the representable limits rather than wrapping, and nothing else (applying, sending, creating or removing) moves it; ticks never make time run backwards unless a negative tick was given. Reading a time in seconds agrees with the declared ticks per second: whole seconds truncate and fractional seconds are accurate to floating-point precision.',
 ['histories','schedules','inputs','fault_sequences'],
 'Every sequence of tick sizes, including zero, negative, huge and jumping ones as produced by stalled or skewed frame clocks, interleaved with any other engine activity.',
 'The existing time test checks three hand-picked warp values and never ticks an engine or reads seconds.',
 [C+'engine.rs',C+'time/mod.rs',C+'realm.rs'],
 [('tick accumulates with saturating addition',C+'engine.rs: Engine::tick; '+C+'time/mod.rs: impl Add for Ticks'),('seconds conversion',C+'time/mod.rs: Ticks::as_secs, as_secs_f32')],
 ['Realm::time() after every step','Ticks::as_secs/as_secs_f32'])
prop('C06','Object-local time follows its warp without wrapping or running backwards',
 'The local time of an object is its parent time shifted by the warp offset and multiplied by the warp scale, clamped at each step to the representable range instead of wrapping around. Consequently local time is zero at the offset, never decreases while parent time advances under a non-negative scale, never increases under a negative one, and an unwarped object reads its parent\'s time.',
 ['inputs','histories','schedules'],
 'Every parent time, offset and scale in the representable range, and every advancing, stalling or jumping sequence of frame ticks, including chains of nested warps.',
 'The existing test covers three in-range points; wrap-around and monotonicity are statements about every tick sequence and scale.',
 [C+'time/mod.rs',C+'object.rs'],
 [('offset then fixed-point scale',C+'time/mod.rs: TimeWarp::apply, impl Mul<TimeScale> for Ticks'),('warp stored per object',C+'object.rs: Object::time_warp')],
 ['ChannelTime::warp for the realm clock at every frame'])
prop('C07','A stale handle never reaches live data',
 'Once an object, its properties or its contract have been removed, every handle and identifier obtained for them reports an error on every access, for ever, no matter how many objects or contracts have since been created in their place; it never reads, writes or removes another object\'s data. Handles to things that still exist keep working and keep denoting the same thing for as long as it lives.',
 ['histories','schedules','fault_sequences'],
 'Every history of registering, creating, reading, writing, removing and unregistering by any number of clients holding old handles, including reused storage slots, and delayed or duplicated messages carrying handles that died in between.',
 'Tests create one or two objects and never use a handle after slot reuse; the statement ranges over all histories.',
 ['crates/datastructures/arena/src/lib.rs',C+'baseline.rs',C+'object.rs',C+'contract/properties/states/handle.rs',C+'contract/properties/channels/handle.rs',C+'contract/properties/states/dyn_handle.rs',C+'contract/properties/channels/dyn_handle.rs'],
 [('generational indices','crates/datastructures/arena/src/lib.rs: Arena, Index'),('typed lookup by handle',C+'contract/properties/states/handle.rs, '+C+'contract/properties/channels/handle.rs'),('object/contract lookup',C+'baseline.rs')],
 ['result of every lookup through every handle ever issued'])
prop('C08','A write changes the addressed property and nothing else',
 'Writing one property of one object changes exactly that property: every other property, object, contract and time warp keeps its value, and the main and working copies of a realm never affect each other. A read returns the last value written through any of the equivalent access paths (typed or dynamic handle, identifier plus object, indexing), and every supported value type, including lists and handles, reads back exactly as written.',
 ['histories','inputs','schedules'],
 'Every history of reads and writes by interleaved clients over every property type, any number of objects per contract and several contracts, in both copies of the realm.',
 'Isolation is a statement about everything that was not touched after every operation; tests look at one value of one object.',
 [C+'baseline.rs',C+'object.rs',C+'realm.rs',C+'contract/properties/states/handle.rs',C+'contract/properties/states/dyn_handle.rs',C+'contract/properties/channels/handle.rs',C+'contract/properties/dynamic/property.rs'],
 [('one arena per property type',C+'contract/properties/states/mod.rs: StateArenaMap, '+C+'contract/properties/channels/mod.rs: ChannelArenaMap'),('identifier to handle mapping per object',C+'object.rs: bind_state, bind_channel'),('two baselines per realm',C+'realm.rs: Realm::baseline')],
 ['full read-back of both copies after every operation'])
prop('C09','Creating and removing objects conserves everything else, and failures do nothing',
 'Creating an object makes exactly one new object with exactly the given values; removing one deletes that object together with all of its properties and nothing else, after which enumeration and its contract\'s object list no longer mention it. An operation that reports an error (wrong number or types of properties, unknown contract, missing object, object of another contract) leaves the realm exactly as it was and never crashes.',
 ['histories','schedules','fault_sequences'],
 'Every history of creations and removals, valid and invalid, repeated and duplicated, by interleaved clients over several contracts and both copies of a realm.',
 'The existing tests create objects but never remove one or provoke a failed operation.',
 [C+'baseline.rs',C+'object.rs',C+'contract/mod.rs'],
 [('validate then create',C+'baseline.rs: Baseline::object_create'),('remove object and its fields',C+'baseline.rs: Baseline::object_remove'),('per-contract object list',C+'contract/mod.rs: ContractData')],
 ['iter_objects, contract_data().objects(), values of all properties'],
 [('object arena and contract object sets','must agree after every operation',C+'baseline.rs')])
prop('C10','A contract is registered once at a time; unregistering removes just its objects',
 'At most one registration per contract identity is live at a time: a second registration fails without effect, and succeeds again after unregistering. Unregistering removes the contract, all of its objects and all of their properties and nothing else, never crashes, and fails without effect when the handle is stale or belongs to a different contract.',
 ['histories','schedules','fault_sequences'],
 'Every history of registering, unregistering and re-registering several contracts interleaved with object creation and removal by other clients, including duplicated and late requests.',
 'No existing test unregisters a contract or registers one twice.',
 [C+'baseline.rs',C+'contract/mod.rs'],
 [('identity check on registration',C+'baseline.rs: Baseline::register_contract'),('cascade on unregistration',C+'baseline.rs: Baseline::unregister_contract')],
 ['register/unregister results, contract_data, iter_objects'])
prop('C11','Every way of naming a property denotes the same property',
 'For each contract, the identifier of a property obtained by its named accessor, by position, by iterating, and by skipping ahead in an iteration all agree: same owning contract, same type, same underlying property of every object; positions past the end give nothing, and remaining counts are exact. Identifiers of one registration are rejected by objects of any other.',
 ['programs','histories','schedules'],
 'Every contract shape (any number of properties, any mix of types), every mixture of stepping and skipping by concurrent readers, every registration order and re-registration.',
 'Tests iterate one contract once with plain stepping and never use the identifiers on objects of several contracts.',
 [C+'contract/mod.rs',C+'contract/properties/mod.rs',C+'contract/properties/states/id.rs',C+'contract/properties/states/iter.rs',C+'contract/properties/dynamic/__macro.rs',C+'object.rs','client/contract_macro/src/lib.rs','client/contract_example/rust/src/states.rs'],
 [('generated accessors','client/contract_macro'),('iterators over property identifiers',C+'contract/properties/mod.rs: prop_iter!'),('lookup by position',C+'contract/mod.rs: Contract::state_id, chan_id'),('contract check on use',C+'object.rs: Object::bind_state, bind_channel')],
 ['values read through each identifier on each object'])
prop('C12','A channel holds exactly its keyframes in time order, however they arrived',
 'A channel built from keyframes that arrive in any order contains exactly those keyframes (none lost, duplicated or altered, each value still paired with its own time), arranged by non-decreasing time. Reading, editing through mutable access, and storing it in an object preserve that content, and other channels are unaffected.',
 ['inputs','histories','fault_sequences'],
 'Every set of keyframes of every value type, with equal times, any finite or infinite times, delivered in any order by delayed, duplicated or reordered updates.',
 'The existing test builds channels from a handful of already ordered keyframes; ordering must hold for every arrival order.',
 [C+'contract/properties/channels/channel.rs',C+'baseline.rs',C+'contract/properties/channels/dyn_channel/mod.rs'],
 [('sort at construction',C+'contract/properties/channels/channel.rs: Channel::new'),('typed storage',C+'baseline.rs: Baseline::channel, channel_mut')],
 ['Channel::keyframes after construction, after storing and after edits'])
prop('C13','The foreign interface behaves exactly like the native one',
 'Driving a realm through the exported C functions gives the same values, objects, identities and final contents as the same sequence of native calls, for every exported value type. Text crosses the boundary intact in either encoding, and versions, names, counts and contents reported through it match the native ones.',
 ['histories','inputs','schedules'],
 'Every history of exported calls by a host, over every exported value type and every text, interleaved with native use of the same realm and with host-side clean-up at arbitrary moments.',
 'The existing foreign-interface tests only generate headers or run one fixed scenario per type.',
 [C+'baseline.rs',C+'contract/properties/states/mod.rs',C+'contract/properties/states/handle.rs',C+'contract/properties/states/id.rs',C+'contract/properties/channels/channel.rs',C+'contract/mod.rs',C+'object.rs','crates/rsharp/rust/src/string.rs','crates/rsharp/rust/src/rbox.rs','crates/rsharp/rust/src/rvec.rs','client/contract_example/rust/src/lib.rs','demos/unity_states/rust/src/lib.rs'],
 [('monomorphised exported wrappers',C+'baseline.rs: c_api; '+C+'contract/properties/*/: c_api'),('boxed primitives, vectors and strings','crates/rsharp/rust/src'),('example contract exports','client/contract_example/rust/src/lib.rs: c_api')],
 ['values returned by exported functions versus native reads of the same baseline'])
prop('C14','Everything crossing the foreign boundary is freed exactly once, by its owner',
 'Each value a host receives as owned stays valid and unchanged until the host gives it back, values only borrowed stay valid as long as their owner lives and is not modified, and values passed in by ownership are consumed exactly once. No order in which the host uses and releases them, on whichever thread its finalizer runs, causes a double release, a use of released memory, or memory that is never reclaimed once everything was released.',
 ['schedules','histories','fault_sequences'],
 'Every order and timing of releases by a host\'s application threads and its concurrent finalizer thread, relative to all other calls, over all exported types.',
 'Ownership mistakes show only for particular release orders, and only under a checking allocator; the tests use neither.',
 [C+'baseline.rs',C+'contract/properties/states/mod.rs',C+'contract/properties/states/handle.rs',C+'contract/properties/channels/channel.rs',C+'contract/mod.rs',C+'object.rs','crates/rsharp/rust/src/string.rs','crates/rsharp/rust/src/rbox.rs','crates/rsharp/rust/src/rvec.rs','client/contract_example/rust/src/lib.rs'],
 [('owned results as boxes with a matching drop export','*__drop exports'),('borrowed results as references','*__value, *__states, Baseline__state_*'),('ownership transfer by box argument','*__new, *__value_set, *__object_create')],
 ['allocations and frees seen by a checking allocator during simulated host runs'])
prop('C15','A saved realm loads back as the same realm, surviving crashes',
 'Saving a realm copy and loading it gives the same contracts, the same number of objects per contract, and the same value of every property, with handles between objects and contracts pointing at the corresponding loaded ones (objects and handles are renamed, their order is not kept, and zeros lose their sign). If a crash cut the save short, loading what was stored reports an error or gives the completely saved realm, never a part of it. A realm whose properties refer to objects or contracts outside the save, properties of types that cannot be stored, and a load that leaves out something referred to are reported as errors instead of crashing or giving an incomplete realm.',
 ['histories','crash_points','inputs','fault_sequences'],
 'Every realm content reachable by any history, over repeated generations of saving and loading (any values of the single-valued types, self and cyclic references, dangling references, empty contracts, subsets of contracts saved or loaded, in any order), and every point at which a crash cuts the stored bytes short.',
 'The existing round-trip test stores one fixed realm in memory and cannot be built here; nothing tests interrupted saves.',
 ['client/serialize/rust/src/serializer/mod.rs','client/serialize/rust/src/serializer/handle_map.rs','client/serialize/rust/src/deserializer/new/mod.rs','client/serialize/rust/src/deserializer/new/contracts.rs','client/serialize/rust/src/deserializer/new/objects.rs','client/serialize/rust/src/deserializer/new/states.rs'],
 [('two-pass serialization with handle map','client/serialize/rust/src/serializer'),('verified, staged deserialization','client/serialize/rust/src/deserializer/new')],
 ['loaded baseline compared with the saved one up to renaming of handles'])
prop('C16','Damaged or foreign saved data is refused, never trusted or fatal',
 'Loading bytes that were damaged, truncated, spliced or crafted never crashes or hangs: it either reports an error or yields exactly the realm that the bytes describe, in which every object has exactly the properties its contract demands, with the right types and only live handles; nothing missing or out of bounds is made up. Data for a contract whose identity, property names or property types differ from the requested contract is refused, and so is data that does not carry the mark of the format (TPF1).',
 ['inputs','fault_sequences','crash_points'],
 'Every corruption of stored bytes: bit flips, zeroed or repeated sectors, torn and truncated writes, mixed old and new content, references beyond the end, missing parts, mismatching contracts.',
 'The only existing test loads freshly written data.',
 ['client/serialize/rust/src/deserializer/new/mod.rs','client/serialize/rust/src/deserializer/new/contracts.rs','client/serialize/rust/src/deserializer/new/objects.rs','client/serialize/rust/src/deserializer/new/states.rs','client/serialize/rust/src/types/eq_impl.rs'],
 [('buffer verification and contract matching','client/serialize/rust/src/deserializer/new')],
 ['Result of DeserializerBuilder::finish / Deserializer::finish on damaged bytes'])
prop('C17','Code generation never reports success with missing or damaged output',
 'If a binding generator reports success, every expected file exists with complete content; if reading, creating or writing any file fails, or the disk fills up, it reports failure. Without the force option it refuses to touch a non-empty output directory and changes nothing in it; with it, a rerun after any failure or crash replaces all partial output with exactly what a clean run produces.',
 ['fault_sequences','crash_points','histories'],
 'Every point at which a file operation fails, is interrupted, comes up short or the process dies, in every run of a sequence of forced and unforced runs, from empty, partial or foreign directory contents.',
 'The generators have no tests, and faults at arbitrary file operations need an injected file system.',
 ['client/codegen_wrapped/src/lib.rs','client/codegen_wrapped/src/main.rs','crates/rsharp/codegen/src/codegen.rs','crates/rsharp/codegen/src/main.rs'],
 [('non-empty check and create','client/codegen_wrapped/src/lib.rs: Codegen::new; crates/rsharp/codegen/src/codegen.rs: Codegen::new'),('error propagation from each file','client/codegen_wrapped/src/main.rs; crates/rsharp/codegen/src/codegen.rs: render_all')],
 ['exit status and resulting directory content of the real generators on a simulated disk'])
# --- not claimed (listed for completeness; see MANIFEST not_applicable) ---
prop('C18','Easing between keyframes stays between its end points',
 'Interpolating between two values gives the start value at the beginning, the end value at the end, and a value between the two (or one of the two for non-numeric values) everywhere in between, for rising and falling ramps alike.',
 ['inputs'],'Every pair of values of every numeric type and every position between them.',
 'Tests sample one rising ramp of one type.',
 [C+'contract/properties/channels/misc.rs'],[('integer and jump easing',C+'contract/properties/channels/misc.rs')],['ease() results'])
prop('C19','Exported symbol names are injective and stable',
 'Two different exported items never end up with the same exported name, and the name of an item depends only on its path and its own name, so a host generated against one build links against another.',
 ['programs'],'Every set of exported items in the workspace.',
 'Tests check a few expansions of the naming macros.',
 ['crates/rsharp/rust/macro/src/remangle.rs','crates/rsharp/rust/macro/src/substitute.rs'],[('compile-time name mangling','crates/rsharp/rust/macro/src')],['symbols of the built libraries'])
prop('C20','The demo game keeps rendering the shared state',
 'The demo applications show the state of the realm they are connected to: each displayed item follows the corresponding property.',
 ['histories'],'Every history of property changes while a demo runs.',
 'No tests drive the demos.',
 ['demos/circle_game/src/main.rs','demos/unity_states/cs'],[('rendering loop','demos/')],['window contents'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: 
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
