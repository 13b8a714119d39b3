PROPS=[]
def P(id,title,statement,over,qtext,why,files,mech,note='',**k):
    PROPS.append(dict(id=id,title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,note=note,**k))
TB='Trusted: clang 18 lowering to LLVM IR, the vtc engine (IR semantics and memory model), z3/cvc5, models of allocation and libstdc++ entry points; messages of assertions and debug prints are dropped.'
P('C01','Bit-field packing stores and reads back exactly one field',
 'Writing a value into a bit field of an identifier word and reading that field back yields the value modulo the field width, for every field position and width that fits the word. No bit outside the field changes, and reading never modifies the word.',
 ['inputs'],'every word, value, start and width with start+width within the word, for signed and unsigned words of 8 to 64 bits',
 'The unit test packs a handful of constants; full-width fields and fields at the top of the word are never sampled.',
 ['src/vt/utils/bits/bits_packer.h','src/vt/utils/bits/bits_packer.impl.h'],
 [('static and dynamic field set/get with masks','src/vt/utils/bits/bits_packer.impl.h')],
 'Loop-free code, full-domain symbolic inputs: every obligation discharged for all inputs. '+TB)

LF='Loop-free code with full-domain symbolic inputs: every obligation is discharged for all inputs. '+TB
P('C02','Handler, event, RDMA-handle and pipe identifiers round-trip and are distinct',
 'An identifier built from its components (owning node, sequence number, kind bits, type) reads back exactly those components, and changing one component through its setter changes no other. Two identifiers built from different components are different, and sequence allocation hands out a fresh identifier on every call.',
 ['inputs'],'every combination of components that fits the documented field widths, in the default and in the trace-enabled build',
 'Tests build a few identifiers with small numbers; a misplaced or overlapping field only shows for particular bit patterns.',
 ['src/vt/handler/handler.cc','src/vt/handler/handler.h','src/vt/event/event_id.h','src/vt/rdma/rdma_handle.cc','src/vt/pipe/id/pipe_id.cc','src/vt/pipe/id/pipe_id.h'],
 [('handler field setters/getters','src/vt/handler/handler.cc'),('event id layout','src/vt/event/event_id.cc'),('pipe id generation','src/vt/pipe/id/pipe_id.cc')],LF)
P('C03','Object group, collection and element identifiers round-trip and are distinct',
 'Object group proxies, virtual collection proxies and collection element identifiers give back the owner, kind bits and sequence number they were made from, and different components give different identifiers. Setting one component leaves the others unchanged.',
 ['inputs'],'every owner, kind and sequence number within the field widths',
 'A test samples a few proxies; overlap between two fields needs particular values in both.',
 ['src/vt/objgroup/proxy/proxy_bits.cc','src/vt/vrt/proxy/proxy_bits.cc','src/vt/vrt/collection/proxy_builder/elm_proxy_builder.cc','src/vt/elm/elm_id_bits.h','src/vt/elm/elm_id_bits.cc'],
 [('object group proxy bits','src/vt/objgroup/proxy/proxy_bits.cc'),('element id bits','src/vt/elm/elm_id_bits.cc')],LF)
P('C04','Group identifiers encode owner, kind and sequence without interference',
 'A group identifier gives back the sequence number, owner node, collective flag and static flag it was created from, and each setter changes only its own component. The default group is distinguishable from every generated group.',
 ['inputs'],'every node, flag combination and sequence number within the field widths',
 'Group tests create a handful of groups on few nodes, never exercising wide sequence numbers or negative nodes.',
 ['src/vt/group/id/group_id.cc','src/vt/group/id/group_id.h'],[('group id builder','src/vt/group/id/group_id.cc')],LF)
P('C05','Epoch identifiers encode kind, category, owner and sequence without interference',
 'An epoch identifier built as rooted or collective, with a category and (when rooted) an owner, reads back exactly those components and its sequence number; each setter changes only its own component. The archetype of an epoch keeps everything but the sequence number, and consecutive sequence numbers are consecutive identifiers.',
 ['inputs'],'every category, node and sequence number that fits its field',
 'Unit tests walk a few thousand consecutive epochs of one kind and never combine large sequence numbers with owners and categories.',
 ['src/vt/epoch/epoch_manip.cc','src/vt/epoch/epoch_manip.h','src/vt/epoch/epoch_type.h'],[('epoch bit layout','src/vt/epoch/epoch_manip.h')],LF)
P('C06','A message envelope carries exactly what was written into it',
 'Each field of a message envelope (type flags, group, destination, handler, reference count, epoch, tag, put size and pointer, priority, trace event) reads back the last value written, and writing one field changes no other. Reference counting neither loses nor invents a reference, and operations documented as illegal for an envelope kind are refused.',
 ['inputs','histories'],'every envelope content and every value of every field, in the default and in the priorities-plus-tracing build',
 'Tests set a few fields to small constants; interference between packed fields shows only for particular combinations.',
 ['src/vt/messaging/envelope/envelope_get.impl.h','src/vt/messaging/envelope/envelope_set.impl.h','src/vt/messaging/envelope/envelope_setup.impl.h','src/vt/messaging/envelope/envelope_ref.impl.h','src/vt/messaging/envelope/envelope_extended_util.impl.h','src/vt/messaging/envelope/envelope.h'],
 [('envelope accessors','src/vt/messaging/envelope/envelope_set.impl.h'),('reference counting','src/vt/messaging/envelope/envelope_ref.impl.h')],LF)
P('C07','Epoch windows allocate only terminated epochs, each active at most once',
 'Allocating an epoch from a window returns an epoch of that window that was terminated, makes exactly that one active and changes no other; terminating it makes exactly that one available again, and an exhausted window refuses rather than reusing an active epoch. Every epoch belongs to exactly one window, chosen by its kind, category and owner, and a new epoch is taken from the window of the kind that was asked for.',
 ['inputs','histories'],'every window content and allocation position, every kind, category and owner, and every set of already existing windows',
 'Tests allocate a few hundred epochs from a fresh window; wrap-around, fragmented windows and interference between windows of different categories are never reached.',
 ['src/vt/epoch/epoch_window.cc','src/vt/epoch/epoch_window.h','src/vt/epoch/epoch_manip.cc','src/vt/utils/adt/ranged_counter.h'],
 [('epoch allocation and termination','src/vt/epoch/epoch_window.cc'),('window lookup and new epochs','src/vt/epoch/epoch_manip.cc'),('wrapping counter','src/vt/utils/adt/ranged_counter.h')],
 'The allocation search loop is covered for any number of rounds by state subsumption at its head; the interval set below it is used through the contract decided in C08; partial correctness (termination of the search is argued, not proved). '+TB)
P('C08','The interval set behaves as the mathematical set of its values',
 'After any insertion of a value or interval, any removal and any clear, the integral set contains exactly the values the mathematical set would, its size counts each value once, and its bounds are the least and greatest member. Stored intervals stay ordered and apart, iteration visits the members in increasing order, and copies are independent of their source.',
 ['inputs','histories'],'every set content of any size reachable as ordered non-touching intervals of 64-bit values, and every value or interval inserted or removed',
 'Tests insert and remove a few hundred small numbers; wrong merges or counts need particular adjacency between an arbitrary set and the new interval, including the extremes of the value range.',
 ['src/vt/termination/interval/integral_set.h','src/vt/termination/interval/interval.h'],
 [('interval insertion, fusing and splitting','src/vt/termination/interval/integral_set.h'),('interval arithmetic','src/vt/termination/interval/interval.h')],
 'Contents are unbounded: the std::set underneath is a trusted container contract whose elements are materialised on demand (vtc/stl/vtc_lazy.h); the methods are loop-free per call except absorption of overlapped intervals, which is bounded (an interval over at most two stored ones) and labelled so. '+TB)

P('C09','Group regions partition and contain exactly their nodes',
 'A group region (single node, contiguous or strided range, explicit list, shallow list) reports as members exactly the nodes it denotes: membership, size, n-th element and iteration agree with one another. Splitting a region in any number of parts yields disjoint regions that together hold exactly the same nodes, and removing or copying leaves nothing extra or missing.',
 ['inputs'],'every range bound and stride, every node asked about, and every list content up to the stated length',
 'Group tests use a few hand-picked ranges on at most a handful of ranks; strides that do not divide the width and lists that end early are not sampled.',
 ['src/vt/group/region/group_range.cc','src/vt/group/region/group_list.cc','src/vt/group/region/group_shallow_list.cc','src/vt/group/region/group_region.cc'],
 [('range membership, size, split','src/vt/group/region/group_range.cc'),('list membership, split','src/vt/group/region/group_list.cc')],
 'Loop-free queries on ranges are proved for all bounds and strides; loops over members and lists are checked up to a stated length and counted as bounded. '+TB)
P('C10','Spanning trees reach every node exactly once from the root',
 'Every rank computes parent and children so that together they form one tree: each non-root rank has exactly one parent, it is listed among that parent\'s children, following parents always ends at the root, and descendant counts add up. A scatter hands each rank exactly its own piece, once, to the handler asked for, whichever rank scatters.',
 ['inputs','configurations'],'every number of ranks and every rank (default binary tree); list trees and whole-tree walks up to a stated size',
 'Collective tests run on the few ranks available; a wrong child of a deep or last rank only shows on larger machines.',
 ['src/vt/collective/tree/tree.cc','src/vt/collective/scatter/scatter.cc','src/vt/collective/scatter/scatter.impl.h'],
 [('parent, children, descendants','src/vt/collective/tree/tree.cc'),('scatter placement','src/vt/collective/scatter/scatter.cc')],
 'Recursion is cut at the recursive call with the callee contract (induction on the tree); the list-tree, level, foreach and whole-scatter contracts are bounded and labelled so. '+TB)
P('C11','Dense indices linearize, pack, compare and hash consistently',
 'Linearizing a dense index within its extents is a bijection onto 0..size-1 with the documented fastest dimension, and an index outside the extents is refused. Packing an index into its unique bits and back is lossless when coordinates fit, equality is coordinate-wise, the order is a strict total order, and equal indices hash equally. Enumeration visits each index of the extents exactly once.',
 ['inputs'],'every extent and coordinate whose linear size fits the index type, for one to six dimensions',
 'Tests enumerate small boxes; a swapped stride or a too narrow field shows only for particular extents or large coordinates.',
 ['src/vt/topos/index/dense/dense_array.h','src/vt/topos/index/dense/dense_array.impl.h','src/vt/topos/mapping/dense/dense.impl.h'],
 [('linearization','src/vt/topos/mapping/dense/dense.impl.h'),('packing, order, enumeration','src/vt/topos/index/dense/dense_array.impl.h')],
 'Loops have a constant trip count (the dimension) and are unrolled completely; products are decided by a sound integer translation of the bit-vector query; enumeration over extents is bounded. '+TB)
P('C12','Index-to-node maps place every element on one valid, balanced node',
 'Every default mapping of an index to a node yields a node of the machine and depends only on the index and the extents. Block maps assign consecutive linear positions to consecutive nodes in nearly equal parts (sizes differ by at most one, larger parts first); round-robin maps deal consecutive positions to consecutive nodes. RDMA element maps assign each element to the equal-sized block that contains it, and walking a region yields consecutive pieces that cover exactly the region.',
 ['inputs','configurations'],'every number of nodes, extent and index whose linear size fits the index type',
 'Tests map a few small ranges on few nodes; imbalance and off-by-one at part borders need sizes not divisible by the node count.',
 ['src/vt/topos/mapping/dense/dense.impl.h','src/vt/rdma/group/rdma_map.h','src/vt/rdma/group/rdma_group.h'],
 [('block and round-robin maps','src/vt/topos/mapping/dense/dense.impl.h'),('RDMA element map and region walk','src/vt/rdma/group/rdma_group.h')],
 'Dense block maps are checked against the contract of the flat block map; quotient and product obligations are decided through the integer translation; the region walk is bounded to four blocks. '+TB)
P('C13','Message memory pool hands out disjoint blocks and returns each to its class',
 'A block allocated with a size and an oversize is at least as large as both together, and its header reports what was requested and survives writes to the block. Live blocks never overlap and are not handed out again before they are freed. A freed block returns to the size class it came from, also after it was grown in place, and growth succeeds exactly when the reported remaining space suffices.',
 ['inputs','histories'],'every size, oversize and growth, and any number of slots and cursor position of the free lists',
 'Tests allocate a few sizes; a block freed into the wrong class or an under-sized block corrupts memory only for particular size and growth combinations.',
 ['src/vt/pool/pool.cc','src/vt/pool/header/pool_header.cc','src/vt/pool/static_sized/memory_pool_equal.impl.h'],
 [('size classes and growth','src/vt/pool/pool.cc'),('free-list of one class','src/vt/pool/static_sized/memory_pool_equal.impl.h')],
 'Free lists are symbolic arrays of any length; doubling an exhausted pool is bounded to four initial slots; malloc is assumed to succeed. '+TB)
P('C14','Priorities: levels are independent and the highest priority runs first',
 'Setting the priority of one level changes exactly that level of the priority word and reads back, and words compare level by level from the outermost in. A message given a priority keeps the outer levels of its parent, and inner levels start at the lowest or at breadth-first. The named priorities follow the documented layout and range. The priority queue always hands out a unit of highest priority and loses or repeats none.',
 ['inputs','histories'],'every priority word, level and priority value; every interleaving of queue operations (queue contents bounded)',
 'Tests use three fixed priorities; a misplaced level only shows when levels and defaults are mixed.',
 ['src/vt/scheduler/priority_manip.cc','src/vt/scheduler/priority.h','src/vt/scheduler/priority_queue.h','src/vt/scheduler/prioritized_work_unit.h','src/vt/messaging/message/message_priority.impl.h'],
 [('level fields','src/vt/scheduler/priority_manip.cc'),('level masks','src/vt/scheduler/priority.h'),('message priorities','src/vt/messaging/message/message_priority.impl.h')],
 'Checked in the configuration with priorities enabled; queue contracts are bounded to four units (standard heap algorithms). '+TB)
P('C15','A reduction combines every contribution exactly once and delivers it once',
 'A node passes its part of a reduction on exactly when the messages of all its children and all announced local contributions have arrived, in whatever order, and never earlier. What it passes on combines each of them exactly once with the operator of the reduction, element by element; operands other than the first are only read, and operators do not depend on the order of combining. The part goes to the parent, or at the tree root to the root of the reduction, and is delivered there once. Reductions with different stamps or scopes never mix, and unstamped reductions get a stamp of their own.',
 ['schedules','inputs'],'every arrival order and value, any node of any tree; any number of messages for not firing early, at most five for complete reductions; every stamp and scope',
 'Tests run reductions whose messages arrive in one natural order; a reduction that fires early or loses a contribution needs a particular order of children, several local contributions and interleaved stamps.',
 ['src/vt/collective/reduce/reduce.impl.h','src/vt/collective/reduce/reduce.cc','src/vt/collective/reduce/reduce_state_holder.cc','src/vt/collective/reduce/reduce_scope.h','src/vt/collective/reduce/reduce_scope.impl.h','src/vt/collective/reduce/reduce_manager.cc','src/vt/collective/reduce/operators/default_op.impl.h','src/vt/collective/reduce/operators/functors/plus_op.h','src/vt/collective/reduce/operators/functors/tuple_op_helper.h','src/vt/collective/reduce/scoping/strong_types.h','src/vt/collective/reduce/get_reduce_stamp.h'],
 [('collecting and firing','src/vt/collective/reduce/reduce.impl.h'),('combining a chain of messages','src/vt/collective/reduce/operators/default_op.impl.h'),('reducers by scope','src/vt/collective/reduce/reduce_scope.impl.h'),('stamps','src/vt/collective/reduce/reduce.cc')],
 'Messaging, handler dispatch and message memory are recording stand-ins, containers are modelled; complete reductions are bounded to five messages at a node, vector operands to four elements. '+TB)
P('C16','The scheduler queue and its circular buffer are first in, first out',
 'Whatever the positions and contents, pushing puts the element behind all others and changes none of them, popping returns the oldest and leaves the others in order, also when the buffer wraps around or elements wait behind it. Size, emptiness and free space agree with the contents, nothing is lost or repeated, and popping an empty queue is refused.',
 ['inputs','histories'],'every read and write position and contents of the buffer (capacities 2, 5 and 64) and any number of elements behind it',
 'Tests push and pop a few elements; errors show only when the buffer wraps or overflows at particular positions.',
 ['src/vt/utils/container/circular_buffer.h','src/vt/scheduler/queue.h'],
 [('circular buffer','src/vt/utils/container/circular_buffer.h'),('overflow behind the buffer','src/vt/scheduler/queue.h')],
 'Each operation is proved from any state satisfying the representation invariant, which it restores; element type is byte-sized (the code is generic); std::deque is a trusted container contract. '+TB)
P('C18','The load balancer that runs in a phase is the one the specification asks for',
 'In a phase that has a line of its own in the specification file that line decides; otherwise the first line in file order that repeats every so many phases and matches; otherwise nothing runs. Without a file the balancer named runs every interval phases, and a given distribution is followed exactly where it changes. Parameters are split at the first equals sign and read back as written, or the default where absent or unreadable. Malformed parameters, unknown names, two lines for one phase, zero intervals, parameters a balancer does not know and opening a second file are refused. Asking again in the same phase gives the same answer.',
 ['inputs','configurations'],'any phases, intervals, names, parameter characters and order of lines (a few lines and characters at a time); whole files by native search',
 'Tests read two fixed files; other orders, precedence, zero or repeated lines, blanks and parameter characters are not tried.',
 ['src/vt/vrt/collection/balance/read_lb.cc','src/vt/vrt/collection/balance/read_lb.h','src/vt/vrt/collection/balance/lb_type.cc','src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc','src/vt/vrt/collection/balance/lb_data_restart_reader.h'],
 [('specification','src/vt/vrt/collection/balance/read_lb.cc'),('decision','src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc')],
 'Reading of whole files and of numbers uses standard streams and is searched natively only (bounded); texts of error messages are dropped. '+TB)
P('C19','Wave termination: no epoch ends early, none is held by finished work',
 'At every node, units produced and consumed are counted once on their epoch and on the enclosing global one. A node reports its subtree once per wave, only when all children reported and nothing local holds the epoch; the root ends the epoch exactly when two consecutive waves agree and everything produced was consumed, and otherwise starts the next wave. An epoch holds its enclosing epochs from creation to termination, and every unit given out is returned exactly once. Each registered action runs exactly once, after termination.',
 ['schedules','histories'],'every event at every node in any state of the counters, any number of children, inner node or root; every epoch identifier',
 'Tests run a few short epochs to completion on few ranks; a lost or doubled unit shows only in particular orders of finishing, nesting, waves and late registrations, as a hang or an early end.',
 ['src/vt/termination/termination.cc','src/vt/termination/termination.impl.h','src/vt/termination/term_state.cc','src/vt/termination/term_action.cc','src/vt/termination/term_action.impl.h','src/vt/termination/epoch_dependency.cc'],
 [('wave submission and decision','src/vt/termination/termination.cc'),('unit counting','src/vt/termination/termination.impl.h'),('nesting of epochs','src/vt/termination/epoch_dependency.cc'),('actions on termination','src/vt/termination/term_action.cc')],
 'Per-node step contracts over the real detector; messaging, scheduler, epoch windows and runnables are recording stand-ins, containers are modelled, hang reporting is off. That the four-counter method is correct given these steps (Mattern) is argued, not proved; continuing a wave is bounded to one further live epoch. '+TB)
P('C20','Rooted (Dijkstra-Scholten) epochs end exactly when nothing is owed',
 'For every epoch a node keeps the exact number of units it sent that are not yet acknowledged and of local units not yet done. The first message received engages it with its sender, which is acknowledged only when nothing is owed any more; every further message is acknowledged at once, to its sender, with its count. The root terminates the epoch exactly when nothing is owed, once, and the state of a disengaged node is dropped unless it was engaged again.',
 ['schedules','histories'],'every event in any reachable state of the algorithm: idle, engaged or root, with any counts and peers',
 'Tests drive a few message orders; premature termination or a lost acknowledgement needs a particular interleaving of engagement, local work and acknowledgements.',
 ['src/vt/termination/dijkstra-scholten/ds.cc','src/vt/termination/dijkstra-scholten/ds.h','src/vt/termination/dijkstra-scholten/comm.cc','src/vt/termination/termination.impl.h'],
 [('engagement and acknowledgement','src/vt/termination/dijkstra-scholten/ds.cc'),('messages and deferred cleanup','src/vt/termination/dijkstra-scholten/comm.cc')],
 'Each step is proved to restore an explicit invariant of the node state from any state satisfying it; the outstanding list holds at most the one engaging request between steps, which the invariant states and every step restores. '+TB)
P('C21','Time triggers run once per due period, in order, until removed',
 'In one pass every trigger whose next time has passed runs exactly once, earliest first, records the time it ran and stays registered; one whose time has not come does not run. A removed trigger runs no more, also when another trigger removes it in the same pass, and no other is affected. Triggers may add or remove triggers or make progress themselves. Identifiers are not reused, a trigger runs immediately only when asked, and the pass always ends: after running, a trigger is not due at that time, whatever its period.',
 ['inputs','schedules'],'every current, last and next time and period of up to three queued triggers (time arithmetic itself: every finite time and period for not being due again)',
 'Tests drive one or two triggers with a real clock; starvation, double running or an endless pass depend on particular times and periods.',
 ['src/vt/timetrigger/time_trigger_manager.cc','src/vt/timetrigger/time_trigger_manager.h','src/vt/timetrigger/trigger.h'],
 [('pass over the queue','src/vt/timetrigger/time_trigger_manager.cc'),('due times and order','src/vt/timetrigger/trigger.h')],
 'Passes are bounded to three queued triggers (real standard heap); next trigger times are arbitrary ordered values there, tied to the real arithmetic by separate contracts. '+TB)
P('C23','A callback runs what it names, where it was made, as often as it may',
 'Sending a callback made from a function runs that function once per send, on the node that made it, with the sent message: there at once if sent there, otherwise by exactly one message to that node naming its pipe. A one-shot callback runs once, is forgotten and refused afterwards; others stay usable without limit, also one to a collection element. A callback naming a handler, an object or a group is passed on exactly once per send to that target, in the epoch of the sender. A signal reaches each listener of its own pipe once and no other; copies are equal to their original, different callbacks are not.',
 ['inputs','histories'],'every node, handler, proxy, pipe identifier, lifetime and message; listeners with any number of uses',
 'Tests send each callback once from few nodes; repeated sends, other nodes, used-up listeners and mixed kinds are not covered.',
 ['src/vt/pipe/pipe_manager_base.impl.h','src/vt/pipe/pipe_manager_base.cc','src/vt/pipe/pipe_manager_tl.impl.h','src/vt/pipe/signal/signal_holder.impl.h','src/vt/pipe/state/pipe_state.cc','src/vt/pipe/callback'],
 [('delivery to listeners','src/vt/pipe/signal/signal_holder.impl.h'),('pipe life cycle','src/vt/pipe/pipe_manager_base.impl.h'),('what each kind of callback does','src/vt/pipe/callback/cb_union/cb_raw_base.impl.h')],
 'Sending, running handlers, object groups and collections are recording stand-ins; signal delivery is bounded to three listeners on a pipe; one-shot callbacks have one signal and one listener (the only use in the code base). '+TB)
P('C22','Components start, run and stop in dependency order, exactly those needed',
 'Exactly the components added and everything they need, directly or through others, at startup or at run time, are built, once each; each is built and initialized after all its startup dependencies are up, started after all are up, and finalized and destroyed before them. A cycle of startup dependencies and a needed component that was never registered are refused. Polling reaches exactly the components that ask for it and adds up their work; a component taken out belongs to the caller and is neither visited nor torn down. A pack can be built again after it was torn down.',
 ['configurations','programs'],'every acyclic startup dependency graph of up to four components, with runtime dependencies among three',
 'Tests run the one dependency graph of the runtime; a wrong order or a missing component shows only for other graphs.',
 ['src/vt/runtime/component/component_pack.cc','src/vt/runtime/component/component_pack.impl.h','src/vt/runtime/component/component_dep.h','src/vt/runtime/component/component_registry.h'],
 [('closure and topological order','src/vt/runtime/component/component_pack.cc'),('registration and construction','src/vt/runtime/component/component_pack.impl.h')],
 'Graphs are bounded (every acyclic graph of three components with runtime dependencies, of four without) and counted as bounded; polling work and arguments are arbitrary values. '+TB,level='model_checking')
P('C17','A task runs once, in its own context, and leaves the context as it was',
 'A task runs the function its handler names exactly once, with its message and object. While it runs it is the current task, sees the node it came from, its epoch, and the index and collection of its element; afterwards, also for tasks run inside tasks, everything is as before. The epoch of a task is held from its creation until it ran; termination messages are not counted. A task handed to the scheduler becomes one unit, whose message is kept until it runs; its continuation runs once. Epochs nest to any depth, and popping a wrong one is refused.',
 ['programs','inputs'],'every node, epoch, message, kind and position of handler, with or without each part of the context',
 'Tests run tasks mostly one at a time; a context not restored, a unit released early or a wrong handler table shows only for nested tasks and particular combinations.',
 ['src/vt/runnable/runnable.cc','src/vt/runnable/runnable.h','src/vt/runnable/make_runnable.h','src/vt/context/runnable_context/set_context.cc','src/vt/context/runnable_context/td.cc','src/vt/context/runnable_context/collection.cc','src/vt/context/runnable_context/collection.impl.h','src/vt/context/runnable_context/lb_data.cc',"src/vt/termination/termination.impl.h","src/vt/termination/termination.h","src/vt/scheduler/base_unit.cc"],
 [('running and dispatching','src/vt/runnable/runnable.cc'),('parts of the context','src/vt/context/runnable_context'),('epoch stack','src/vt/termination/termination.impl.h')],
 'Termination units, dispatchers and message memory are recording stand-ins; tasks that run in threads of their own are not covered. '+TB)
P('C24','A message to a movable element runs once, where the element is, wherever it went',
 'A message to an element runs exactly once on the node holding it, in the epoch it was sent in. A node that holds the element runs it there; one that knows where it is passes it on; others pass it to the home, which keeps it, holding its epoch, until it hears of the element, and then releases it in order. A question where the element is gets one answer, at once if known. Registration and migration leave the records of that element, and of no other, right there and at its home; all who forwarded are told once where it was delivered. The cache keeps the most recently used entries and home entries are never evicted.',
 ['histories','schedules','inputs'],'any node, home, element, record state, message; any order of arrival of two messages, creation and one migration among three nodes',
 'Tests move elements on a few nodes under one timing; the records after other orders of messages, registration and update are not seen.',
 ['src/vt/topos/location/location.impl.h','src/vt/topos/location/location.h','src/vt/topos/location/lookup/lookup.impl.h','src/vt/topos/location/cache/cache.impl.h','src/vt/topos/location/directory/directory.impl.h','src/vt/topos/location/record/record.impl.h','src/vt/topos/location/message/msg.h'],
 [('routing','src/vt/topos/location/location.impl.h'),('cache','src/vt/topos/location/cache/cache.impl.h')],
 'The network, epochs, termination and running of a handler are recording stand-ins; eager updates are assumed delivered before a migration begins (they belong to the epoch of the message). '+TB)
P('C25','Load and communication are accounted once and modelled as documented',
 'Time an element runs and each communication it records are added exactly once to its current phase and current subphase and to nothing else, whatever subphases were recorded before; communication keys tell apart exactly the edges with other ends or another kind, and say truly whether they leave the node; phases older than asked for are dropped, others kept. A node keeps, phase by phase, what its registered elements recorded in that phase and finds and moves each as registered. Each load model answers as documented: persistence, selected subphases, blocks of phases, median, maximum norm, linear prediction, weighted communication, per-collection and proposed reassignment; what it does not change comes from the model below unchanged.',
 ['histories','inputs'],'every phase, subphase, load, volume, object and node; any question to a model over any model below (subphases, objects and past phases bounded)',
 'Tests query models on small fixed tables; wrong subphases, windows or off-node edges after other histories only bias the balancer and never fail a test.',
 ['src/vt/elm/elm_lb_data.cc','src/vt/elm/elm_lb_data.h','src/vt/elm/elm_comm.h','src/vt/vrt/collection/balance/node_lb_data.cc','src/vt/vrt/collection/balance/model/composed_model.cc','src/vt/vrt/collection/balance/model/raw_data.cc','src/vt/vrt/collection/balance/model/naive_persistence.cc','src/vt/vrt/collection/balance/model/select_subphases.cc','src/vt/vrt/collection/balance/model/multiple_phases.cc','src/vt/vrt/collection/balance/model/persistence_median_last_n.cc','src/vt/vrt/collection/balance/model/norm.cc','src/vt/vrt/collection/balance/model/comm_overhead.cc','src/vt/vrt/collection/balance/model/weighted_messages.cc','src/vt/vrt/collection/balance/model/weighted_communication_volume.cc','src/vt/vrt/collection/balance/model/linear_model.cc','src/vt/vrt/collection/balance/model/proposed_reassignment.cc','src/vt/vrt/collection/balance/model/per_collection.cc','src/vt/vrt/collection/balance/lb_common.cc'],
 [('element data','src/vt/elm/elm_lb_data.cc'),('load models','src/vt/vrt/collection/balance/model')],
 'Loads are compared bit for bit; the model below is any recording model; the linear model is used with two phases done or more, splitting communication over subphases with a load of the whole phase that is not zero. '+TB)
P('C26','The scheduler runs every unit once, in order, and announces idleness truly',
 'Every unit handed to the scheduler runs exactly once, oldest first, one per step; with none left it polls for progress, runs what that brought, and otherwise announces idleness. Beginning and end of idleness alternate, are announced to every trigger of that event, and the end comes before the unit runs; idle but for termination messages is kept track of the same way. Progress is made after as many units or as much time as configured. MPI is closed to units and open again after the outermost, also when units nest; granting it nests with its scope. A one-time trigger runs once.',
 ['histories','configurations'],'every kind of units (up to four queued), any idleness, depth, progress frequency; triggers of every event',
 'Tests run the scheduler to completion and see neither missing announcements nor units run twice or MPI left closed or open after nested units.',
 ['src/vt/scheduler/scheduler.cc','src/vt/scheduler/scheduler.impl.h','src/vt/scheduler/scheduler.h','src/vt/scheduler/base_unit.cc','src/vt/runtime/mpi_access.cc','src/vt/runtime/component/component_pack.cc'],
 [('step and loop','src/vt/scheduler/scheduler.cc'),('MPI access guard','src/vt/runtime/mpi_access.cc')],
 'Sequences of steps are bounded to four units; components polled are recording stand-ins, containers are modelled. '+TB)
P('C28','Load balancing moves every chosen object exactly once, to its decided node',
 'Every transfer a balancer asks for, wherever it is asked, becomes exactly one departure on the node that holds the object and one arrival, with its modelled loads, on the node it goes to; an object that cannot move is refused and a move to its own node kept only if configured. Rotate, greedy, random and test-serialization balancers move only objects that can move, each once, to a node of the machine, as documented; parameters given are the ones used and unknown ones refused. A distribution given for consecutive phases is followed: an element moves from where it is to the node that has it in the next phase, and nothing else moves.',
 ['inputs','histories'],'every object, node and load; balancers, histories and the number of transfers bounded as stated in the evidence',
 'Balancer tests need several nodes and check sums of loads; an object moved twice, lost, sent from the wrong node or placed off the machine shows only for particular distributions.',
 ['src/vt/vrt/collection/balance/baselb/baselb.cc','src/vt/vrt/collection/balance/lb_common.cc','src/vt/vrt/collection/balance/baselb/load_sampler.cc','src/vt/vrt/collection/balance/greedylb/greedylb.cc','src/vt/vrt/collection/balance/greedylb/greedylb_types.h','src/vt/vrt/collection/balance/greedylb/greedylb_msgs.h','src/vt/vrt/collection/balance/rotatelb/rotatelb.cc','src/vt/vrt/collection/balance/randomlb/randomlb.cc','src/vt/vrt/collection/balance/testserializationlb/testserializationlb.cc','src/vt/vrt/collection/balance/offlinelb/offlinelb.cc','src/vt/vrt/collection/balance/lb_data_restart_reader.cc','src/vt/vrt/collection/balance/read_lb.cc'],
 [('normalized reassignment','src/vt/vrt/collection/balance/baselb/baselb.cc'),('greedy placement','src/vt/vrt/collection/balance/greedylb/greedylb.cc'),('distribution given','src/vt/vrt/collection/balance/lb_data_restart_reader.cc')],
 'Messages between balancers, reductions, scatters and collective epochs are recording stand-ins delivered by the contracts; the random balancer is checked natively only (bounded). '+TB)
