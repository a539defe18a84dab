"""What each check is made of: Verus templates, the bounded search, what stays out of reach."""
EXTRACT = "vx extracts the text mechanically (DESIGN.md lists every rewrite); attributes, logging and error-message arguments are dropped"
USIZE = "usize is 64 bits; machine overflow is checked, not assumed away"
DERIVE = "derived Clone implementations copy every field"

PROPS = {
    "C01": dict(
        title="Coalescing boundaries read every producer partition exactly once",
        templates=["C01"],
        theorems=["theorem_injective", "theorem_surjective"],
        note="Proved for all task counts and partition counts: grouping of producer tasks, advertised width, and what each output partition reads. Assumes the connection pool's contract (C04), DataFusion's property types and the consumer task count handed down by the planner (C23).",
        assumptions=[EXTRACT, USIZE, DERIVE, "WorkerConnectionPool::execute delivers the partition it is asked for (its own contract is C04)",
                     "the planner passes the same consumer task count to try_new/try_from_stage and, through the task context, to execute"],
    ),
    "C02": dict(
        title="Shuffle and broadcast boundaries give each consumer task its own slice",
        templates=["C02"],
        theorems=["theorem_slices_disjoint", "theorem_slices_cover", "theorem_slices_in_range", "theorem_broadcast_width"],
        note="Proved for all task and partition counts: the slice each output reads, the requested range and head, and the head inserted on the producer side. Assumes the connection pool's contract (C04) and that DataFusion's RepartitionExec distributes rows by the partitioning it is given.",
        assumptions=[EXTRACT, USIZE, DERIVE, "WorkerConnectionPool::execute delivers the partition it is asked for (its own contract is C04)",
                     "RepartitionExec (DataFusion) and BroadcastExec::new (C03) build nodes of the given partitioning"],
    ),
    "C03": dict(
        title="Broadcast replays every batch, in order, to every consumer",
        templates=["C03"],
        theorems=["lemma_reads_replay"],
        note="Proved for all partition and consumer counts and all input sequences: what the feeding task appends and publishes, what a reader returns and when it ends, and which input partition a virtual partition replays. The queue is shared between tasks: each side is verified against the contract of the other (append-only entries, published lengths never exceed them), not over interleavings; wake-ups of tokio's watch channel are assumed.",
        assumptions=[EXTRACT, USIZE, DERIVE, "Mutex<Vec> is append-only for its readers, because push is the only writer (verified)",
                     "tokio::sync::watch hands a reader the last state sent and ends when the sender is gone; OnceLock runs one initialiser; SegQueue pops each element once"],
    ),
    "C04": dict(
        title="A remote task partition is delivered to its requester exactly once",
        templates=["C04"],
        theorems=[],
        note="Proved for all inputs: the request sent, the streams kept per producer task, which of them a consumer is given, and what a worker executes for a request. Cells shared between calls (OnceLock, shared futures) are verified through the contract of their initialiser.",
        assumptions=[EXTRACT, USIZE, DERIVE, "all readers of one producer task through one pool announce the same range and head (C01, C02: they are the output partitions of one boundary in one task)",
                     "Option::take under a mutex empties the slot; OnceLock runs one initialiser; a shared future resolves once",
                     "a worker channel returns the streams of the worker in order (in process: identity; gRPC: C05); moka's cache returns one cell per key"],
    ),
    "C18": dict(
        title="A value written once is seen by every reader and by no one else",
        templates=["C18", "C18W"],
        theorems=["theorem_first_write_wins"],
        note="Proved for all values and all histories of writes: new, write, read and read_now; and for all requests that set a plan: Worker::coordinator_channel writes the outcome, good or bad, into the cell of the request's task, once, and a task that is written is set up as the request says. The state behind the watch channel's lock is verified as an exclusive borrow for the one atomic step a write takes; that tokio delivers a stored state to a waiting reader and fires its timer is assumed.",
        assumptions=[EXTRACT, USIZE, DERIVE, "tokio::sync::watch: send_modify runs its argument once, atomically; wait_for returns a state the channel had and that satisfies the predicate; timers fire",
                     "the argument of send_modify is inlined at its call (called exactly once)"],
    ),
    "C07": dict(
        title="Stage task counts respect declared limits and agree on both sides",
        templates=["C07"],
        theorems=["theorem_merge", "theorem_smallest_maximum", "theorem_single_join"],
        standin=["DesiredTaskCountHandlers::handle, the concrete node types and the map from nodes to counts: assumed, exercised by the search"],
        note="Proved for all plans (finite trees), all counts and all answers of handlers: merge, limit, max_tasks, the bottom-up pass (_inject_network_boundaries), the hand-down of a stage's final count (propagate_task_count_until_network_boundaries) and the static boundary builder. The scale factor of a boundary (floating point) is any number. Assumes children_isolator_union's allocation (C06) and DataFusion's replace_children.",
        assumptions=[EXTRACT, USIZE, DERIVE, "replace_children replaces the children and nothing else", "the counts recorded for nodes are read back for the same nodes (a mutex-protected map keyed by address)",
                     "ChildrenIsolatorUnionExec gives each child between one task and the stage's, within its cap (C06)", "a recorded count is at most 2^32-1 and a node has at most 2^32-1 children"],
    ),
    "C19": dict(
        title="Planning arithmetic never fails and yields usable task counts",
        templates=["C19", "C17D"],
        theorems=["theorem_cost_monotone"],
        inject={"distributed_planner/statistics/complexity.rs": "c19_complexity.rs", "coordinator/prepare_dynamic_plan.rs": "c19_gather.rs"},
        replay=True,
        standin=["the extrapolation from samples and the formulas' choice per operator: searched, not proved"],
        note="Proved for all statistics and all cost formulas: evaluation without overflow and equal to capped exact arithmetic, monotone in every input; sums over a plan and over the leaves that feed a running stage; a dynamic stage is given between one task and the most that fit (C17D). The floating-point parts (extrapolation from samples, selectivity) are searched within the stated bound.",
        assumptions=[EXTRACT, USIZE, DERIVE, "DataFusion's statistics are any values", "plan_statistics returns one entry per child"],
    ),
    "C17": dict(
        title="Each task is sent to one worker, the one its readers will contact",
        templates=["C17", "C17D"],
        theorems=["theorem_even"],
        inject={"coordinator/mod.rs": "c17_coord.rs"},
        standin=["single_task_child_url_routing (closure writing a captured variable): searched"],
        note="Proved for all plans, counts and addresses: sending a plan (send_plan_task and its background block), routed_urls, the default routing, the dispatch of a stage by the static and by the dynamic planner including the dynamic task count, and the stage left for readers.",
        assumptions=[EXTRACT, USIZE, DERIVE, "spawned jobs run", "rand gives an index in the range asked for", "at most 2^32-1 tasks and workers in one routing decision", "calculate_cost (C19), the hand-down of counts (C07) and plan encoding (C12) as their properties state"],
    ),
    "C16": dict(
        title="Options and headers reach the workers exactly as the user set them",
        templates=["C16", "C18W"],
        theorems=["theorem_options", "lemma_header_injective"],
        inject={"coordinator/mod.rs": "c17_coord.rs"},
        replay=True,
        standin=["the merge of both kinds of headers in the coordinator: searched"],
        note="Proved for all extensions, names and values: the headers made from the options, the options taken from headers, the refusal of reserved names, and that both ends together carry every value. Extension prefixes without a dot, option names that differ in more than letter case (as header names require).",
        assumptions=[EXTRACT, USIZE, DERIVE, "header names are kept in lower case, character by character; the reserved prefix is in lower case", "an extension's set stores what its entries lists and touches no other option", "HeaderMap::insert replaces, ConfigExtensions are keyed by prefix", "the type parameter of set_distributed_option_extension_from_headers is an arbitrary opaque type"],
    ),
    "C06": dict(
        title="A distributed union executes each child in its planned task, exactly once",
        templates=["C06", "C06T"],
        inject={"coordinator/query_coordinator.rs": "task_coord.rs"},
        theorems=["theorem_at_least_once", "theorem_at_most_once", "theorem_one_source"],
        note="Proved for all children, weights, caps, budgets and partition counts: the allocation of tasks to children (caps kept, the budget not exceeded, each task of each child placed exactly once), the advertised width, which child partition each output partition of each task is and the task context it runs with, the counts reported, the children kept for one task, and replaced children; and that the coordinator cuts a union at any depth of a stage for the task it is run in. The floating-point shares enter only as: rounded down, they add up to no more than the budget.",
        assumptions=[EXTRACT, USIZE, DERIVE, "floating point: the rounded-down shares of a budget add up to at most the budget (not so for weights near the largest f64)",
                     "sort_by permutes; fewer than 2^30 children with fewer than 2^32 partitions each; UnionExec::try_new yields some properties; task_ctx_with_extension sets the extension it is given"],
    ),
    "C09": dict(
        title="Pushing a row limit below a network boundary never loses rows",
        templates=["C09"],
        theorems=["theorem_same_results", "theorem_no_row_lost"],
        note="Proved for all limits, offsets, inputs and plans: the row count a limiting node needs, what bounding the producer stage leaves of its rows (also below a projection), that the stage keeps its number and task count, and that the limiting node can only give results it could give before. The walk over the plan (TreeNode::transform_down) is assumed to apply the verified step to each node.",
        assumptions=[EXTRACT, USIZE, DERIVE, "DataFusion's with_fetch(n) keeps the first n rows of one partition, and of several at least n that come first in the declared order (ties aside); LocalLimitExec the first n of each; a projection computes each output row from one input row, in order, and maps the declared order",
                     "partitions are in the order their plan declares, and a merge's input is declared in an order that implies the merge's", "a boundary over a local stage produces the rows of its plan (C01)"],
        standin=["the walk over the plan; multi-child nodes and nested boundaries: searched"],
    ),
    "C11": dict(
        title="Splitting a leaf over tasks keeps every file exactly once",
        templates=["C11", "C06T"],
        inject={"coordinator/query_coordinator.rs": "task_coord.rs"},
        theorems=[],
        note="Proved for all scans, file layouts and task counts: splitting a file scan never fails, yields one variant per task, all as wide and with the same settings, which together scan the original files once; a declared partition stays whole and goes where the partition number says; an ordered group is not reordered; a leaf accepts exactly variants of one schema and width, and a task runs and is sent the variant at its own index, also where the leaf lies in unions that give it fewer tasks.",
        assumptions=[EXTRACT, USIZE, DERIVE,
            "DataFusion's FileGroupPartitioner moves byte ranges between groups without losing or repeating any, answers with at most max(groups, target) groups, and keeps ordered groups apart and in order when asked to",
            "a file scan has one partition per file group; its schema depends only on settings other than the file groups",
            "fewer than 2^48 groups times tasks"],
        standin=["the real FileGroupPartitioner and FileScanConfig, random layouts: searched"]),
    "C14": dict(
        title="Errors keep their kind and message across the wire",
        templates=["C14"],
        theorems=["theorem_every_alternative_decodes", "theorem_errors_survive_the_wire"],
        inject={"protocol/grpc/mod.rs": "c14_errors.rs"},
        note="Proved for all errors: each pair of conversions (I/O, arrow, parquet, object store, SQL parser, schema, table, column, DataFusion errors with any nesting), the status they travel in, and that each alternative of each message has a number of its own that is listed where it is decoded. Assumes that prost reads what it wrote under those numbers, within its nesting limit.",
        assumptions=[EXTRACT, USIZE, DERIVE, "prost encodes and decodes messages whose alternatives have distinct, listed numbers, nested at most 100 deep", "the text of an error is a function of the error; a boxed string displays as itself"],
    ),
    "C15": dict(
        title="Metrics survive the wire and are aggregated without loss",
        templates=["C15"],
        theorems=["theorem_every_kind_decodes", "theorem_metrics_survive_the_wire", "theorem_order_of_reports"],
        inject={"protocol/grpc/mod.rs": "c15_metrics.rs"},
        standin=["the percentile latency metrics (made by a macro): searched"],
        note="Proved for all metric sets: the conversions of every kind, label, partition and set in both directions, that each kind has a number of its own that is listed where it is decoded, and the aggregation of the added counters, gauges and latencies in any order. Assumes that prost reads what it wrote, and DataFusion's metric values.",
        assumptions=[EXTRACT, USIZE, DERIVE, "prost encodes and decodes messages whose alternatives have distinct, listed numbers", "DataFusion's Count, Gauge, Time, Timestamp, PruningMetrics and RatioMetrics hold what was added to them", "the merge strategy of a ratio, the metric type and category are not sent (a limitation, not proved)"],
    ),
    "C10": dict(
        title="Every work unit reaches the one partition of the one task it was made for",
        templates=["C10"],
        theorems=["theorem_messages_over_the_wire", "theorem_declarations_over_the_wire", "theorem_feed_sent_to_worker", "theorem_units_of_a_task"],
        inject={"distributed_planner/mod.rs": "c10_prepare.rs"},
        standin=["the walk over a stage's plan, the spawning of the senders, the announcement of the end of the units, the registry of feeds: searched"],
        note="Proved for all feeds, units, partitions, tasks, interleavings and messages: which partitions of a provider a task is sent, the messages made of its units, the messages over gRPC, the channels a worker makes for declared feeds, how the worker hands out what arrives (a broken stream ends every open feed with an error), and which channel a feed reads and what for each item.",
        assumptions=[EXTRACT, USIZE, DERIVE, "tokio channels keep order and lose nothing while the receiver lives", "select_all yields every stream in order, ready_chunks keeps order", "prost decodes what it encodes; identifiers as C13 states", "HashMap is keyed by (feed, partition); a feed's provider yields, for one partition and one number of tasks, one sequence of units"],
    ),
    "C20": dict(
        title="Plan walks see each node with the task it will run in",
        templates=["C20"],
        theorems=["theorem_down_with_dt_ctx", "theorem_down_with_task_count", "theorem_up"],
        replay=True,
        note="Proved for all plans, tasks and answers: the two reading walks visit exactly what the task executes (or feeds the output), in order, with the right context; the closures of the three rewriting walks keep the stack of contexts so that, under DataFusion's traversals, every node gets the context its parent hands down.",
        assumptions=[EXTRACT, USIZE, DERIVE, "DataFusion's transform_down and transform_down_up call their closures as documented (written out as spec functions)", "visit_children and apply_until_stop by their definitions; RefCell borrows do not overlap", "an isolated union's map names each child at most once per task (C06)"],
        standin=["DataFusion's traversal driving the closures: searched"],
    ),
    "C23": dict(
        title="Network boundaries are prepared consistently before execution",
        templates=["C23"],
        theorems=["numbers_are_unique"],
        replay=True,
        inject={"distributed_planner/mod.rs": "c10_prepare.rs", "coordinator/mod.rs": "c23_coord.rs", "coordinator/prepare_dynamic_plan.rs": "c23_rebuild.rs"},
        note="Proved for all boundaries and task counts: what the preparation makes of one node, the heads of the three kinds of boundaries and how they replace the old ones, what rebuilding makes of one node, and that numbers are unique over any sequence of visited nodes. Assumes partition counts times task counts fit a usize and that a broadcast plan has at least one partition.",
        assumptions=[EXTRACT, USIZE, DERIVE, "the walks give each node the number of tasks that read it (C20)", "the stored plan of a stage is what was executed under its number", "dyn NetworkBoundary dispatches to the node's own methods", "BroadcastExec::new and RepartitionExec::try_new keep their arguments"],
        standin=["the walk driving the two closures over whole plans: searched (C20 has it under contract)"],
    ),
    "C24": dict(
        title="Moving partial aggregation below a shuffle keeps the aggregate",
        templates=["C24"],
        theorems=[],
        replay=True,
        inject={"distributed_planner/mod.rs": "c24_reduce.rs"},
        note="Proved for all plans and settings: which nodes the pass changes, what it puts below them, and that nothing changes with the option off. That merging partial states once more leaves the final aggregate alone is DataFusion's business and is searched, not proved.",
        assumptions=[EXTRACT, DERIVE, "AggregateExec::try_new keeps its arguments; PhysicalGroupBy::as_final groups by the partial output's group columns, each row once", "transform_up hands every node, over its rewritten children, to the function", "merging partial aggregate states is associative (DataFusion's PartialReduce mode)"],
        standin=["results of random SQL aggregations with and without the reductions"],
    ),
    "C08": dict(
        title="Work that needs all rows in one place is never split over tasks",
        templates=["C08", "C07"],
        theorems=["theorem_single_join"],
        replay=True,
        note="Proved for all plans: which joins are given a broadcast and over what, which are rewritten and to what, and that the boundary pass notes a maximum of one task for every operator that needs its rows together, which bounds its whole stage (theorem_single_join). That the rewritten joins return the same rows is DataFusion's semantics and is searched (whole queries).",
        assumptions=[EXTRACT, DERIVE, "HashJoinExecBuilder, swap_inputs, RepartitionExec and CoalescePartitionsExec do what their names say", "transform_down hands every node to the function, then the children of its result", "replace_children replaces the children and nothing else", "what C07 assumes of the boundary pass"],
        standin=["rows of random join queries on a cluster and on one node"],
    ),
    "C25": dict(
        title="Row order is kept or restored across network boundaries",
        templates=["C25"],
        theorems=[],
        replay=True,
        note="Proved for all stages and properties: what each kind of boundary claims about order when made from a plan, from a stage, or given another stage; and, for all plans, where the pre-pass puts sorts and that it changes nothing else. That no operator of the plan relies on an order without one of these is DataFusion's enforcement and is searched (whole queries).",
        assumptions=[EXTRACT, DERIVE, "EquivalenceProperties::clear_orderings and clear_per_partition_constants remove what they name", "transform_up hands every node, over its rewritten children, to the function", "SortExec::new and with_preserve_partitioning keep their arguments; SortExec sorts"],
        standin=["rows of random ORDER BY queries on a cluster and on one node"],
    ),
    "C13": dict(
        title="Control messages survive the wire unchanged",
        templates=["C13"],
        theorems=["theorem_keys_over_the_wire", "theorem_plan_request_over_the_wire", "theorem_task_request_over_the_wire", "theorem_units_over_the_wire", "theorem_replies_over_the_wire"],
        replay=True,
        inject={"protocol/grpc/worker_client.rs": "c13_client.rs", "protocol/grpc/worker_service.rs": "c13_server.rs"},
        note="Proved for all messages and field values: what each encoder writes into every field, what each decoder reads from it, that decoding an encoded message gives the message back, and that a missing or malformed part is an error. The task request that the client sends is proved under C05. What prost, tonic and the headers do on a real connection is searched.",
        assumptions=[EXTRACT, USIZE, DERIVE, "prost decodes what it encoded", "a uuid is its 16 bytes", "the text of a URL reads back as that URL", "metric sets by C15, plan and partitioning bytes by C12"],
        standin=["headers, prost and tonic on a real connection: searched"],
    ),
    "C21": dict(
        title="Sampling leaves the sampled data unchanged",
        templates=["C21"],
        theorems=["theorem_sampling_changes_nothing", "theorem_figures"],
        replay=True,
        inject={"execution_plans/sampler.rs": "c21_sampler.rs"},
        note="Proved for all inputs, error positions and sizes of the first ready chunk: the stream kept for a partition yields the items of that partition of the input, all of them, in order; the buffer gives back what was put into it; at the report rows and bytes are those of the buffered batches, each counted once, and 'finished' is said only when nothing is left; each partition has its own sampler and is read from it. Shares of nulls and distinct values, the release of memory, and that a partition is read and run once are searched.",
        assumptions=[EXTRACT, USIZE, "the items of a ready_chunks chunk are those the stream yields next, at least one; a fused stream that is terminated has nothing left; chain, iter, boxed and try_flatten_stream yield what their names say", "iter().take_while(is_ok).count() is the number of leading Ok items", "batches of a stream have as many columns as its schema, and their rows and bytes can be counted in 64 bits", "the flag that suppresses reports is never reset"],
        standin=["per_col_ndv, per_col_null_pct, memory reservation, kick_off_first_sampler's walk"],
    ),
    "C05": dict(
        title="Partition streams multiplexed over one connection are never mixed up",
        templates=["C05", "C05S"],
        theorems=["theorem_never_mixed"],
        inject={"protocol/grpc/worker_client.rs": "c05_client.rs"},
        standin=["the Arrow IPC encoding and decoding of batches, the garbage collection of dictionaries and views before it, the release of the buffer budget, the streams' polling: searched over a real connection"],
        note="Proved for all ranges, messages, partition numbers, interleavings and cancellations: the tags the worker writes, the forwarding of each stream into the merged one, the client's request, its demultiplexing loop (unreadable or out-of-range tags and errors reach every partition, a reader that left takes nothing from the others) and which channel each returned stream reads; composed by theorem_never_mixed.",
        assumptions=[EXTRACT, USIZE, DERIVE, "tokio channels keep order and lose nothing while the receiver lives; select! takes one of its branches", "select_all yields every stream's items in that stream's order", "prost decodes what it encodes; tonic delivers the messages of a call in order", "Arrow IPC decodes what it encodes", "a spawned task runs while its handle is held; the cancellation token fires only when cancelled"],
    ),
    "C22": dict(
        title="Collected metrics are attached to the operators that produced them",
        templates=["C22", "C22R"],
        theorems=["theorem_same_place", "theorem_own_reports", "theorem_one_place"],
        replay=True,
        inject={"metrics/mod.rs": "c22_metrics.rs", "coordinator/distributed.rs": "c22_exec.rs", "coordinator/mod.rs": "c22_coord.rs", "worker/impl_coordinator_channel.rs": "c22_send.rs", "worker/mod.rs": "c22_worker.rs"},
        note="Proved for all plans, tasks and lists: both sides collect and attach in one order (the walks of the crate are verified with their visitors, DataFusion's are written out in the template and verified over the extracted visitors), so that every node wears what the tasks that run it reported for it, and short or missing lists fail. Waiting expects every task of every boundary. A worker sends its metrics once when the messages to it end, however they end, and the coordinator keeps each report under the key of the task it came from.",
        assumptions=[EXTRACT, USIZE, DERIVE, "DataFusion's apply and transform_down call their closures as documented and rebuild a node over its new children", "HashMap and the watch channel inside the metrics store by their names", "no node object stands at two places of a plan, so addresses identify nodes", "worker and coordinator hold plans of the same shape (C12, C23)"],
        standin=["whole plans through rewrite_distributed_plan_with_metrics: searched (the walk over nested boundaries is not under contract)"],
    ),
    "C12": dict(
        title="Plans survive encoding and decoding unchanged",
        templates=["C12"],
        theorems=["theorem_round_trip", "theorem_partitioning_round_trip", "theorem_every_node_has_a_number"],
        replay=True,
        inject={"codec/distributed_codec.rs": "c12_codec.rs", "codec/mod.rs": "c12_mod.rs"},
        note="Proved for all plans: whatever the codec writes for a node, of any kind and with any values, reads back as a node equal in every part (operator, stage, identifier, tasks, addresses, partitioning, schema, weights, assignment of children); any other bytes are answered with an error or with a node that can be walked; the codecs of the users are consulted in the order of their registration. Each kind of node has a number of its own, and no number stands for nothing.",
        assumptions=[EXTRACT, USIZE, DERIVE, "prost reads back what it wrote, and answers other bytes with an error", "DataFusion's messages for schemas and partitionings, and the text of a Url, read back as what was written; reading damaged ones gives errors", "DataFusion's composed codec stores which codec wrote a node and asks that one to read it", "a number of partitions that fits in memory is allocated (BroadcastExec and SamplerExec keep one slot for each)"],
        standin=["DataFusion's encoding of its own nodes and its composition of codecs: searched over whole plans", "damaged bytes: searched with the real prost and DataFusion readers"],
    ),
    "C26": dict(
        title="A task lives on its worker exactly as long as its query",
        templates=["C26"],
        replay=True,
        inject={"distributed_planner/mod.rs": "c10_prepare.rs"},
        note="Proved for all messages, plans and outcomes: a worker forgets a task once, not before its messages are over and whatever they were, after its metrics were taken; the messages to every task go on until the query ends; a query is guarded before anything is sent, reads its rows while it goes on, and is ended before the coordinator waits for its jobs; the feeds that are sent stop with the query. That dropped futures drop their guards, and that tokio wakes who waits for the end, is assumed and searched on real workers.",
        assumptions=[EXTRACT, USIZE, DERIVE, "Rust drops a guard on every path that leaves its scope, and a cancelled future drops what it holds", "notify_waiters completes every Notified that was made before", "a stream made of two yields the second when the first is over", "take_until ends a stream when its future completes", "moka forgets what is invalidated"],
        standin=["cancellation of a whole query, failing connections: searched on real workers"],
    ),
}


NOT_APPLICABLE = {}
NOT_APPLICABLE.update(
    C30="end-to-end equivalence is a statement about DataFusion's operators and optimizer, which are dependencies outside the verifier's reach; its parts inside this repository are the other properties",
    C31="liveness over asynchronous tasks, drop guards and timers: contracts on sequential functions cannot express it, and the verifier supports neither tokio nor Drop-based cancellation",
    C32="liveness over schedules (tokio Notify, atomics, spawned tasks): not expressible as pre/postconditions of functions the verifier accepts",
)
