//@include lib/base.rs
//@include lib/net.rs
//@strip crate::stage crate::worker crate::execution_plans::common crate::distributed_planner futures::stream
verus! {

// ------------------------------------------------------------------ specification
// T producer tasks with P output partitions each, read by C consumer tasks.
pub open spec fn maxg(t: int, c: int) -> int { if spec_div_ceil(t, c) < 1 { 1 } else { spec_div_ceil(t, c) } }
/// first producer task read by consumer i, number of producer tasks read by consumer i
pub open spec fn g_start(t: int, c: int, i: int) -> int { i * (t / c) + (if i < t % c { i } else { t % c }) }
pub open spec fn g_len(t: int, c: int, i: int) -> int { t / c + (if i < t % c { 1int } else { 0 }) }
/// what output partition q of consumer i must read
pub open spec fn reads(t: int, c: int, i: int, p: int, q: int) -> Option<(int, int)> {
    if q / p < g_len(t, c, i) { Some((g_start(t, c, i) + q / p, q % p)) } else { None }
}

/// consumer groups tile 0..t in order, without gap or overlap, and fit the advertised width
pub proof fn lemma_groups(t: int, c: int, i: int)
    requires t >= 0, c > 0, 0 <= i < c,
    ensures
        g_start(t, c, 0) == 0,
        g_start(t, c, i) + g_len(t, c, i) == g_start(t, c, i + 1),
        g_start(t, c, c) == t,
        0 <= g_len(t, c, i) <= maxg(t, c),
        g_start(t, c, i) >= 0,
{
    lemma_fundamental_div_mod(t, c);
    lemma_mod_bound(t, c);
    lemma_div_pos_is_pos(t, c);
    assert(i * (t / c) + (t / c) == (i + 1) * (t / c)) by (nonlinear_arith);
    assert(0 * (t / c) == 0);
    assert(c * (t / c) == (t / c) * c) by (nonlinear_arith);
    assert(i * (t / c) >= 0) by (nonlinear_arith) requires i >= 0, t / c >= 0;
}
pub proof fn lemma_monotone(t: int, c: int, i: int, j: int)
    requires t >= 0, c > 0, 0 <= i <= j <= c,
    ensures g_start(t, c, i) <= g_start(t, c, j), g_start(t, c, j) <= t, g_start(t, c, i) >= 0,
    decreases j - i,
{
    lemma_fundamental_div_mod(t, c);
    lemma_mod_bound(t, c);
    lemma_div_pos_is_pos(t, c);
    assert(i * (t / c) <= j * (t / c)) by (nonlinear_arith) requires i <= j, t / c >= 0;
    assert(j * (t / c) <= c * (t / c)) by (nonlinear_arith) requires j <= c, t / c >= 0;
    assert(i * (t / c) >= 0) by (nonlinear_arith) requires i >= 0, t / c >= 0;
}
/// at most once: two (consumer, output) pairs never read the same producer partition
pub proof fn theorem_injective(t: int, c: int, p: int, i: int, q: int, j: int, s: int)
    requires t >= 1, c >= 1, p >= 1, 0 <= i < c, 0 <= j < c,
        0 <= q < p * maxg(t, c), 0 <= s < p * maxg(t, c),
        reads(t, c, i, p, q) is Some, reads(t, c, i, p, q) == reads(t, c, j, p, s),
    ensures i == j, q == s,
{
    lemma_groups(t, c, i); lemma_groups(t, c, j);
    lemma_fundamental_div_mod(q, p); lemma_fundamental_div_mod(s, p);
    lemma_div_pos_is_pos(q, p); lemma_div_pos_is_pos(s, p);
    let a = g_start(t, c, i) + q / p;
    if i < j { lemma_monotone(t, c, i + 1, j); }
    if j < i { lemma_monotone(t, c, j + 1, i); }
}
/// at least once: every producer partition is read
pub proof fn theorem_surjective(t: int, c: int, p: int, task: int, part: int) -> (w: (int, int))
    requires t >= 1, c >= 1, p >= 1, 0 <= task < t, 0 <= part < p,
    ensures 0 <= w.0 < c, 0 <= w.1 < p * maxg(t, c), reads(t, c, w.0, p, w.1) == Some((task, part)),
{
    let i = find_group(t, c, task, 0);
    lemma_groups(t, c, i);
    let k = task - g_start(t, c, i);
    let q = k * p + part;
    lemma_fundamental_div_mod_converse(q, p, k, part);
    assert(q < p * maxg(t, c)) by (nonlinear_arith) requires q == k * p + part, part < p, 0 <= k, k + 1 <= maxg(t, c), p >= 1;
    assert(q >= 0) by (nonlinear_arith) requires q == k * p + part, part >= 0, 0 <= k, p >= 1;
    (i, q)
}
pub proof fn find_group(t: int, c: int, task: int, i: int) -> (r: int)
    requires t >= 1, c >= 1, 0 <= i < c, 0 <= task < t, g_start(t, c, i) <= task,
    ensures i <= r < c, g_start(t, c, r) <= task < g_start(t, c, r) + g_len(t, c, r),
    decreases c - i,
{
    lemma_groups(t, c, i);
    if task < g_start(t, c, i + 1) { i }
    else {
        if i + 1 == c { assert(g_start(t, c, c) == t); }
        find_group(t, c, task, i + 1)
    }
}
pub proof fn lemma_ceil(t: int, c: int)
    requires t >= 0, c > 0,
    ensures spec_div_ceil(t, c) >= 0, spec_div_ceil(t, c) <= t, t >= 1 ==> spec_div_ceil(t, c) >= 1, maxg(t, c) >= 1, maxg(t, c) <= t || maxg(t, c) == 1,
            g_len(t, c, 0) <= maxg(t, c), c >= t && t >= 1 ==> maxg(t, c) == 1, c == 1 && t >= 1 ==> maxg(t, c) == t,
{
    lemma_fundamental_div_mod(t, c);
    lemma_mod_bound(t, c);
    lemma_div_pos_is_pos(t, c);
    assert(t / c <= t) by (nonlinear_arith) requires t == c * (t / c) + t % c, c >= 1, t % c >= 0, t / c >= 0;
    if t / c == t && t % c != 0 {
        assert(c * t >= t) by (nonlinear_arith) requires c >= 1, t >= 0;
        assert(false);
    }
    if c >= t && t >= 1 {
        if c == t { lemma_div_by_self(t); lemma_mod_self_0(t); } else { lemma_small_mod(t as nat, c as nat); lemma_basic_div(t, c); }
    }
    if c == 1 { assert(t / 1 == t) by (nonlinear_arith); assert(t % 1 == 0) by (nonlinear_arith); }
    if t >= 1 && t / c == 0 { assert(c * 0 == 0); }
}

// ------------------------------------------------------------------ the code
impl Stage {
//@fn src/stage.rs Stage::task_count
//@ ret: r
//@ spec: ensures r == self.tc(),
//@end
}

//@fn src/execution_plans/common.rs scale_partitioning
//@ args: partitioning f
//@ spec: requires !(partitioning is Range) ==> f.requires((partitioning.pc(),)),
//@     ensures r is Err <==> partitioning is Range,
//@         r is Ok ==> r->Ok_0.same_kind(*partitioning) && f.ensures((partitioning.pc(),), r->Ok_0.pc()),
//@end
//@fn src/execution_plans/common.rs scale_partitioning_props
//@ args: props f
//@ spec: requires !(props.partitioning is Range) ==> f.requires((props.partitioning.pc(),)),
//@     ensures r is Err <==> props.partitioning is Range,
//@         r is Ok ==> r->Ok_0.partitioning.same_kind(props.partitioning) && f.ensures((props.partitioning.pc(),), r->Ok_0.partitioning.pc())
//@           && r->Ok_0.eq_properties == props.eq_properties && r->Ok_0.emission_type == props.emission_type && r->Ok_0.boundedness == props.boundedness,
//@end

pub struct NetworkCoalesceExec { pub properties: Arc<PlanProperties>, pub input_stage: Stage, pub worker_connections: WorkerConnectionPool }
impl Clone for NetworkCoalesceExec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.properties == self.properties, r.input_stage == self.input_stage, r.worker_connections.slots() == self.worker_connections.slots() { unimplemented!() }
}
//@struct src/execution_plans/network_coalesce.rs TaskGroup

//@fn src/execution_plans/network_coalesce.rs task_group opt
//@ args: input_task_count task_index task_count
//@ spec: requires task_count > 0 ==> task_index < task_count,
//@     ensures task_count > 0 ==> r.start_task == g_start(input_task_count as int, task_count as int, task_index as int)
//@        && r.len == g_len(input_task_count as int, task_count as int, task_index as int)
//@        && r.max_len == (if input_task_count as int % task_count as int == 0 { input_task_count as int / task_count as int } else { input_task_count as int / task_count as int + 1 }),
//@      task_count == 0 ==> r.start_task == 0 && r.len == 0 && r.max_len == 0,
//@ entry: if task_count > 0 { lemma_groups(input_task_count as int, task_count as int, task_index as int); lemma_ceil(input_task_count as int, task_count as int);
//@    lemma_monotone(input_task_count as int, task_count as int, task_index as int, task_count as int);
//@    assert(task_index as int * (input_task_count as int / task_count as int) >= 0) by (nonlinear_arith) requires task_index as int >= 0, (input_task_count as int / task_count as int) >= 0; 
//@    lemma_fundamental_div_mod(input_task_count as int, task_count as int); lemma_mod_bound(input_task_count as int, task_count as int);
//@    let t = input_task_count as int; let c = task_count as int;
//@    assert(t / c + t % c <= t) by (nonlinear_arith) requires t == c * (t / c) + t % c, c >= 1, t / c >= 0; }
//@end

impl NetworkCoalesceExec {
    #[verifier::external_body]
    pub fn schema(&self) -> SchemaRef { unimplemented!() }
    #[verifier::external_body]
    pub fn properties(&self) -> (r: &Arc<PlanProperties>) ensures *r == self.properties { unimplemented!() }

//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::try_from_stage
//@ args: input_stage input_properties consumer_tasks
//@ spec: requires consumer_tasks > 0, input_properties.partitioning.pc() * maxg(input_stage.tc() as int, consumer_tasks as int) <= usize::MAX,
//@     ensures r is Err <==> input_properties.partitioning is Range,
//@       r is Ok ==> r->Ok_0.input_stage == input_stage && r->Ok_0.worker_connections.slots() == input_stage.tc()
//@         && r->Ok_0.properties.partitioning.same_kind(input_properties.partitioning)
//@         && r->Ok_0.properties.partitioning.pc() == input_properties.partitioning.pc() * maxg(input_stage.tc() as int, consumer_tasks as int),
//@ entry: lemma_ceil(input_stage.tc() as int, consumer_tasks as int);
//@ closure 0: -> (r: usize) requires $body <= usize::MAX ensures r == $body
//@end

//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::try_new
//@ sig: pub fn $name(input: PlanRef, producer_tasks: usize, consumer_tasks: usize) -> (r: Result<Self>)
//@ spec: requires consumer_tasks > 0 ==> input.props().partitioning.pc() * maxg(producer_tasks as int, consumer_tasks as int) <= usize::MAX,
//@     ensures consumer_tasks == 0 ==> r is Err,
//@       consumer_tasks > 0 && !(input.props().partitioning is Range) ==> r is Ok,
//@       r is Ok ==> r->Ok_0.input_stage.tc() == producer_tasks && r->Ok_0.input_stage is Local && r->Ok_0.input_stage->Local_0.plan == input
//@         && r->Ok_0.properties.partitioning.pc() == input.props().partitioning.pc() * maxg(producer_tasks as int, consumer_tasks as int),
//@ subst: input.properties() => input.properties()
//@end

//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::with_input_stage@NetworkBoundary
//@ args: input_stage
//@ sig: pub fn $name(&self, input_stage: Stage) -> (r: Result<Arc<NetworkCoalesceExec>>)
//@ spec: requires self.input_stage.tc() >= 1, self.properties.partitioning.pc() * input_stage.tc() <= usize::MAX,
//@     ensures r is Err <==> self.properties.partitioning is Range,
//@       r is Ok ==> r->Ok_0.input_stage == input_stage && r->Ok_0.worker_connections.slots() == input_stage.tc()
//@         && r->Ok_0.properties.partitioning.same_kind(self.properties.partitioning)
//@         // handing over the same number of producer tasks (what every caller does) keeps the advertised width
//@         && (input_stage.tc() == self.input_stage.tc() ==> r->Ok_0.properties.partitioning.pc() == self.properties.partitioning.pc()),
//@ entry: lemma_div_by_multiple(self.properties.partitioning.pc() as int, self.input_stage.tc() as int);
//@ closure 0: -> (r: usize) requires $0 * input_stage.tc() <= usize::MAX, self_clone.input_stage.tc() >= 1 ensures r == $0 as int * input_stage.tc() as int / self_clone.input_stage.tc() as int
//@end

//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::producer_head@NetworkBoundary
//@ args: consumer_task_count
//@ spec: ensures r is Ok, r->Ok_0 is None,
//@end

//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::execute@ExecutionPlan
//@ args: partition context
//@ spec: requires
//@       self.input_stage is Remote ==> ({
//@         let t = self.input_stage.tc() as int; let c = context.dtc().task_count as int;
//@         &&& self.worker_connections.slots() == t
//@         &&& self.input_stage->Remote_0.workers@.len() <= usize::MAX
//@         &&& t >= 1
//@         // the advertised width is P * max group size (established by try_from_stage)
//@         &&& c >= 1 ==> self.properties.partitioning.pc() % maxg(t, c) as usize == 0
//@         &&& partition < self.properties.partitioning.pc()
//@       }),
//@     ensures
//@       self.input_stage is Local ==> ({ let l = self.input_stage->Local_0;
//@          &&& r is Ok ==> l.tasks <= 1 && r->Ok_0.local_src() == Some((l.plan, partition))
//@          &&& r is Err ==> l.tasks > 1 || plan_exec_err(l.plan, partition) }),
//@       self.input_stage is Remote ==> ({
//@         let t = self.input_stage.tc() as int; let c = context.dtc().task_count as int; let i = context.dtc().task_index as int;
//@         let p = self.properties.partitioning.pc() as int / maxg(t, c);
//@         &&& i >= c ==> r is Err
//@         &&& i < c && r is Ok ==> match reads(t, c, i, p, partition as int) {
//@               Some((task, part)) => r->Ok_0.src() == seq![Src { task, partition: part, lo: 0, hi: p, head: ProducerHead::None }],
//@               None => r->Ok_0.src() == Seq::<Src>::empty(),
//@             }
//@         &&& i < c && r is Err ==> reads(t, c, i, p, partition as int) is Some && exists|a: usize, b: usize| pool_err(self.worker_connections, a, b)
//@       }),
//@ entry: let t = self.input_stage.tc() as int; let c = context.dtc().task_count as int; let i = context.dtc().task_index as int;
//@    if self.input_stage is Remote && i < c {
//@      lemma_ceil(t, c); lemma_groups(t, c, i); lemma_monotone(t, c, i + 1, c);
//@      let pc = self.properties.partitioning.pc() as int;
//@      lemma_fundamental_div_mod(pc, maxg(t, c));
//@      lemma_div_pos_is_pos(pc, maxg(t, c));
//@      let p = pc / maxg(t, c);
//@      assert(p >= 1) by (nonlinear_arith) requires pc == maxg(t, c) * p, pc >= 1;
//@      lemma_mod_bound(partition as int, p); lemma_fundamental_div_mod(partition as int, p); lemma_div_pos_is_pos(partition as int, p);
//@      assert(partition as int / p < maxg(t, c)) by (nonlinear_arith) requires partition as int == p * (partition as int / p) + partition as int % p, partition as int % p >= 0, (partition as int) < maxg(t, c) * p, p >= 1;
//@    }
//@end
}

impl LocalStage {
//@fn src/stage.rs LocalStage::execute
//@ args: partition context
//@ spec: ensures r is Ok ==> self.tasks <= 1 && r->Ok_0.local_src() == Some((self.plan, partition)), r is Err ==> self.tasks > 1 || plan_exec_err(self.plan, partition),
//@end
}
} // verus!
fn main() {}
