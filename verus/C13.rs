//@include lib/base.rs
//@strip ::prost::alloc::vec ::prost::alloc::string ::core::option
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is Box<dyn WorkUnit> => Unit
//@type_is &'static str => Str
//@type_is String => Text
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ dependencies
/// an identifier: sixteen bytes (uuid)
#[verifier::external_body] pub struct Uuid { _x: u128 }
pub uninterp spec fn uuid_bytes(u: Uuid) -> Seq<u8>;
#[verifier::external_body] pub struct Sixteen { _x: u128 }
impl Sixteen { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
impl Uuid {
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &Sixteen) ensures r@ == uuid_bytes(*self), r@.len() == 16 { unimplemented!() }
    /// rejects any other length
    #[verifier::external_body] pub fn from_slice(b: &Vec<u8>) -> (r: Result<Uuid, UuidError>) ensures r is Ok <==> b@.len() == 16, r is Ok ==> uuid_bytes(r->Ok_0) == b@ { unimplemented!() }
}
pub broadcast axiom fn uuids_differ(a: Uuid, b: Uuid) ensures #[trigger] uuid_bytes(a) == #[trigger] uuid_bytes(b) ==> a == b;
pub broadcast axiom fn uuids_have_sixteen_bytes(a: Uuid) ensures (#[trigger] uuid_bytes(a)).len() == 16;
#[verifier::external_body] pub struct UuidError { _x: u8 }
#[verifier::external_body] pub fn proto_error(e: UuidError) -> (r: DataFusionError) { unimplemented!() }
pub struct Str {}
/// text on the wire
#[verifier::external_body] pub struct Text { _x: u8 }
/// an address, and its text (url): the text of an address reads as that address
#[verifier::external_body] pub struct Url { _x: u8 }
pub uninterp spec fn url_text(u: Url) -> Text;
#[verifier::external_body] pub struct UrlError { _x: u8 }
impl Url {
    #[verifier::external_body] pub fn to_string(&self) -> (r: Text) ensures r == url_text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parse(t: &Text) -> (r: Result<Url, UrlError>) ensures forall|u: Url| *t == #[trigger] url_text(u) ==> r == core::result::Result::<Url, UrlError>::Ok(u), r is Ok ==> reads_as(*t, r->Ok_0) { unimplemented!() }
}
pub uninterp spec fn reads_as(t: Text, u: Url) -> bool;
/// plans, partitionings and work units, and the bytes they are written as (C12)
#[verifier::external_body] pub struct PlanRef { _x: u8 }
#[verifier::external_body] pub struct Partitioning { _x: u8 }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub struct Unit { _x: u8 }
impl Unit {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn encode_to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
}
pub uninterp spec fn plan_bytes(p: PlanRef, b: Seq<u8>) -> bool;
pub uninterp spec fn partitioning_bytes(p: Partitioning, b: Seq<u8>) -> bool;
#[verifier::external_body] pub fn encode_execution_plan(p: PlanRef, ctx: &Arc<TaskContext>) -> (r: Result<Vec<u8>>) ensures r is Ok ==> plan_bytes(p, r->Ok_0@) { unimplemented!() }
#[verifier::external_body] pub fn encode_partitioning(p: &Partitioning, ctx: &Arc<TaskContext>) -> (r: Result<Vec<u8>>) ensures r is Ok ==> partitioning_bytes(*p, r->Ok_0@) { unimplemented!() }
#[verifier::external_body] pub struct Status { _x: u8 }
#[verifier::external_body] pub fn datafusion_error_to_tonic_status(e: DataFusionError) -> (r: Status) { unimplemented!() }
#[verifier::external_body] pub fn bad_status() -> (r: Status) { unimplemented!() }
#[verifier::external_body] pub fn bad_request() -> (r: DataFusionError) { unimplemented!() }
/// the metrics of one node, and their wire form (C15 proves that the second carries the first)
#[verifier::external_body] pub struct MetricsSet { _x: u8 }
pub uninterp spec fn carries(w: pb::MetricsSet, m: MetricsSet) -> bool;
pub uninterp spec fn same_metrics(a: MetricsSet, b: MetricsSet) -> bool;
#[verifier::external_body] pub fn df_metrics_set_to_proto(m: &MetricsSet) -> (r: Result<pb::MetricsSet>) ensures r is Ok ==> carries(r->Ok_0, *m) { unimplemented!() }
#[verifier::external_body] pub fn metrics_set_proto_to_df(w: &pb::MetricsSet) -> (r: Result<MetricsSet>) ensures set_read(*w, r) { unimplemented!() }
pub open spec fn readable(w: pb::MetricsSet) -> bool { exists|m: MetricsSet| #[trigger] carries(w, m) }
pub open spec fn set_read(w: pb::MetricsSet, r: Result<MetricsSet>) -> bool { (readable(w) ==> r is Ok) && (r is Ok ==> set_same(w, r->Ok_0)) }
pub open spec fn set_same(w: pb::MetricsSet, a: MetricsSet) -> bool { forall|m: MetricsSet| #[trigger] carries(w, m) ==> same_metrics(m, a) }
pub mod pb { use super::*; verus! {
#[verifier::external_body] pub struct MetricsSet { _x: u8 }
//@struct src/protocol/grpc/generated/worker.rs TaskKey
//@struct src/protocol/grpc/generated/worker.rs WorkUnit
//@struct src/protocol/grpc/generated/worker.rs WorkUnitBatch
//@struct src/protocol/grpc/generated/worker.rs SetPlanRequest
//@struct src/protocol/grpc/generated/worker.rs CoordinatorToWorkerMsg
//@struct src/protocol/grpc/generated/worker.rs WorkerToCoordinatorMsg
//@struct src/protocol/grpc/generated/worker.rs TaskMetrics
//@struct src/protocol/grpc/generated/worker.rs LoadInfo
//@struct src/protocol/grpc/generated/worker.rs ExecuteTaskRequest
//@struct src/protocol/grpc/generated/worker.rs NoneHead
//@struct src/protocol/grpc/generated/worker.rs BroadcastExecHead
//@struct src/protocol/grpc/generated/worker.rs RepartitionExecHead
pub mod coordinator_to_worker_msg { use super::super::*; use super::*; verus! {
//@enum src/protocol/grpc/generated/worker.rs coordinator_to_worker_msg::Inner
} }
pub mod worker_to_coordinator_msg { use super::super::*; use super::*; verus! {
//@enum src/protocol/grpc/generated/worker.rs worker_to_coordinator_msg::Inner
} }
pub mod set_plan_request { use super::super::*; verus! {
//@struct src/protocol/grpc/generated/worker.rs set_plan_request::WorkUnitFeedDeclaration
} }
pub mod execute_task_request { use super::super::*; use super::*; verus! {
//@enum src/protocol/grpc/generated/worker.rs execute_task_request::ProducerHead
} }
} }
//@enum src/common/maybe_encoded.rs MaybeEncoded
//@struct src/protocol/worker_channel.rs TaskKey
//@struct src/protocol/worker_channel.rs WorkUnitMsg
//@struct src/protocol/worker_channel.rs WorkUnitBatch
//@enum src/protocol/worker_channel.rs CoordinatorToWorkerMsg
//@struct src/protocol/worker_channel.rs WorkUnitFeedDeclaration
//@struct src/protocol/worker_channel.rs SetPlanRequest
//@enum src/protocol/worker_channel.rs WorkerToCoordinatorMsg
//@struct src/protocol/worker_channel.rs TaskMetrics
//@struct src/protocol/worker_channel.rs LoadInfo
//@struct src/protocol/worker_channel.rs ExecuteTaskRequest
//@enum src/distributed_planner/network_boundary.rs ProducerHead

// ------------------------------------------------------------------ what the wire form of a message is
pub open spec fn uuid_ok(b: Seq<u8>) -> bool { b.len() == 16 }
pub open spec fn key_wire(w: pb::TaskKey, k: TaskKey) -> bool { w.query_id@ == uuid_bytes(k.query_id) && w.stage_id == k.stage_id && w.task_number == k.task_number }
pub open spec fn decl_wire(w: pb::set_plan_request::WorkUnitFeedDeclaration, d: WorkUnitFeedDeclaration) -> bool { w.id@ == uuid_bytes(d.id) && w.partitions == d.partitions }
pub open spec fn plan_wire(b: Seq<u8>, p: MaybeEncoded<PlanRef>) -> bool { match p { MaybeEncoded::Encoded(e) => e@ == b, MaybeEncoded::Decoded(d) => plan_bytes(d, b) } }
pub open spec fn part_wire(b: Seq<u8>, p: MaybeEncoded<Partitioning>) -> bool { match p { MaybeEncoded::Encoded(e) => e@ == b, MaybeEncoded::Decoded(d) => partitioning_bytes(d, b) } }
pub open spec fn body_wire(b: Seq<u8>, p: MaybeEncoded<Unit>) -> bool { match p { MaybeEncoded::Encoded(e) => e@ == b, MaybeEncoded::Decoded(d) => d.bytes() == b } }
pub open spec fn head_wire(w: pb::execute_task_request::ProducerHead, h: ProducerHead) -> bool { match h {
    ProducerHead::None => w is None,
    ProducerHead::BroadcastExec { output_partitions } => w is Broadcast && w->Broadcast_0.output_partitions == output_partitions,
    ProducerHead::RepartitionExec { partitioning } => w is Repartition && part_wire(w->Repartition_0.partitioning@, partitioning),
} }
pub open spec fn unit_wire(w: pb::WorkUnit, u: WorkUnitMsg) -> bool {
    uuid_ok(w.id@) && w.id@ == uuid_bytes(u.id) && w.partition == u.partition && body_wire(w.body@, u.body) && w.created_timestamp_unix_nanos == u.created_timestamp_unix_nanos
    && w.sent_timestamp_unix_nanos == u.sent_timestamp_unix_nanos && w.received_timestamp_unix_nanos == u.received_timestamp_unix_nanos && w.processed_timestamp_unix_nanos == u.processed_timestamp_unix_nanos
}
pub open spec fn decls_wire(w: Seq<pb::set_plan_request::WorkUnitFeedDeclaration>, d: Seq<WorkUnitFeedDeclaration>) -> bool {
    w.len() == d.len() && forall|i: int| #![trigger w[i]] #![trigger d[i]] 0 <= i < d.len() ==> decl_wire(w[i], d[i])
}
pub open spec fn units_wire(w: Seq<pb::WorkUnit>, u: Seq<WorkUnitMsg>) -> bool {
    w.len() == u.len() && forall|i: int| #![trigger w[i]] #![trigger u[i]] 0 <= i < u.len() ==> unit_wire(w[i], u[i])
}
pub open spec fn plan_request_wire(w: pb::SetPlanRequest, q: SetPlanRequest) -> bool {
    w.task_key is Some && key_wire(w.task_key->0, q.task_key) && w.task_count == q.task_count && plan_wire(w.plan_proto@, q.plan) && decls_wire(w.work_unit_feed_declarations@, q.work_unit_feed_declarations@)
    && w.target_worker_url == url_text(q.target_worker_url) && w.query_start_time_ns == q.query_start_time_ns
}
pub open spec fn task_request_wire(w: pb::ExecuteTaskRequest, q: ExecuteTaskRequest) -> bool {
    w.task_key is Some && key_wire(w.task_key->0, q.task_key) && w.target_partition_start == q.target_partition_start && w.target_partition_end == q.target_partition_end
    && w.producer_head is Some && head_wire(w.producer_head->0, q.producer_head)
}
pub open spec fn load_wire(w: pb::LoadInfo, l: LoadInfo) -> bool {
    w.partition == l.partition && w.rows_ready == l.rows_ready && w.rows_pulled_from_leaf == l.rows_pulled_from_leaf && w.reached_eos == l.reached_eos
    && w.per_column_bytes_ready@.len() == l.per_column_bytes_ready@.len() && (forall|i: int| #![trigger w.per_column_bytes_ready@[i]] #![trigger l.per_column_bytes_ready@[i]] 0 <= i < l.per_column_bytes_ready@.len() ==> w.per_column_bytes_ready@[i] == l.per_column_bytes_ready@[i])
    && w.per_column_ndv_percentage == l.per_column_ndv_percentage && w.per_column_null_percentage == l.per_column_null_percentage
}
pub open spec fn metrics_wire(w: pb::TaskMetrics, m: TaskMetrics) -> bool {
    w.pre_order_plan_metrics@.len() == m.pre_order_plan_metrics@.len() && (forall|i: int| #![trigger w.pre_order_plan_metrics@[i]] #![trigger m.pre_order_plan_metrics@[i]] 0 <= i < m.pre_order_plan_metrics@.len() ==> carries(w.pre_order_plan_metrics@[i], m.pre_order_plan_metrics@[i]))
    && w.task_metrics is Some && carries(w.task_metrics->0, m.task_metrics)
}
/// the same report, up to what C15 says of metrics
pub open spec fn same_report(a: TaskMetrics, b: TaskMetrics) -> bool {
    a.pre_order_plan_metrics@.len() == b.pre_order_plan_metrics@.len() && (forall|i: int| #![trigger a.pre_order_plan_metrics@[i]] #![trigger b.pre_order_plan_metrics@[i]] 0 <= i < a.pre_order_plan_metrics@.len() ==> same_metrics(a.pre_order_plan_metrics@[i], b.pre_order_plan_metrics@[i]))
    && same_metrics(a.task_metrics, b.task_metrics)
}

pub open spec fn report_read(w: pb::TaskMetrics, a: TaskMetrics) -> bool {
    w.pre_order_plan_metrics@.len() == a.pre_order_plan_metrics@.len() && (forall|i: int| #![trigger w.pre_order_plan_metrics@[i]] #![trigger a.pre_order_plan_metrics@[i]] 0 <= i < a.pre_order_plan_metrics@.len() ==> set_same(w.pre_order_plan_metrics@[i], a.pre_order_plan_metrics@[i]))
    && w.task_metrics is Some && set_same(w.task_metrics->0, a.task_metrics)
}
pub open spec fn report_whole(w: pb::TaskMetrics) -> bool { w.task_metrics is Some && readable(w.task_metrics->0) && forall|i: int| 0 <= i < w.pre_order_plan_metrics@.len() ==> readable(#[trigger] w.pre_order_plan_metrics@[i]) }
// ------------------------------------------------------------------ keys
//@fn src/common/uuid.rs serialize_uuid
//@ spec: ensures r@ == uuid_bytes(*id), uuid_ok(r@),
//@end
//@fn src/common/uuid.rs deserialize_uuid
//@ sig: pub fn $name(id: &Vec<u8>) -> (r: Result<Uuid>)
//@ subst: proto_error($..) => proto_error(err)
//@ closure 0: |err: UuidError| -> (o: DataFusionError)
//@ spec: ensures r is Ok <==> uuid_ok(id@), r is Ok ==> uuid_bytes(r->Ok_0) == id@,
//@end
//@fn src/protocol/grpc/worker_client.rs encode_task_key
//@ spec: ensures key_wire(r, task_key),
//@end
//@fn src/protocol/grpc/worker_service.rs decode_task_key
//@ subst: .map_err(datafusion_error_to_tonic_status) => .map_err(|e: DataFusionError| datafusion_error_to_tonic_status(e))
//@ spec: ensures r is Ok <==> uuid_ok(task_key.query_id@), r is Ok ==> key_wire(task_key, r->Ok_0),
//@end
//@fn src/protocol/grpc/worker_client.rs encode_work_unit_feed_declaration
//@ spec: ensures decl_wire(r, declaration),
//@end
//@fn src/protocol/grpc/worker_service.rs decode_work_unit_feed_declaration
//@ subst: .map_err(datafusion_error_to_tonic_status) => .map_err(|e: DataFusionError| datafusion_error_to_tonic_status(e))
//@ spec: ensures r is Ok <==> uuid_ok(declaration.id@), r is Ok ==> decl_wire(declaration, r->Ok_0),
//@end
// ------------------------------------------------------------------ plans and heads
impl MaybeEncoded<PlanRef> {
//@fn src/common/maybe_encoded.rs MaybeEncoded<Arc<dynExecutionPlan>>::encode
//@ spec: ensures r is Ok ==> plan_wire(r->Ok_0@, self),
//@end
}
impl MaybeEncoded<Partitioning> {
//@fn src/common/maybe_encoded.rs MaybeEncoded<Partitioning>::encode
//@ spec: ensures r is Ok ==> part_wire(r->Ok_0@, self),
//@end
}
//@fn src/protocol/grpc/worker_client.rs encode_producer_head
//@ spec: ensures r is Ok ==> head_wire(r->Ok_0, head),
//@end
/// what the worker gets of a head: the same, partitionings as bytes
pub open spec fn head_read(w: pb::execute_task_request::ProducerHead, h: ProducerHead) -> bool { head_wire(w, h) && (h is RepartitionExec ==> h->partitioning is Encoded) }
//@fn src/protocol/grpc/worker_service.rs decode_producer_head
//@ spec: ensures head_read(proto, r),
//@end
//@fn src/protocol/grpc/worker_client.rs encode_set_plan_request
//@ subst: encode_work_unit_feed_declaration) => |d: WorkUnitFeedDeclaration| -> (o: pb::set_plan_request::WorkUnitFeedDeclaration) ensures decl_wire(o, d) { encode_work_unit_feed_declaration(d) })
//@ spec: ensures r is Ok ==> plan_request_wire(r->Ok_0, request),
//@end
//@fn src/protocol/grpc/worker_service.rs parse_url
//@ sig: pub fn $name(value: &Text, field: Str) -> (r: Result<Url, Status>)
//@ closure 0: |err: UrlError| -> (o: Status)
//@ subst: Status::invalid_argument($..) => bad_status()
//@ spec: ensures forall|u: Url| *value == #[trigger] url_text(u) ==> r == core::result::Result::<Url, Status>::Ok(u), r is Ok ==> reads_as(*value, r->Ok_0),
//@end
/// what a worker makes of a wire form it accepts
pub open spec fn plan_request_read(w: pb::SetPlanRequest, q: SetPlanRequest) -> bool {
    w.task_key is Some && key_wire(w.task_key->0, q.task_key) && w.task_count == q.task_count && plan_wire(w.plan_proto@, q.plan) && q.plan is Encoded && decls_wire(w.work_unit_feed_declarations@, q.work_unit_feed_declarations@)
    && (forall|u: Url| w.target_worker_url == #[trigger] url_text(u) ==> q.target_worker_url == u) && reads_as(w.target_worker_url, q.target_worker_url) && w.query_start_time_ns == q.query_start_time_ns
}
pub open spec fn plan_request_whole(w: pb::SetPlanRequest) -> bool {
    w.task_key is Some && uuid_ok(w.task_key->0.query_id@) && (forall|i: int| 0 <= i < w.work_unit_feed_declarations@.len() ==> uuid_ok(#[trigger] w.work_unit_feed_declarations@[i].id@)) && exists|u: Url| w.target_worker_url == #[trigger] url_text(u)
}
//@fn src/protocol/grpc/worker_service.rs decode_set_plan_request
//@ subst: .ok_or_else(missing($..)) => .ok_or_else(|| -> (o: Status) { bad_status() })
//@ subst: decode_work_unit_feed_declaration) => |d: pb::set_plan_request::WorkUnitFeedDeclaration| -> (o: Result<WorkUnitFeedDeclaration, Status>) ensures o is Ok <==> uuid_ok(d.id@), o is Ok ==> decl_wire(d, o->Ok_0) { decode_work_unit_feed_declaration(d) })
//@ subst: "target_worker_url" => Str {}
//@ spec: ensures r is Ok ==> plan_request_read(request, r->Ok_0), plan_request_whole(request) ==> r is Ok,
//@end
//@fn src/protocol/grpc/worker_service.rs decode_execute_task_request noasync
//@ subst: .ok_or_else(missing($..)) => .ok_or_else(|| -> (o: Status) { bad_status() })
//@ spec: ensures r is Ok <==> request.task_key is Some && uuid_ok(request.task_key->0.query_id@) && request.producer_head is Some,
//@    r is Ok ==> task_request_wire(request, r->Ok_0) && head_read(request.producer_head->0, r->Ok_0.producer_head),
//@end
// ------------------------------------------------------------------ work units
//@fn src/protocol/grpc/worker_client.rs encode_work_unit
//@ spec: ensures unit_wire(r, work_unit),
//@end
//@fn src/protocol/grpc/worker_client.rs encode_work_unit_batch
//@ spec: ensures units_wire(r.batch@, batch.batch@),
//@ subst: encode_work_unit) => |w: WorkUnitMsg| -> (o: pb::WorkUnit) ensures unit_wire(o, w) { encode_work_unit(w) })
//@end
//@fn src/protocol/grpc/worker_service.rs decode_work_unit
//@ spec: ensures r is Ok <==> uuid_ok(work_unit.id@), r is Ok ==> unit_wire(work_unit, r->Ok_0) && r->Ok_0.body is Encoded,
//@ subst: .map_err(datafusion_error_to_tonic_status) => .map_err(|e: DataFusionError| datafusion_error_to_tonic_status(e))
//@end
pub open spec fn units_read(w: Seq<pb::WorkUnit>, u: Seq<WorkUnitMsg>) -> bool { units_wire(w, u) && forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]).body is Encoded }
//@fn src/protocol/grpc/worker_service.rs decode_work_unit_batch
//@ spec: ensures r is Ok ==> units_read(batch.batch@, r->Ok_0.batch@),
//@    r is Err ==> exists|i: int| 0 <= i < batch.batch@.len() && !uuid_ok((#[trigger] batch.batch@[i]).id@),
//@ subst: decode_work_unit) => |w: pb::WorkUnit| -> (o: Result<WorkUnitMsg, Status>) ensures o is Ok <==> uuid_ok(w.id@), o is Ok ==> unit_wire(w, o->Ok_0) && o->Ok_0.body is Encoded { decode_work_unit(w) })
//@end
pub open spec fn to_worker_wire(w: pb::CoordinatorToWorkerMsg, m: CoordinatorToWorkerMsg) -> bool { w.inner is Some && match m {
    CoordinatorToWorkerMsg::WorkUnitBatch(b) => w.inner->0 is WorkUnitBatch && units_wire(w.inner->0->WorkUnitBatch_0.batch@, b.batch@),
    CoordinatorToWorkerMsg::WorkUnitEos => w.inner->0 is WorkUnitEos,
} }
//@fn src/protocol/grpc/worker_client.rs encode_coordinator_to_worker_msg
//@ spec: ensures to_worker_wire(r, msg),
//@end
pub open spec fn to_worker_whole(w: pb::CoordinatorToWorkerMsg) -> bool { w.inner is Some && (w.inner->0 is WorkUnitEos || w.inner->0 is WorkUnitBatch && forall|i: int| 0 <= i < w.inner->0->WorkUnitBatch_0.batch@.len() ==> uuid_ok((#[trigger] w.inner->0->WorkUnitBatch_0.batch@[i]).id@)) }
//@fn src/protocol/grpc/worker_service.rs decode_coordinator_to_worker_msg
//@ subst: .ok_or_else(missing($..)) => .ok_or_else(|| -> (o: Status) { bad_status() })
//@ subst: Status::invalid_argument($..) => bad_status()
//@ spec: ensures r is Ok <==> to_worker_whole(msg), r is Ok ==> to_worker_wire(msg, r->Ok_0),
//@end
// ------------------------------------------------------------------ replies
//@fn src/protocol/grpc/worker_service.rs encode_load_info
//@ closure 0: |bytes: usize| -> (o: u64) ensures o == bytes
//@ spec: ensures load_wire(r, load_info),
//@end
//@fn src/protocol/grpc/worker_client.rs decode_load_info
//@ closure 0: |bytes: u64| -> (o: usize) ensures o == bytes
//@ spec: ensures load_wire(load_info, r),
//@end
//@fn src/protocol/grpc/worker_service.rs encode_task_metrics
//@ subst: .map_err(datafusion_error_to_tonic_status) => .map_err(|e: DataFusionError| datafusion_error_to_tonic_status(e))
//@ closure 0: |metrics_set: MetricsSet| -> (o: Result<pb::MetricsSet, Status>) ensures o is Ok ==> carries(o->Ok_0, metrics_set)
//@ spec: ensures r is Ok ==> metrics_wire(r->Ok_0, task_metrics),
//@end
//@fn src/protocol/grpc/worker_client.rs decode_task_metrics
//@ subst: missing($..) => bad_request()
//@ closure 0: |metrics_set: pb::MetricsSet| -> (o: Result<MetricsSet>) ensures set_read(metrics_set, o)
//@ closure 1: || -> (o: DataFusionError)
//@ spec: ensures r is Err ==> task_metrics.task_metrics is None || !readable(task_metrics.task_metrics->0) || exists|i: int| 0 <= i < task_metrics.pre_order_plan_metrics@.len() && !readable(#[trigger] task_metrics.pre_order_plan_metrics@[i]),
//@    r is Ok ==> report_read(task_metrics, r->Ok_0),
//@end
pub open spec fn to_coordinator_wire(w: pb::WorkerToCoordinatorMsg, m: WorkerToCoordinatorMsg) -> bool { w.inner is Some && match m {
    WorkerToCoordinatorMsg::TaskMetrics(t) => w.inner->0 is TaskMetrics && metrics_wire(w.inner->0->TaskMetrics_0, t),
    WorkerToCoordinatorMsg::LoadInfo(l) => w.inner->0 is LoadInfo && load_wire(w.inner->0->LoadInfo_0, l),
    WorkerToCoordinatorMsg::LoadInfoEos => w.inner->0 is LoadInfoEos,
} }
//@fn src/protocol/grpc/worker_service.rs encode_worker_to_coordinator_msg
//@ spec: ensures r is Ok ==> to_coordinator_wire(r->Ok_0, msg), !(msg is TaskMetrics) ==> r is Ok,
//@end
//@fn src/protocol/grpc/worker_client.rs decode_worker_to_coordinator_msg
//@ subst: missing($..) => bad_request()
//@ closure 0: || -> (o: DataFusionError)
//@ spec: ensures msg.inner is None ==> r is Err,
//@    r is Ok ==> match msg.inner->0 { pb::worker_to_coordinator_msg::Inner::TaskMetrics(t) => r->Ok_0 is TaskMetrics && report_read(t, r->Ok_0->TaskMetrics_0), pb::worker_to_coordinator_msg::Inner::LoadInfo(l) => r->Ok_0 is LoadInfo && load_wire(l, r->Ok_0->LoadInfo_0), pb::worker_to_coordinator_msg::Inner::LoadInfoEos(_) => r->Ok_0 is LoadInfoEos },
//@    msg.inner is Some && (msg.inner->0 is TaskMetrics ==> report_whole(msg.inner->0->TaskMetrics_0)) ==> r is Ok,
//@end
// ------------------------------------------------------------------ a message that is sent is the message that is read
pub fn theorem_keys_over_the_wire(k: TaskKey) -> (r: Result<TaskKey, Status>)
    ensures r is Ok, r->Ok_0 == k,
{
    broadcast use uuids_differ, uuids_have_sixteen_bytes;
    decode_task_key(encode_task_key(k))
}
pub fn theorem_plan_request_over_the_wire(q: SetPlanRequest, ctx: &Arc<TaskContext>) -> (r: Option<Result<SetPlanRequest, Status>>)
    ensures r is Some ==> r->0 is Ok && ({ let a = r->0->Ok_0;
        &&& a.task_key == q.task_key && a.task_count == q.task_count && a.target_worker_url == q.target_worker_url && a.query_start_time_ns == q.query_start_time_ns
        &&& a.plan is Encoded && plan_wire(a.plan->Encoded_0@, q.plan)
        &&& a.work_unit_feed_declarations@ =~= q.work_unit_feed_declarations@
    }),
{
    broadcast use uuids_differ, uuids_have_sixteen_bytes;
    let ghost q0 = q;
    match encode_set_plan_request(q, ctx) {
        Err(_) => None,
        Ok(w) => {
            proof {
                assert forall|i: int| 0 <= i < w.work_unit_feed_declarations@.len() implies uuid_ok(#[trigger] w.work_unit_feed_declarations@[i].id@) by {
                    let d = q0.work_unit_feed_declarations@[i];
                    assert(decl_wire(w.work_unit_feed_declarations@[i], d)); }
            }
            let ghost w0 = w;
            let r = decode_set_plan_request(w);
            proof {
                let a = r->Ok_0.work_unit_feed_declarations@;
                assert forall|i: int| 0 <= i < a.len() implies a[i] == q0.work_unit_feed_declarations@[i] by {
                    assert(decl_wire(w0.work_unit_feed_declarations@[i], a[i]));
                    assert(decl_wire(w0.work_unit_feed_declarations@[i], q0.work_unit_feed_declarations@[i]));
                }
            }
            Some(r)
        }
    }
}
/// the request to run partitions of a task, as the worker reads what the client wrote
pub fn theorem_task_request_over_the_wire(w: pb::ExecuteTaskRequest, Ghost(q): Ghost<ExecuteTaskRequest>) -> (r: Result<ExecuteTaskRequest, Status>)
    requires task_request_wire(w, q),
    ensures r is Ok, ({ let a = r->Ok_0;
        &&& a.task_key == q.task_key && a.target_partition_start == q.target_partition_start && a.target_partition_end == q.target_partition_end
        &&& match q.producer_head {
            ProducerHead::None => a.producer_head is None,
            ProducerHead::BroadcastExec { output_partitions } => a.producer_head is BroadcastExec && a.producer_head->output_partitions == output_partitions,
            ProducerHead::RepartitionExec { partitioning } => a.producer_head is RepartitionExec && a.producer_head->partitioning is Encoded && part_wire(a.producer_head->partitioning->Encoded_0@, partitioning),
        }
    }),
{
    broadcast use uuids_differ, uuids_have_sixteen_bytes;
    decode_execute_task_request(w)
}
/// the same unit, its body as the bytes it was written as
pub open spec fn same_unit(a: WorkUnitMsg, u: WorkUnitMsg) -> bool {
    a.id == u.id && a.partition == u.partition && a.body is Encoded && body_wire(a.body->Encoded_0@, u.body) && a.created_timestamp_unix_nanos == u.created_timestamp_unix_nanos
    && a.sent_timestamp_unix_nanos == u.sent_timestamp_unix_nanos && a.received_timestamp_unix_nanos == u.received_timestamp_unix_nanos && a.processed_timestamp_unix_nanos == u.processed_timestamp_unix_nanos
}
pub fn theorem_units_over_the_wire(m: WorkUnitBatch) -> (r: Result<WorkUnitBatch, Status>)
    ensures r is Ok, r->Ok_0.batch@.len() == m.batch@.len(), forall|i: int| #![trigger r->Ok_0.batch@[i]] #![trigger m.batch@[i]] 0 <= i < m.batch@.len() ==> same_unit(r->Ok_0.batch@[i], m.batch@[i]),
{
    broadcast use uuids_differ, uuids_have_sixteen_bytes;
    let ghost m0 = m;
    let w = encode_work_unit_batch(m);
    proof {
        assert forall|i: int| 0 <= i < w.batch@.len() implies uuid_ok(#[trigger] w.batch@[i].id@) by { assert(unit_wire(w.batch@[i], m0.batch@[i])); }
    }
    let ghost w0 = w;
    let r = decode_work_unit_batch(w);
    proof {
        assert forall|i: int| #![trigger r->Ok_0.batch@[i]] #![trigger m0.batch@[i]] 0 <= i < m0.batch@.len() implies same_unit(r->Ok_0.batch@[i], m0.batch@[i]) by {
            assert(unit_wire(w0.batch@[i], m0.batch@[i])); assert(unit_wire(w0.batch@[i], r->Ok_0.batch@[i]));
        }
    }
    r
}
pub fn theorem_replies_over_the_wire(m: WorkerToCoordinatorMsg) -> (r: Option<Result<WorkerToCoordinatorMsg>>)
    ensures !(m is TaskMetrics) ==> r is Some, r is Some ==> r->0 is Ok && match m {
        WorkerToCoordinatorMsg::TaskMetrics(t) => r->0->Ok_0 is TaskMetrics && same_report(t, r->0->Ok_0->TaskMetrics_0),
        WorkerToCoordinatorMsg::LoadInfo(l) => r->0->Ok_0 is LoadInfo && ({ let a = r->0->Ok_0->LoadInfo_0;
            &&& a.partition == l.partition && a.rows_ready == l.rows_ready && a.rows_pulled_from_leaf == l.rows_pulled_from_leaf && a.reached_eos == l.reached_eos
            &&& a.per_column_bytes_ready@ =~= l.per_column_bytes_ready@ && a.per_column_ndv_percentage == l.per_column_ndv_percentage && a.per_column_null_percentage == l.per_column_null_percentage }),
        WorkerToCoordinatorMsg::LoadInfoEos => r->0->Ok_0 is LoadInfoEos,
    },
{
    match encode_worker_to_coordinator_msg(m) { Err(_) => None, Ok(w) => {
        let ghost w0 = w;
        let r = decode_worker_to_coordinator_msg(w);
        proof { if m is TaskMetrics {
            let (t, mt) = (w0.inner->0->TaskMetrics_0, m->TaskMetrics_0);
            assert(metrics_wire(t, mt));
            assert forall|i: int| 0 <= i < t.pre_order_plan_metrics@.len() implies readable(#[trigger] t.pre_order_plan_metrics@[i]) by { assert(carries(t.pre_order_plan_metrics@[i], mt.pre_order_plan_metrics@[i])); }
            assert(report_whole(t));
        } }
        Some(r)
    } }
}
} // verus!
fn main() {}
