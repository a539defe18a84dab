//@type_is ::prost::alloc::string::String => Text
//@type_is ::prost::alloc::vec::Vec => Vec
//@type_is .to_string() => .txt()
//@type_is Cow::Owned( => own(
//@type_is Cow<'static, str> => Text
//@type_is DfPruningMetrics => PruningMetrics
//@type_is Arc::new(AtomicUsize::new( => vx_shared(AtomicUsize::new(
//@type_is Arc<AtomicUsize> => AtomicUsize
//@type_is Arc<dyn CustomMetricValue> => AnyMetric
//@type_is Arc<dyn CustomMetricValue + 'static> => AnyMetric
//@type_is std::time::Duration => Duration
//@type_is value: Arc::new(value) => value: custom(value)
//@type_is let count = Count::new => let mut count = Count::new
//@type_is let gauge = Gauge::new => let mut gauge = Gauge::new
//@type_is let time = Time::new => let mut time = Time::new
//@type_is let timestamp = Timestamp::new => let mut timestamp = Timestamp::new
//@type_is let pruning_metrics = PruningMetrics::new => let mut pruning_metrics = PruningMetrics::new
//@type_is let ratio_metrics = RatioMetrics::new => let mut ratio_metrics = RatioMetrics::new
#![allow(unused_imports, dead_code, unused_variables, non_snake_case)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ text and values of the dependencies
// a handle made in a function and not yet given away is verified as an owned value
#[verifier::external_body] pub struct Text { _x: u8 }
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Text { pub fn txt(&self) -> (r: Text) ensures r == *self { self.clone() } }
pub trait Txt { fn txt(&self) -> Text; }
impl Txt for str { #[verifier::external_body] fn txt(&self) -> Text { unimplemented!() } }
pub fn own(t: Text) -> (r: Text) ensures r == t { t }
pub open spec fn wrap(x: int) -> usize { (x % 0x1_0000_0000_0000_0000) as usize }
pub struct Count { pub v: usize }
impl Count {
    pub fn new() -> (r: Self) ensures r.v == 0 { Count { v: 0 } }
    #[verifier::external_body] pub fn add(&mut self, n: usize) ensures final(self).v == wrap(old(self).v + n) { unimplemented!() }
    pub fn value(&self) -> (r: usize) ensures r == self.v { self.v }
}
pub struct Gauge { pub v: usize }
impl Gauge {
    pub fn new() -> (r: Self) ensures r.v == 0 { Gauge { v: 0 } }
    #[verifier::external_body] pub fn add(&mut self, n: usize) ensures final(self).v == wrap(old(self).v + n) { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, n: usize) -> (r: usize) ensures final(self).v == n { unimplemented!() }
    #[verifier::external_body] pub fn set_max(&mut self, n: usize) ensures final(self).v == if n > old(self).v { n } else { old(self).v } { unimplemented!() }
    pub fn value(&self) -> (r: usize) ensures r == self.v { self.v }
}
pub struct Duration { pub nanos: u128 }
impl Duration {
    pub fn from_nanos(n: u64) -> (r: Self) ensures r.nanos == n { Duration { nanos: n as u128 } }
    #[verifier::external_body] pub fn from_micros(n: u64) -> (r: Self) ensures r.nanos == n * 1000 { unimplemented!() }
    #[verifier::external_body] pub fn from_millis(n: u64) -> (r: Self) ensures r.nanos == n * 1000000 { unimplemented!() }
    pub fn as_nanos(&self) -> (r: u128) ensures r == self.nanos { self.nanos }
}
pub struct Time { pub v: usize }
impl Time {
    pub fn new() -> (r: Self) ensures r.v == 0 { Time { v: 0 } }
    // counts at least one nanosecond
    #[verifier::external_body] pub fn add_duration(&mut self, d: Duration) ensures final(self).v == wrap(old(self).v + if d.nanos % 0x1_0000_0000_0000_0000 == 0 { 1 } else { d.nanos % 0x1_0000_0000_0000_0000 }) { unimplemented!() }
    pub fn value(&self) -> (r: usize) ensures r == self.v { self.v }
}
#[verifier::external_body] pub struct DateTime { _x: u8 }
impl DateTime {
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body] pub fn timestamp_nanos_opt(&self) -> (r: Option<i64>) ensures r == (if i64::MIN <= self.at() <= i64::MAX { Some(self.at() as i64) } else { None::<i64> }) { unimplemented!() }
    #[verifier::external_body] pub fn from_timestamp_nanos(n: i64) -> (r: Self) ensures r.at() == n { unimplemented!() }
}
pub struct Timestamp { pub v: Option<DateTime> }
impl Timestamp {
    pub fn new() -> (r: Self) ensures r.v is None { Timestamp { v: None } }
    #[verifier::external_body] pub fn set(&mut self, d: DateTime) ensures final(self).v == Some(d) { unimplemented!() }
    #[verifier::external_body] pub fn value(&self) -> (r: Option<DateTime>) ensures r == self.v { unimplemented!() }
}
pub struct PruningMetrics { pub p: usize, pub m: usize }
impl PruningMetrics {
    pub fn new() -> (r: Self) ensures r.p == 0, r.m == 0 { PruningMetrics { p: 0, m: 0 } }
    #[verifier::external_body] pub fn add_pruned(&mut self, n: usize) ensures final(self).p == wrap(old(self).p + n), final(self).m == old(self).m { unimplemented!() }
    #[verifier::external_body] pub fn add_matched(&mut self, n: usize) ensures final(self).m == wrap(old(self).m + n), final(self).p == old(self).p { unimplemented!() }
    pub fn pruned(&self) -> (r: usize) ensures r == self.p { self.p }
    pub fn matched(&self) -> (r: usize) ensures r == self.m { self.m }
}
pub struct RatioMetrics { pub p: usize, pub t: usize }
impl RatioMetrics {
    pub fn new() -> (r: Self) ensures r.p == 0, r.t == 0 { RatioMetrics { p: 0, t: 0 } }
    #[verifier::external_body] pub fn set_part(&mut self, n: usize) ensures final(self).p == n, final(self).t == old(self).t { unimplemented!() }
    #[verifier::external_body] pub fn set_total(&mut self, n: usize) ensures final(self).t == n, final(self).p == old(self).p { unimplemented!() }
    #[verifier::external_body] pub fn add_part(&mut self, n: usize) ensures final(self).p == wrap(old(self).p + n), final(self).t == old(self).t { unimplemented!() }
    #[verifier::external_body] pub fn add_total(&mut self, n: usize) ensures final(self).t == wrap(old(self).t + n), final(self).p == old(self).p { unimplemented!() }
    pub fn part(&self) -> (r: usize) ensures r == self.p { self.p }
    pub fn total(&self) -> (r: usize) ensures r == self.t { self.t }
}
pub struct Label { pub n: Text, pub v: Text }
impl Label {
    pub fn new(n: Text, v: Text) -> (r: Self) ensures r.n == n, r.v == v { Label { n, v } }
    pub fn name(&self) -> (r: &Text) ensures *r == self.n { &self.n }
    pub fn value(&self) -> (r: &Text) ensures *r == self.v { &self.v }
}
// ------------------------------------------------------------------ the added kinds of metrics
#[derive(Clone, Copy)] pub struct Relaxed;
pub struct AtomicUsize { pub v: usize }
impl AtomicUsize {
    pub fn new(v: usize) -> (r: Self) ensures r.v == v { AtomicUsize { v } }
    pub fn load(&self, o: Relaxed) -> (r: usize) ensures r == self.v { self.v }
    #[verifier::external_body] pub fn store(&mut self, n: usize, o: Relaxed) ensures final(self).v == n { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&mut self, n: usize, o: Relaxed) -> (r: usize) ensures r == old(self).v, final(self).v == wrap(old(self).v + n) { unimplemented!() }
    #[verifier::external_body] pub fn fetch_min(&mut self, n: usize, o: Relaxed) -> (r: usize) ensures r == old(self).v, final(self).v == if n < old(self).v { n } else { old(self).v } { unimplemented!() }
    #[verifier::external_body] pub fn fetch_max(&mut self, n: usize, o: Relaxed) -> (r: usize) ensures r == old(self).v, final(self).v == if n > old(self).v { n } else { old(self).v } { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&mut self, old_v: usize, new_v: usize, a: Relaxed, b: Relaxed) -> (r: Result<usize, usize>)
        ensures old(self).v == old_v ==> final(self).v == new_v && r == Ok::<usize, usize>(old_v), old(self).v != old_v ==> final(self).v == old(self).v && r == Err::<usize, usize>(old(self).v) { unimplemented!() }
}
pub fn vx_shared(a: AtomicUsize) -> (r: AtomicUsize) ensures r == a { a }
#[verifier::external_body] pub struct DDSketch { _x: u8 }
/// what bincode writes for a sketch
pub uninterp spec fn sketch_bytes(s: DDSketch) -> Seq<u8>;
#[verifier::external_body] pub fn bincode_read(b: &Vec<u8>) -> (r: Result<DDSketch, Text>) ensures forall|s: DDSketch| #[trigger] sketch_bytes(s) == b@ ==> r == Ok::<DDSketch, Text>(s) { unimplemented!() }
macro_rules! percentiles { ($($n:ident),*) => { verus! { $(
    pub struct $n { pub s: DDSketch }
    impl $n {
        pub fn from_sketch(s: DDSketch) -> (r: Self) ensures r.s == s { $n { s } }
        #[verifier::external_body] pub fn serialize_sketch(&self) -> (r: Result<Vec<u8>, DataFusionError>) ensures r is Ok, r->Ok_0@ == sketch_bytes(self.s) { unimplemented!() }
    }
)* } } }
percentiles!(P50LatencyMetric, P75LatencyMetric, P95LatencyMetric, P99LatencyMetric);
// `Arc<dyn CustomMetricValue>`
pub enum AnyMetric { Min(MinLatencyMetric), Max(MaxLatencyMetric), Avg(AvgLatencyMetric), First(FirstLatencyMetric), Bytes(BytesCounterMetric), P50(P50LatencyMetric), P75(P75LatencyMetric), P95(P95LatencyMetric), P99(P99LatencyMetric), MaxGauge(MaxGaugeMetric), Other(u8) }
impl AnyMetric {
    pub fn as_any(&self) -> (r: &AnyMetric) ensures *r == *self { self }
    #[verifier::external_body] pub fn downcast_ref<T: Kind>(&self) -> (r: Option<&T>) ensures match (r, T::of(*self)) { (Some(x), Some(y)) => *x == y, (None, None) => true, _ => false } { unimplemented!() }
    #[verifier::external_body] pub fn is<T: Kind>(&self) -> (r: bool) ensures r == (T::of(*self) is Some) { unimplemented!() }
}
pub trait Kind: Sized { spec fn of(a: AnyMetric) -> Option<Self>; }
#[verifier::external_body] pub fn custom<T: Kind>(t: T) -> (r: AnyMetric) ensures T::of(r) == Some(t) { unimplemented!() }
macro_rules! kinds { ($($v:ident $n:ident),*) => { verus! { $(
    impl Kind for $n { open spec fn of(a: AnyMetric) -> Option<Self> { match a { AnyMetric::$v(x) => Some(x), _ => None } } }
)* } } }
kinds!(Min MinLatencyMetric, Max MaxLatencyMetric, Avg AvgLatencyMetric, First FirstLatencyMetric, Bytes BytesCounterMetric, P50 P50LatencyMetric, P75 P75LatencyMetric, P95 P95LatencyMetric, P99 P99LatencyMetric, MaxGauge MaxGaugeMetric);
pub enum MetricValue {
    OutputRows(Count), ElapsedCompute(Time), SpillCount(Count), SpilledBytes(Count), OutputBytes(Count), OutputBatches(Count), SpilledRows(Count), CurrentMemoryUsage(Gauge),
    Count { name: Text, count: Count }, Gauge { name: Text, gauge: Gauge }, PeakMemoryUsage { name: Text, gauge: Gauge }, Time { name: Text, time: Time }, StartTimestamp(Timestamp), EndTimestamp(Timestamp),
    PruningMetrics { name: Text, pruning_metrics: PruningMetrics }, Ratio { name: Text, ratio_metrics: RatioMetrics }, Custom { name: Text, value: AnyMetric },
}
pub struct Metric { pub v: MetricValue, pub p: Option<usize>, pub l: Vec<Label> }
impl Metric {
    pub fn new_with_labels(v: MetricValue, p: Option<usize>, l: Vec<Label>) -> (r: Self) ensures r.v == v, r.p == p, r.l == l { Metric { v, p, l } }
    pub fn value(&self) -> (r: &MetricValue) ensures *r == self.v { &self.v }
    pub fn partition(&self) -> (r: Option<usize>) ensures r == self.p { self.p }
    pub fn labels(&self) -> (r: &Vec<Label>) ensures *r == self.l { &self.l }
}
pub struct MetricsSet { pub m: Vec<Arc<Metric>> }
impl MetricsSet {
    pub fn new() -> (r: Self) ensures r.m@.len() == 0 { MetricsSet { m: Vec::new() } }
    pub fn push(&mut self, m: Arc<Metric>) ensures final(self).m@ == old(self).m@.push(m) { self.m.push(m) }
}
pub enum DataFusionError { Internal(Text), Other }
/// the text that says that a kind of metric has no wire form
pub uninterp spec fn unsupported_text(t: Text) -> bool;
#[verifier::external_body] pub fn unsupported() -> (r: Result<pb::Metric, DataFusionError>) ensures r is Err, r->Err_0 is Internal, unsupported_text(r->Err_0->Internal_0) { unimplemented!() }
#[verifier::external_body] pub fn is_unsupported(t: &Text) -> (r: bool) ensures r == unsupported_text(*t) { unimplemented!() }
#[verifier::external_body] pub fn missing() -> (r: Result<Arc<Metric>, DataFusionError>) ensures r is Err { unimplemented!() }
#[verifier::external_body] pub fn out_of_range() -> (r: DataFusionError) ensures r is Internal, !unsupported_text(r->Internal_0) { unimplemented!() }

// ------------------------------------------------------------------ the wire types
pub mod pb { use vstd::prelude::*; use super::Text; verus! {
//@struct src/protocol/grpc/generated/worker.rs Label
//@struct src/protocol/grpc/generated/worker.rs Metric
//@struct src/protocol/grpc/generated/worker.rs MetricsSet
//@struct src/protocol/grpc/generated/worker.rs OutputRows
//@struct src/protocol/grpc/generated/worker.rs ElapsedCompute
//@struct src/protocol/grpc/generated/worker.rs SpillCount
//@struct src/protocol/grpc/generated/worker.rs SpilledBytes
//@struct src/protocol/grpc/generated/worker.rs SpilledRows
//@struct src/protocol/grpc/generated/worker.rs CurrentMemoryUsage
//@struct src/protocol/grpc/generated/worker.rs NamedCount
//@struct src/protocol/grpc/generated/worker.rs NamedGauge
//@struct src/protocol/grpc/generated/worker.rs PeakMemoryUsage
//@struct src/protocol/grpc/generated/worker.rs NamedTime
//@struct src/protocol/grpc/generated/worker.rs StartTimestamp
//@struct src/protocol/grpc/generated/worker.rs EndTimestamp
//@struct src/protocol/grpc/generated/worker.rs OutputBytes
//@struct src/protocol/grpc/generated/worker.rs OutputBatches
//@struct src/protocol/grpc/generated/worker.rs NamedPruningMetrics
//@struct src/protocol/grpc/generated/worker.rs NamedRatio
//@struct src/protocol/grpc/generated/worker.rs BytesCount
//@struct src/protocol/grpc/generated/worker.rs MinLatency
//@struct src/protocol/grpc/generated/worker.rs MaxLatency
//@struct src/protocol/grpc/generated/worker.rs AvgLatency
//@struct src/protocol/grpc/generated/worker.rs FirstLatency
//@struct src/protocol/grpc/generated/worker.rs PercentileLatency
//@struct src/protocol/grpc/generated/worker.rs MaxGauge
pub mod metric { use vstd::prelude::*; verus! {
//@enum src/protocol/grpc/generated/worker.rs metric::Value
} }
} }
impl Clone for pb::Metric { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@tags src/protocol/grpc/generated/worker.rs Metric metric::Value
pub open spec fn member(x: int, s: Seq<int>) -> bool decreases s.len() { s.len() > 0 && (s.last() == x || member(x, s.drop_last())) }
pub open spec fn all_listed(v: Seq<int>, listed: Seq<int>, fields: Seq<int>) -> bool decreases v.len() {
    v.len() == 0 || { member(v.last(), listed) && !member(v.last(), fields) && !member(v.last(), v.drop_last()) && all_listed(v.drop_last(), listed, fields) }
}
// every kind of metric is listed under a number of its own where metrics are decoded
pub proof fn theorem_every_kind_decodes()
    ensures all_listed(variant_tags_Value(), listed_tags_Value(), field_tags_Value()),
{ assert(all_listed(variant_tags_Value(), listed_tags_Value(), field_tags_Value())) by (compute); }

// ------------------------------------------------------------------ specification: what carries what, and which metric may arrive for which
pub open spec fn carries_value(p: pb::metric::Value, v: MetricValue) -> bool { match (v, p) {
    (MetricValue::OutputRows(c), pb::metric::Value::OutputRows(q)) => q.value == c.v,
    (MetricValue::SpillCount(c), pb::metric::Value::SpillCount(q)) => q.value == c.v,
    (MetricValue::SpilledBytes(c), pb::metric::Value::SpilledBytes(q)) => q.value == c.v,
    (MetricValue::SpilledRows(c), pb::metric::Value::SpilledRows(q)) => q.value == c.v,
    (MetricValue::OutputBytes(c), pb::metric::Value::OutputBytes(q)) => q.value == c.v,
    (MetricValue::OutputBatches(c), pb::metric::Value::OutputBatches(q)) => q.value == c.v,
    (MetricValue::ElapsedCompute(c), pb::metric::Value::ElapsedCompute(q)) => q.value == c.v,
    (MetricValue::CurrentMemoryUsage(c), pb::metric::Value::CurrentMemoryUsage(q)) => q.value == c.v,
    (MetricValue::Count { name, count }, pb::metric::Value::Count(q)) => q.name == name && q.value == count.v,
    (MetricValue::Gauge { name, gauge }, pb::metric::Value::Gauge(q)) => q.name == name && q.value == gauge.v,
    (MetricValue::PeakMemoryUsage { name, gauge }, pb::metric::Value::PeakMemoryUsage(q)) => q.name == name && q.value == gauge.v,
    (MetricValue::Time { name, time }, pb::metric::Value::Time(q)) => q.name == name && q.value == time.v,
    (MetricValue::StartTimestamp(t), pb::metric::Value::StartTimestamp(q)) => match (t.v, q.value) { (Some(d), Some(n)) => d.at() == n, (None, None) => true, _ => false },
    (MetricValue::EndTimestamp(t), pb::metric::Value::EndTimestamp(q)) => match (t.v, q.value) { (Some(d), Some(n)) => d.at() == n, (None, None) => true, _ => false },
    (MetricValue::PruningMetrics { name, pruning_metrics }, pb::metric::Value::PruningMetrics(q)) => q.name == name && q.pruned == pruning_metrics.p && q.matched == pruning_metrics.m,
    (MetricValue::Ratio { name, ratio_metrics }, pb::metric::Value::Ratio(q)) => q.name == name && q.part == ratio_metrics.p && q.total == ratio_metrics.t,
    (MetricValue::Custom { name, value: AnyMetric::Min(x) }, pb::metric::Value::CustomMinLatency(q)) => q.name == name && q.value == x.nanos.v,
    (MetricValue::Custom { name, value: AnyMetric::Max(x) }, pb::metric::Value::CustomMaxLatency(q)) => q.name == name && q.value == x.nanos.v,
    (MetricValue::Custom { name, value: AnyMetric::Avg(x) }, pb::metric::Value::CustomAvgLatency(q)) => q.name == name && q.nanos_sum == x.nanos_sum.v && q.count == x.count.v,
    (MetricValue::Custom { name, value: AnyMetric::First(x) }, pb::metric::Value::CustomFirstLatency(q)) => q.name == name && q.value == x.nanos.v,
    (MetricValue::Custom { name, value: AnyMetric::Bytes(x) }, pb::metric::Value::CustomBytesCount(q)) => q.name == name && q.value == x.bytes.v,
    (MetricValue::Custom { name, value: AnyMetric::MaxGauge(x) }, pb::metric::Value::CustomMaxGauge(q)) => q.name == name && q.value == x.value.v,
    (MetricValue::Custom { name, value: AnyMetric::P50(x) }, pb::metric::Value::CustomP50Latency(q)) => q.name == name && q.sketch_bytes@ == sketch_bytes(x.s),
    (MetricValue::Custom { name, value: AnyMetric::P75(x) }, pb::metric::Value::CustomP75Latency(q)) => q.name == name && q.sketch_bytes@ == sketch_bytes(x.s),
    (MetricValue::Custom { name, value: AnyMetric::P95(x) }, pb::metric::Value::CustomP95Latency(q)) => q.name == name && q.sketch_bytes@ == sketch_bytes(x.s),
    (MetricValue::Custom { name, value: AnyMetric::P99(x) }, pb::metric::Value::CustomP99Latency(q)) => q.name == name && q.sketch_bytes@ == sketch_bytes(x.s),
    _ => false,
} }
pub open spec fn carries_labels(p: Seq<pb::Label>, l: Seq<Label>) -> bool { p.len() == l.len() && forall|i: int| #![trigger p[i]] #![trigger l[i]] 0 <= i < p.len() ==> p[i].name == l[i].n && p[i].value == l[i].v }
pub open spec fn carries(p: pb::Metric, m: Metric) -> bool {
    p.value is Some && carries_value(p.value->0, m.v) && carries_labels(p.labels@, m.l@) && match (p.partition, m.p) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false }
}
// two metrics a message may carry are the same
pub open spec fn same_value(a: MetricValue, b: MetricValue) -> bool { match (a, b) {
    (MetricValue::StartTimestamp(s), MetricValue::StartTimestamp(t)) => (s.v is Some <==> t.v is Some) && (s.v is Some ==> s.v->0.at() == t.v->0.at()),
    (MetricValue::EndTimestamp(s), MetricValue::EndTimestamp(t)) => (s.v is Some <==> t.v is Some) && (s.v is Some ==> s.v->0.at() == t.v->0.at()),
    (a, b) => a == b,
} }
pub open spec fn same(a: Metric, b: Metric) -> bool { same_value(a.v, b.v) && a.p == b.p && a.l@.len() == b.l@.len() && forall|i: int| #![trigger a.l@[i]] #![trigger b.l@[i]] 0 <= i < a.l@.len() ==> a.l@[i] == b.l@[i] }
pub open spec fn supported(m: Metric) -> bool { !(m.v is Custom && m.v->Custom_value is Other) }
// times that 64 bits of nanoseconds can hold
pub open spec fn dated(m: Metric) -> bool { match m.v {
    MetricValue::StartTimestamp(t) => t.v is Some ==> i64::MIN <= t.v->0.at() <= i64::MAX,
    MetricValue::EndTimestamp(t) => t.v is Some ==> i64::MIN <= t.v->0.at() <= i64::MAX,
    _ => true,
} }
// the supported ones, in order
pub open spec fn kept(m: Seq<Arc<Metric>>) -> Seq<Arc<Metric>> decreases m.len() {
    if m.len() == 0 { Seq::empty() } else if supported(*m.last()) { kept(m.drop_last()).push(m.last()) } else { kept(m.drop_last()) }
}
pub open spec fn all_carried(p: Seq<pb::Metric>, m: Seq<Arc<Metric>>) -> bool { p.len() == m.len() && forall|i: int| #![trigger p[i]] #![trigger m[i]] 0 <= i < m.len() ==> carries(p[i], *m[i]) }
pub open spec fn all_same(a: Seq<Arc<Metric>>, b: Seq<Arc<Metric>>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> same(*a[i], *b[i]) }

// ------------------------------------------------------------------ the code
//@struct src/metrics/latency_metric.rs MinLatencyMetric
impl MinLatencyMetric {
//@fn src/metrics/latency_metric.rs MinLatencyMetric::default@Default
//@ spec: ensures r.nanos.v == usize::MAX,
//@end
//@fn src/metrics/latency_metric.rs MinLatencyMetric::from_nanos
//@ args: x
//@ spec: ensures r.nanos.v == x,
//@end
//@fn src/metrics/latency_metric.rs MinLatencyMetric::value
//@ spec: ensures r == self.nanos.v,
//@end
//@fn src/metrics/latency_metric.rs MinLatencyMetric::aggregate@CustomMetricValue
//@ sig: pub fn $name(&mut self, other: AnyMetric)
//@ spec: ensures match MinLatencyMetric::of(other) { Some(x) => final(self).nanos.v == (if x.nanos.v < old(self).nanos.v { x.nanos.v } else { old(self).nanos.v }), None => *final(self) == *old(self) },
//@end
//@fn src/metrics/latency_metric.rs MinLatencyMetric::as_usize@CustomMetricValue
//@ spec: ensures r == self.nanos.v,
//@end
//@fn src/metrics/latency_metric.rs MinLatencyMetric::add_nanos
//@ sig: pub fn $name(&mut self, nanos: usize)
//@ spec: ensures final(self).nanos.v == (if (if nanos == 0 { 1usize } else { nanos }) < old(self).nanos.v { (if nanos == 0 { 1usize } else { nanos }) } else { old(self).nanos.v }),
//@end
}
//@struct src/metrics/latency_metric.rs MaxLatencyMetric
impl MaxLatencyMetric {
//@fn src/metrics/latency_metric.rs MaxLatencyMetric::from_nanos
//@ args: x
//@ spec: ensures r.nanos.v == x,
//@end
//@fn src/metrics/latency_metric.rs MaxLatencyMetric::value
//@ spec: ensures r == self.nanos.v,
//@end
//@fn src/metrics/latency_metric.rs MaxLatencyMetric::aggregate@CustomMetricValue
//@ sig: pub fn $name(&mut self, other: AnyMetric)
//@ spec: ensures match MaxLatencyMetric::of(other) { Some(x) => final(self).nanos.v == (if x.nanos.v > old(self).nanos.v { x.nanos.v } else { old(self).nanos.v }), None => *final(self) == *old(self) },
//@end
//@fn src/metrics/latency_metric.rs MaxLatencyMetric::as_usize@CustomMetricValue
//@ spec: ensures r == self.nanos.v,
//@end
//@fn src/metrics/latency_metric.rs MaxLatencyMetric::add_nanos
//@ sig: pub fn $name(&mut self, nanos: usize)
//@ spec: ensures final(self).nanos.v == (if (if nanos == 0 { 1usize } else { nanos }) > old(self).nanos.v { (if nanos == 0 { 1usize } else { nanos }) } else { old(self).nanos.v }),
//@end
}
impl MaxLatencyMetric { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.nanos.v == 0 { unimplemented!() } }
//@struct src/metrics/latency_metric.rs FirstLatencyMetric
impl FirstLatencyMetric {
//@fn src/metrics/latency_metric.rs FirstLatencyMetric::from_nanos
//@ args: x
//@ spec: ensures r.nanos.v == x,
//@end
//@fn src/metrics/latency_metric.rs FirstLatencyMetric::value
//@ spec: ensures r == self.nanos.v,
//@end
//@fn src/metrics/latency_metric.rs FirstLatencyMetric::aggregate@CustomMetricValue
//@ sig: pub fn $name(&mut self, other: AnyMetric)
//@ spec: ensures match FirstLatencyMetric::of(other) { Some(x) => final(self).nanos.v == (if old(self).nanos.v == 0 { x.nanos.v } else { old(self).nanos.v }), None => *final(self) == *old(self) },
//@end
//@fn src/metrics/latency_metric.rs FirstLatencyMetric::as_usize@CustomMetricValue
//@ spec: ensures r == self.nanos.v,
//@end
//@fn src/metrics/latency_metric.rs FirstLatencyMetric::add_nanos
//@ sig: pub fn $name(&mut self, nanos: usize)
//@ spec: ensures final(self).nanos.v == (if old(self).nanos.v == 0 { (if nanos == 0 { 1usize } else { nanos }) } else { old(self).nanos.v }),
//@end
}
impl FirstLatencyMetric { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.nanos.v == 0 { unimplemented!() } }
//@struct src/metrics/latency_metric.rs AvgLatencyMetric
impl AvgLatencyMetric {
//@fn src/metrics/latency_metric.rs AvgLatencyMetric::from_raw
//@ args: a b
//@ spec: ensures r.nanos_sum.v == a, r.count.v == b,
//@end
//@fn src/metrics/latency_metric.rs AvgLatencyMetric::nanos_sum
//@ spec: ensures r == self.nanos_sum.v,
//@end
//@fn src/metrics/latency_metric.rs AvgLatencyMetric::count
//@ spec: ensures r == self.count.v,
//@end
//@fn src/metrics/latency_metric.rs AvgLatencyMetric::value
//@ spec: ensures r == self.nanos_sum.v as int / (if self.count.v == 0 { 1int } else { self.count.v as int }),
//@end
//@fn src/metrics/latency_metric.rs AvgLatencyMetric::aggregate@CustomMetricValue
//@ sig: pub fn $name(&mut self, other: AnyMetric)
//@ spec: ensures match AvgLatencyMetric::of(other) { Some(x) => final(self).nanos_sum.v == wrap(old(self).nanos_sum.v + x.nanos_sum.v) && final(self).count.v == wrap(old(self).count.v + x.count.v), None => *final(self) == *old(self) },
//@end
//@fn src/metrics/latency_metric.rs AvgLatencyMetric::add_nanos
//@ sig: pub fn $name(&mut self, nanos: usize)
//@ spec: ensures final(self).nanos_sum.v == wrap(old(self).nanos_sum.v + if nanos == 0 { 1usize } else { nanos }), final(self).count.v == wrap(old(self).count.v + 1),
//@end
}
impl AvgLatencyMetric { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.nanos_sum.v == 0, r.count.v == 0 { unimplemented!() } }
//@struct src/metrics/bytes_metric.rs BytesCounterMetric
impl BytesCounterMetric {
//@fn src/metrics/bytes_metric.rs BytesCounterMetric::default@Default
//@ spec: ensures r.bytes.v == 0,
//@end
//@fn src/metrics/bytes_metric.rs BytesCounterMetric::from_value
//@ args: x
//@ spec: ensures r.bytes.v == x,
//@end
//@fn src/metrics/bytes_metric.rs BytesCounterMetric::value
//@ spec: ensures r == self.bytes.v,
//@end
//@fn src/metrics/bytes_metric.rs BytesCounterMetric::aggregate@CustomMetricValue
//@ sig: pub fn $name(&mut self, other: AnyMetric)
//@ spec: ensures match BytesCounterMetric::of(other) { Some(x) => final(self).bytes.v == wrap(old(self).bytes.v + x.bytes.v), None => *final(self) == *old(self) },
//@end
//@fn src/metrics/bytes_metric.rs BytesCounterMetric::as_usize@CustomMetricValue
//@ spec: ensures r == self.bytes.v,
//@end
//@fn src/metrics/bytes_metric.rs BytesCounterMetric::add_bytes
//@ sig: pub fn $name(&mut self, bytes: usize) -> (r: usize)
//@ spec: ensures final(self).bytes.v == wrap(old(self).bytes.v + bytes),
//@end
}
//@struct src/metrics/max_gauge_metric.rs MaxGaugeMetric
impl MaxGaugeMetric {
//@fn src/metrics/max_gauge_metric.rs MaxGaugeMetric::default@Default
//@ spec: ensures r.value.v == 0,
//@end
//@fn src/metrics/max_gauge_metric.rs MaxGaugeMetric::from_value
//@ args: x
//@ spec: ensures r.value.v == x,
//@end
//@fn src/metrics/max_gauge_metric.rs MaxGaugeMetric::value
//@ spec: ensures r == self.value.v,
//@end
//@fn src/metrics/max_gauge_metric.rs MaxGaugeMetric::aggregate@CustomMetricValue
//@ sig: pub fn $name(&mut self, other: AnyMetric)
//@ spec: ensures match MaxGaugeMetric::of(other) { Some(x) => final(self).value.v == (if x.value.v > old(self).value.v { x.value.v } else { old(self).value.v }), None => *final(self) == *old(self) },
//@end
//@fn src/metrics/max_gauge_metric.rs MaxGaugeMetric::as_usize@CustomMetricValue
//@ spec: ensures r == self.value.v,
//@end
//@fn src/metrics/max_gauge_metric.rs MaxGaugeMetric::set_max
//@ sig: pub fn $name(&mut self, n: usize)
//@ spec: ensures final(self).value.v == (if n > old(self).value.v { n } else { old(self).value.v }),
//@end
}

//@fn src/protocol/grpc/metrics_proto.rs df_metric_to_proto
//@ args: metric
//@ closure 0: |p: usize| -> (o: u64) ensures o == p
//@ closure 1: |label: &Label| -> (o: pb::Label) ensures o.name == label.n, o.value == label.v
//@ subst: internal_err!($..) => unsupported()
//@ subst: DataFusionError::Internal($..) => out_of_range()
//@ spec: ensures supported(*metric) && dated(*metric) ==> r is Ok && carries(r->Ok_0, *metric),
//@      !supported(*metric) ==> r is Err && r->Err_0 is Internal && unsupported_text(r->Err_0->Internal_0),
//@      r is Err && supported(*metric) ==> !(r->Err_0 is Internal && unsupported_text(r->Err_0->Internal_0)), r is Ok ==> supported(*metric) && dated(*metric),
//@end
//@fn src/protocol/grpc/metrics_proto.rs df_metrics_set_to_proto
//@ args: metrics_set
//@ subst: msg == CUSTOM_METRICS_NOT_SUPPORTED || msg == UNSUPPORTED_METRICS => is_unsupported(msg)
//@ subst: metrics_set.iter() => metrics_set.m.iter()
//@ loop 0: invariant it0.seq().len() == metrics_set.m@.len(), forall|i: int| #![trigger it0.seq()[i]] 0 <= i < metrics_set.m@.len() ==> *it0.seq()[i] == metrics_set.m@[i], all_carried(metrics@, kept(metrics_set.m@.take(it0.index() as int))), forall|i: int| 0 <= i < it0.index() ==> dated(*#[trigger] metrics_set.m@[i]), metrics_set.m@.take(metrics_set.m@.len() as int) =~= metrics_set.m@,
//@      body: assert(metrics_set.m@.take(it0.index() + 1).drop_last() =~= metrics_set.m@.take(it0.index() as int));
//@ spec: ensures match r { Ok(s) => all_carried(s.metrics@, kept(metrics_set.m@)), Err(_) => exists|i: int| 0 <= i < metrics_set.m@.len() && !dated(*#[trigger] metrics_set.m@[i]) },
//@end
//@fn src/protocol/grpc/metrics_proto.rs metric_proto_to_df
//@ args: metric
//@ closure 0: |p: u64| -> (o: usize) ensures o == p
//@ closure 1: |proto_label: pb::Label| -> (o: Label) ensures o.n == proto_label.name, o.v == proto_label.value
//@ closure 2: -
//@ closure 3: -
//@ closure 4: -
//@ closure 5: -
//@ subst: bincode::deserialize( => bincode_read(
//@ subst: DataFusionError::Internal($..) => out_of_range()
//@ subst: internal_err!($..) => missing()
//@ spec: ensures forall|m: Metric| #[trigger] carries(metric, m) ==> r is Ok && same(m, *r->Ok_0),
//@end
//@fn src/protocol/grpc/metrics_proto.rs metrics_set_proto_to_df
//@ args: s
//@ loop 0: invariant it0.seq().len() == s.metrics@.len(), forall|i: int| #![trigger it0.seq()[i]] 0 <= i < s.metrics@.len() ==> *it0.seq()[i] == s.metrics@[i], metrics_set.m@.len() == it0.index(),
//@      forall|i: int, m: Metric| 0 <= i < it0.index() && #[trigger] carries(s.metrics@[i], m) ==> same(m, *metrics_set.m@[i]),
//@ spec: ensures forall|m: Seq<Arc<Metric>>| #[trigger] all_carried(s.metrics@, m) ==> r is Ok && all_same(m, r->Ok_0.m@),
//@end
// what a worker reports, the coordinator gets: the supported metrics, in order
pub fn theorem_metrics_survive_the_wire(set: &MetricsSet) -> (r: Result<MetricsSet, DataFusionError>)
    requires forall|i: int| 0 <= i < set.m@.len() ==> dated(*#[trigger] set.m@[i]),
    ensures r is Ok, all_same(kept(set.m@), r->Ok_0.m@),
{
    match df_metrics_set_to_proto(set) { Ok(p) => metrics_set_proto_to_df(&p), Err(e) => Err(e) }
}
// two reports in a row may change places, and the empty value an aggregation starts from takes part in none:
// the outcome is the same for every order of arrival
pub open spec fn least(a: usize, b: usize) -> usize { if b < a { b } else { a } }
pub open spec fn greatest(a: usize, b: usize) -> usize { if b > a { b } else { a } }
pub proof fn theorem_order_of_reports(x: usize, a: usize, b: usize)
    ensures
        wrap(wrap(x + a) + b) == wrap(wrap(x + b) + a), wrap(0 + a) == a,
        least(least(x, a), b) == least(least(x, b), a), least(usize::MAX, a) == a,
        greatest(greatest(x, a), b) == greatest(greatest(x, b), a), greatest(0, a) == a,
        // no sum is lost as long as it fits
        x + a <= usize::MAX ==> wrap(x + a) == x + a,
{ }
} // verus!
fn main() {}
