//! C15: metrics survive the wire and are aggregated without loss.
use super::common::*;
use crate::protocol::grpc::vp_inject::*;
use crate::*;
use chrono::DateTime;
use datafusion::physical_plan::metrics::{Count, CustomMetricValue, Gauge, Label, Metric, MetricValue, MetricsSet, PruningMetrics, RatioMetrics, Time, Timestamp};
use prost::Message;
use std::any::Any;
use std::fmt::{Display, Formatter};
use std::sync::Arc;
use std::time::Duration;

const KINDS: u64 = 28;

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 30000 } else { 3000 };
    let mut s = Search::new(&format!("{rounds} random sets of 0..=12 metrics of every kind (values 0, 1, small, largest; unset, old and far times; names and labels of any text; with and without partitions; an unsupported kind among them), sent as bytes and read back; {rounds} aggregations of 0..=8 reports of each added kind in two orders"));
    let mut r = Rng::new(seed);
    for i in 0..rounds {
        s.case();
        let n = r.below(13);
        let specs: Vec<(u64, u64)> = (0..n).map(|k| (if k == 0 { i as u64 % KINDS } else { r.below(KINDS) }, r.next())).collect();
        let mut set = MetricsSet::new();
        let mut want = vec![];
        for (kind, sd) in &specs {
            let m = Arc::new(metric(*kind, *sd));
            set.push(Arc::clone(&m));
            if *kind != 27 { want.push(m); }
        }
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<MetricsSet, String> {
            let p = df_metrics_set_to_proto(&set).map_err(|e| format!("encoding fails: {e}"))?;
            let p = pb::MetricsSet::decode(p.encode_to_vec().as_slice()).map_err(|e| format!("the bytes cannot be read: {e}"))?;
            metrics_set_proto_to_df(&p).map_err(|e| format!("decoding fails: {e}"))
        }));
        let what = want.iter().map(show).collect::<Vec<_>>();
        match got {
            Err(_) => { s.fail(format!("sending the metrics {what:?} panics: {}", LAST_PANIC.lock().unwrap())); return s; }
            Ok(Err(e)) => { s.fail(format!("sending the metrics {what:?}: {e}")); return s; }
            Ok(Ok(g)) => {
                let got: Vec<_> = g.iter().map(show).collect();
                if got != what { s.fail(format!("the metrics {what:?} arrive as {got:?}")); return s; }
                for (a, b) in want.iter().zip(g.iter()) { if a.value() != b.value() { s.fail(format!("the metric {} arrives as {}, which is not equal", show(a), show(b))); return s; } }
            }
        }
        if let Err(e) = orders(&mut r, i as u64) { s.fail(e); return s; }
        // a metric without a value, or with a damaged sketch, is refused
        let broken = pb::MetricsSet { metrics: vec![pb::Metric { labels: vec![], partition: None, value: if r.chance(1, 2) { None } else { Some(pb::metric::Value::CustomP50Latency(pb::PercentileLatency { name: "p".into(), sketch_bytes: vec![1, 2, 3] })) } }] };
        if metrics_set_proto_to_df(&broken).is_ok() { s.fail(format!("the damaged metric {broken:?} is accepted")); return s; }
    }
    s
}

/// everything that can be seen of a metric
fn show(m: &Arc<Metric>) -> String {
    let v = match m.value() {
        MetricValue::Custom { value, .. } => {
            let a = value.as_any();
            if let Some(x) = a.downcast_ref::<AvgLatencyMetric>() { format!("Avg {} {}", x.nanos_sum(), x.count()) }
            else if let Some(x) = a.downcast_ref::<P50LatencyMetric>() { format!("P50 {:?}", x.serialize_sketch().unwrap()) }
            else if let Some(x) = a.downcast_ref::<P75LatencyMetric>() { format!("P75 {:?}", x.serialize_sketch().unwrap()) }
            else if let Some(x) = a.downcast_ref::<P95LatencyMetric>() { format!("P95 {:?}", x.serialize_sketch().unwrap()) }
            else if let Some(x) = a.downcast_ref::<P99LatencyMetric>() { format!("P99 {:?}", x.serialize_sketch().unwrap()) }
            else if let Some(x) = a.downcast_ref::<MinLatencyMetric>() { format!("Min {}", x.value()) }
            else if let Some(x) = a.downcast_ref::<MaxLatencyMetric>() { format!("Max {}", x.value()) }
            else if let Some(x) = a.downcast_ref::<FirstLatencyMetric>() { format!("First {}", x.value()) }
            else if let Some(x) = a.downcast_ref::<BytesCounterMetric>() { format!("Bytes {}", x.value()) }
            else if let Some(x) = a.downcast_ref::<MaxGaugeMetric>() { format!("MaxGauge {}", x.value()) }
            else { "unsupported".into() }
        }
        MetricValue::PruningMetrics { pruning_metrics, .. } => format!("Pruning {} {}", pruning_metrics.pruned(), pruning_metrics.matched()),
        MetricValue::Ratio { ratio_metrics, .. } => format!("Ratio {} {}", ratio_metrics.part(), ratio_metrics.total()),
        MetricValue::StartTimestamp(t) => format!("Start {:?}", t.value()),
        MetricValue::EndTimestamp(t) => format!("End {:?}", t.value()),
        v => format!("{:?} {}", std::mem::discriminant(v), v.as_usize()),
    };
    format!("{} = {v} of {:?} [{}]", m.value().name(), m.partition(), m.labels().iter().map(|l| format!("{}={}", l.name(), l.value())).collect::<Vec<_>>().join(","))
}

#[derive(Debug)]
struct Unsupported;
impl Display for Unsupported { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "unsupported") } }
impl CustomMetricValue for Unsupported {
    fn new_empty(&self) -> Arc<dyn CustomMetricValue> { Arc::new(Unsupported) }
    fn aggregate(&self, _: Arc<dyn CustomMetricValue>) {}
    fn as_any(&self) -> &dyn Any { self }
    fn is_eq(&self, _: &Arc<dyn CustomMetricValue>) -> bool { true }
}

fn size(r: &mut Rng) -> usize { match r.below(6) { 0 => 0, 1 => 1, 2 => usize::MAX, 3 => u32::MAX as usize + r.below(3) as usize, _ => r.below(100000) as usize } }
fn word(r: &mut Rng) -> String { match r.below(5) { 0 => String::new(), 1 => "naïve ☃".into(), _ => format!("name{}", r.below(100)) } }
fn count(n: usize) -> Count { let c = Count::new(); c.add(n); c }
fn gauge(n: usize) -> Gauge { let c = Gauge::new(); c.set(n); c }
fn time(n: usize) -> Time { let t = Time::new(); if n > 0 { t.add_duration(Duration::from_nanos(n as u64)); } t }
fn stamp(r: &mut Rng) -> Timestamp {
    let t = Timestamp::new();
    match r.below(5) { 0 => {} 1 => t.set(DateTime::from_timestamp_nanos(-(r.below(1 << 60) as i64))), 2 => t.set(DateTime::from_timestamp_nanos([0, 1, -1, i64::MAX, i64::MIN][r.below(5) as usize])), _ => t.set(DateTime::from_timestamp_nanos(r.below(1 << 62) as i64)) }
    t
}
macro_rules! pct { ($t:ident, $r:expr) => {{ let p = $t::default(); for _ in 0..$r.below(20) { p.add_nanos(1 + size($r) % 1_000_000_000_000); } Arc::new(p) as Arc<dyn CustomMetricValue> }} }

fn custom(kind: u64, r: &mut Rng) -> Arc<dyn CustomMetricValue> {
    match kind {
        17 => { let m = MinLatencyMetric::default(); for _ in 0..r.below(3) { m.add_nanos(size(r)); } Arc::new(m) }
        18 => { let m = MaxLatencyMetric::default(); for _ in 0..r.below(3) { m.add_nanos(size(r)); } Arc::new(m) }
        19 => Arc::new(AvgLatencyMetric::from_raw(size(r), size(r))),
        20 => { let m = FirstLatencyMetric::default(); for _ in 0..r.below(3) { m.add_nanos(size(r)); } Arc::new(m) }
        21 => Arc::new(BytesCounterMetric::from_value(size(r))),
        22 => pct!(P50LatencyMetric, r), 23 => pct!(P75LatencyMetric, r), 24 => pct!(P95LatencyMetric, r), 25 => pct!(P99LatencyMetric, r),
        26 => Arc::new(MaxGaugeMetric::from_value(size(r))),
        _ => Arc::new(Unsupported),
    }
}

fn metric(kind: u64, sd: u64) -> Metric {
    let r = &mut Rng::new(sd);
    let name = word(r);
    let v = match kind {
        0 => MetricValue::OutputRows(count(size(r))), 1 => MetricValue::ElapsedCompute(time(size(r))), 2 => MetricValue::SpillCount(count(size(r))), 3 => MetricValue::SpilledBytes(count(size(r))), 4 => MetricValue::OutputBytes(count(size(r))),
        5 => MetricValue::OutputBatches(count(size(r))), 6 => MetricValue::SpilledRows(count(size(r))), 7 => MetricValue::CurrentMemoryUsage(gauge(size(r))), 8 => MetricValue::Count { name: name.into(), count: count(size(r)) },
        9 => MetricValue::Gauge { name: name.into(), gauge: gauge(size(r)) }, 10 => MetricValue::PeakMemoryUsage { name: name.into(), gauge: gauge(size(r)) }, 11 => MetricValue::Time { name: name.into(), time: time(size(r)) },
        12 => MetricValue::StartTimestamp(stamp(r)), 13 => MetricValue::EndTimestamp(stamp(r)),
        14 => { let p = PruningMetrics::new(); p.add_pruned(size(r)); p.add_matched(size(r)); MetricValue::PruningMetrics { name: name.into(), pruning_metrics: p } }
        15 | 16 => { let p = RatioMetrics::new(); p.set_part(size(r)); p.set_total(size(r)); MetricValue::Ratio { name: name.into(), ratio_metrics: p } }
        k => MetricValue::Custom { name: name.into(), value: custom(k, r) },
    };
    let labels = (0..r.below(4)).map(|_| Label::new(word(r), word(r))).collect();
    let partition = match r.below(3) { 0 => None, 1 => Some(r.below(100) as usize), _ => Some(usize::MAX) };
    Metric::new_with_labels(v, partition, labels)
}

/// the reports of several tasks, aggregated in two orders
fn orders(r: &mut Rng, i: u64) -> Result<(), String> {
    let kind = 17 + i % 10;
    if kind == 20 {
        // the first latency is the first one set, if any is
        let ms: Vec<_> = (0..r.below(5)).map(|_| custom(20, r)).collect();
        let e = FirstLatencyMetric::default();
        for m in &ms { e.aggregate(Arc::clone(m)); }
        let all: Vec<usize> = ms.iter().map(|m| m.as_usize()).filter(|v| *v > 0).collect();
        let ok = if all.is_empty() { e.value() == 0 } else { e.value() == all[0] };
        return if ok { Ok(()) } else { Err(format!("first latencies {:?} aggregate to {}", ms.iter().map(|m| m.as_usize()).collect::<Vec<_>>(), e.value())) };
    }
    let seeds: Vec<u64> = (0..r.below(9)).map(|_| r.next()).collect();
    let small = |sd: u64| -> Arc<dyn CustomMetricValue> {
        let r = &mut Rng::new(sd);
        let v = |r: &mut Rng| r.below(1 << 40) as usize;
        match kind { 19 => Arc::new(AvgLatencyMetric::from_raw(v(r), v(r))), 21 => Arc::new(BytesCounterMetric::from_value(v(r))), k => custom(k, r) }
    };
    let ms: Vec<_> = seeds.iter().map(|x| small(*x)).collect();
    let mut other: Vec<_> = (0..ms.len()).collect();
    for k in (1..other.len()).rev() { other.swap(k, r.below(k as u64 + 1) as usize); }
    let fold = |order: &[usize]| -> Arc<dyn CustomMetricValue> { let e = small(1).new_empty(); for k in order { e.aggregate(Arc::clone(&ms[*k])); } e };
    let straight: Vec<_> = (0..ms.len()).collect();
    let (a, b) = (fold(&straight), fold(&other));
    let texts: Vec<_> = ms.iter().map(|m| format!("{m:?}")).collect();
    if !a.is_eq(&b) || a.as_usize() != b.as_usize() || (!(22..=25).contains(&kind) && format!("{a:?}") != format!("{b:?}")) { return Err(format!("the reports {texts:?} aggregate to {a:?} = {} and in the order {other:?} to {b:?} = {}", a.as_usize(), b.as_usize())); }
    let vs: Vec<usize> = ms.iter().map(|m| m.as_usize()).collect();
    let want = match kind {
        17 => vs.iter().copied().min().unwrap_or(usize::MAX),
        18 | 26 => vs.iter().copied().max().unwrap_or(0),
        21 => vs.iter().sum(),
        19 => { let f = |g: fn(&AvgLatencyMetric) -> usize| ms.iter().map(|m| g(m.as_any().downcast_ref().unwrap())).sum::<usize>(); f(|m| m.nanos_sum()) / f(|m| m.count()).max(1) }
        _ => { let n = |m: &Arc<dyn CustomMetricValue>| { let a = m.as_any(); a.downcast_ref::<P50LatencyMetric>().map(|p| p.count()).or(a.downcast_ref::<P75LatencyMetric>().map(|p| p.count())).or(a.downcast_ref::<P95LatencyMetric>().map(|p| p.count())).or(a.downcast_ref::<P99LatencyMetric>().map(|p| p.count())).unwrap_or(0) };
            let (x, y) = (n(&a), ms.iter().map(n).sum::<usize>());
            return if x == y { Ok(()) } else { Err(format!("the reports {texts:?} aggregate to {x} values instead of {y}")) } }
    };
    if a.as_usize() != want { return Err(format!("the reports {texts:?} aggregate to {} instead of {want}", a.as_usize())); }
    // a report of another kind is ignored
    let before = format!("{a:?}");
    a.aggregate(Arc::new(Unsupported));
    if format!("{a:?}") != before { return Err(format!("a report of another kind turns {before} into {a:?}")); }
    Ok(())
}
