//! Shared parts of the bounded searches: they run against the real crate (this directory is
//! compiled into a scratch copy of /repo/src made from the current tree).
#![allow(dead_code)]
use crate::distributed_planner::ProducerHead;
use crate::stage::RemoteStage;
use crate::*;
use async_trait::async_trait;
use datafusion::arrow::array::{ArrayRef, Int64Array, RecordBatch, StringArray};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::Result;
use datafusion::error::DataFusionError;
use datafusion::execution::TaskContext;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::stream::{self, BoxStream, StreamExt};
use http::HeaderMap;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use url::Url;
use uuid::Uuid;

/// A small deterministic generator (no external crate).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { (self.next() >> 11) % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

/// What a search did: cases tried, and the first failing one.
pub struct Search {
    pub cases: u64,
    pub bound: String,
    pub failure: Option<String>,
    pub known: BTreeMap<String, String>,
}
impl Search {
    pub fn new(bound: &str) -> Self {
        Search { cases: 0, bound: bound.to_string(), failure: None, known: BTreeMap::new() }
    }
    pub fn case(&mut self) {
        self.cases += 1;
    }
    pub fn fail(&mut self, msg: String) {
        if self.failure.is_none() {
            self.failure = Some(msg);
        }
    }
    /// a failure with an identity, which the known-findings file may list
    pub fn fail_id(&mut self, id: &str, msg: String) {
        self.known.entry(id.to_string()).or_insert(msg);
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(msg());
        }
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
}

pub fn urls(n: usize) -> Vec<Url> {
    (0..n).map(|i| Url::parse(&format!("http://w{i}:1")).unwrap()).collect()
}
pub fn remote(n: usize) -> Stage {
    Stage::Remote(RemoteStage { query_id: Uuid::from_u128(7), num: 3, workers: urls(n), runtime_stats: None })
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Read {
    pub url: String,
    pub stage: usize,
    pub task: usize,
    pub partition: usize,
    pub lo: usize,
    pub hi: usize,
    pub head: String,
}
pub fn head_str(h: &ProducerHead) -> String {
    match h {
        ProducerHead::None => "none".into(),
        ProducerHead::BroadcastExec { output_partitions } => format!("broadcast({output_partitions})"),
        ProducerHead::RepartitionExec { partitioning } => match partitioning {
            MaybeEncoded::Decoded(p) => format!("repartition({p})"),
            MaybeEncoded::Encoded(b) => format!("repartition(encoded {} bytes)", b.len()),
        },
    }
}
pub fn read_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![
        Field::new("url", DataType::Utf8, false),
        Field::new("stage", DataType::Int64, false),
        Field::new("task", DataType::Int64, false),
        Field::new("partition", DataType::Int64, false),
        Field::new("lo", DataType::Int64, false),
        Field::new("hi", DataType::Int64, false),
        Field::new("head", DataType::Utf8, false),
    ]))
}
/// Channel resolver whose workers answer every partition stream with one row saying what was asked.
#[derive(Clone, Default)]
pub struct MockResolver {
    pub log: Arc<Mutex<Vec<Read>>>,
}
pub struct MockChannel {
    url: String,
    log: Arc<Mutex<Vec<Read>>>,
}
#[async_trait]
impl ChannelResolver for MockResolver {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>, DataFusionError> {
        Ok(Box::new(MockChannel { url: url.to_string(), log: Arc::clone(&self.log) }))
    }
}
#[async_trait]
impl WorkerChannel for MockChannel {
    async fn coordinator_channel(
        &mut self,
        _h: HeaderMap,
        _s: SetPlanRequest,
        _c: BoxStream<'static, CoordinatorToWorkerMsg>,
        _m: ExecutionPlanMetricsSet,
        _t: &Arc<TaskContext>,
    ) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        Ok(stream::empty().boxed())
    }
    async fn execute_task(
        &mut self,
        _h: HeaderMap,
        r: ExecuteTaskRequest,
        _m: ExecutionPlanMetricsSet,
        _t: &Arc<TaskContext>,
    ) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        let mut out = vec![];
        for p in r.target_partition_start..r.target_partition_end {
            let rd = Read {
                url: self.url.clone(),
                stage: r.task_key.stage_id,
                task: r.task_key.task_number,
                partition: p,
                lo: r.target_partition_start,
                hi: r.target_partition_end,
                head: head_str(&r.producer_head),
            };
            self.log.lock().unwrap().push(rd.clone());
            let i = |v: usize| Arc::new(Int64Array::from(vec![v as i64])) as ArrayRef;
            let s = |v: &str| Arc::new(StringArray::from(vec![v.to_string()])) as ArrayRef;
            let b = RecordBatch::try_new(
                read_schema(),
                vec![s(&rd.url), i(rd.stage), i(rd.task), i(rd.partition), i(rd.lo), i(rd.hi), s(&rd.head)],
            )?;
            out.push(stream::iter(vec![Ok(b)]).boxed());
        }
        Ok(out)
    }
    async fn get_worker_info(&mut self, _r: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> {
        Ok(GetWorkerInfoResponse { version: "".into() })
    }
}
pub fn reads_of(batches: &[RecordBatch]) -> Vec<Read> {
    let mut out = vec![];
    for b in batches {
        let s = |c: usize| b.column(c).as_any().downcast_ref::<StringArray>().unwrap().clone();
        let i = |c: usize| b.column(c).as_any().downcast_ref::<Int64Array>().unwrap().clone();
        for r in 0..b.num_rows() {
            out.push(Read {
                url: s(0).value(r).to_string(),
                stage: i(1).value(r) as usize,
                task: i(2).value(r) as usize,
                partition: i(3).value(r) as usize,
                lo: i(4).value(r) as usize,
                hi: i(5).value(r) as usize,
                head: s(6).value(r).to_string(),
            });
        }
    }
    out.sort();
    out
}
/// Task context of consumer task `i` of `n`, resolving workers to the mock.
pub fn mock_ctx(mock: &MockResolver, i: usize, n: usize) -> Arc<TaskContext> {
    let mut cfg = SessionConfig::new();
    crate::protocol::set_distributed_channel_resolver(&mut cfg, mock.clone());
    cfg.set_extension(Arc::new(DistributedTaskContext { task_index: i, task_count: n }));
    SessionContext::new_with_config(cfg).task_ctx()
}
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap().block_on(f)
}
pub async fn drain(s: datafusion::execution::SendableRecordBatchStream) -> Result<Vec<RecordBatch>> {
    let mut s = s;
    let mut v = vec![];
    while let Some(b) = s.next().await {
        v.push(b?);
    }
    Ok(v)
}
/// where the last panic was raised
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
/// runs `f`, turning a panic into Err(text)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".into() }
    })
}
