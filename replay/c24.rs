//! C24: a partial reduction below a shuffle changes no result, and is inserted only over a partial aggregation.
use super::common::*;
use super::plans::show;
use crate::distributed_planner::vp_inject::reduce;
use crate::*;
use datafusion::arrow::array::{ArrayRef, Int64Array, RecordBatch, StringArray};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
use datafusion::common::tree_node::{Transformed, TreeNode};
use datafusion::datasource::MemTable;
use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties, Partitioning};
use datafusion::prelude::*;
use std::sync::Arc;

type P = Arc<dyn ExecutionPlan>;
fn schema() -> SchemaRef {
    Arc::new(Schema::new(vec![
        Field::new("a", DataType::Int64, true), Field::new("b", DataType::Int64, true), Field::new("c", DataType::Utf8, true), Field::new("v", DataType::Int64, true),
    ]))
}
fn table(r: &mut Rng, most: u64) -> MemTable {
    let parts = (0..r.range(1, most)).map(|_| (0..r.below(3)).map(|_| {
        let n = r.below(12);
        let mut int = |k: u64, nulls: bool| -> ArrayRef { Arc::new(Int64Array::from((0..n).map(|_| if nulls && r.chance(1, 6) { None } else { Some(r.below(k) as i64) }).collect::<Vec<_>>())) };
        let (a, b, v) = (int(3, true), int(3, true), int(20, true));
        let c: ArrayRef = Arc::new(StringArray::from((0..n).map(|_| match r.below(4) { 0 => None, i => Some(["x", "y", "z"][i as usize - 1]) }).collect::<Vec<_>>()));
        RecordBatch::try_new(schema(), vec![a, b, c, v]).unwrap()
    }).collect::<Vec<_>>()).collect::<Vec<_>>();
    MemTable::try_new(schema(), parts).unwrap()
}
const KEYS: [&str; 6] = ["a", "b", "c", "a + b", "v % 3", "case when a = 1 then c else 'o' end"];
const AGGS: [&str; 18] = [
    "count(*)", "count(v)", "sum(v)", "min(v)", "max(c)", "avg(v)", "count(distinct v % 4)", "sum(distinct v % 4)", "sum(v) filter (where v > 7)", "count(*) filter (where c = 'x')",
    "array_agg(v order by v)", "first_value(v order by v, a, b, c)", "last_value(v order by v, a, b, c)", "string_agg(c, ',' order by c)", "bool_or(v > 12)", "round(stddev(v), 5)", "median(v)", "min(a) filter (where b = 1)",
];
fn aggregation(r: &mut Rng, from: &str, keys: &[&str]) -> String {
    let mut ks: Vec<&str> = vec![];
    for _ in 0..r.below(4) { let k = *r.pick(keys); if !ks.contains(&k) { ks.push(k); } }
    let mut out: Vec<String> = ks.iter().enumerate().map(|(i, k)| format!("{k} as k{i}")).collect();
    for i in 0..r.range(1, 4) { out.push(format!("{} as g{i}", r.pick(&AGGS))); }
    let group = if ks.is_empty() { String::new() } else {
        let all = ks.join(", ");
        match r.below(6) {
            0 => format!(" group by rollup({all})"),
            1 => format!(" group by cube({all})"),
            2 => {
                let sets: Vec<String> = (0..r.range(1, 4)).map(|_| format!("({})", ks.iter().filter(|_| r.chance(1, 2)).copied().collect::<Vec<_>>().join(", "))).collect();
                // every key occurs in some set
                format!(" group by grouping sets (({all}), {})", sets.join(", "))
            }
            _ => format!(" group by {all}"),
        }
    };
    if group.contains('(') && !ks.is_empty() && group.starts_with(" group by ") && (group.contains("rollup") || group.contains("cube") || group.contains("sets")) && r.chance(1, 2) { out.push(format!("grouping({}) as gr", ks[0])); }
    let wh = if r.chance(1, 3) { format!(" where v <> {}", r.below(20)) } else { String::new() };
    let having = if r.chance(1, 4) { " having count(*) > 1" } else { "" };
    format!("select {} from {from}{wh}{group}{having}", out.join(", "))
}
fn query(r: &mut Rng) -> String {
    match r.below(10) {
        7 => format!("select {0}, {1} from t group by {0}", ["a", "a, b", "c"][r.below(3) as usize], AGGS[..4].join(", ")),
        0 => format!("select distinct {} from t", ["a", "a, b", "c, a", "a, b, c, v"][r.below(4) as usize]),
        1 => { let q = aggregation(r, "t", &KEYS); format!("select count(*), min(g0) from ({q}) group by g0") }
        2 => format!("select x.a, x.n, y.m from (select a, count(*) n from t group by a) x join (select b, sum(v) m from t group by b) y on x.a = y.b"),
        3 => { let (p, q) = (aggregation(r, "t", &KEYS), r.below(9)); format!("select count(*) from ({p}) union all select sum(v) from t where a < {q} group by b") }
        4 => { let k = ["a", "b", "c"][r.below(3) as usize]; let n = r.range(1, 4); format!("select {k}, max(v) from t group by {k} order by {k} limit {n}") }
        5 => format!("select t.a, count(*), sum(u.v) from t join t u on t.a = u.b and t.c = u.c group by rollup(t.a)"),
        6 => { let f = ["one", "t"][r.below(2) as usize]; format!("select x.n, t.a, t.v from (select a, count(*) n from {f} group by a) x join t on x.n = t.a") }
        _ => aggregation(r, "t", &KEYS),
    }
}
fn is_hash(p: &P) -> bool { p.downcast_ref::<RepartitionExec>().is_some_and(|r| matches!(r.partitioning(), Partitioning::Hash(_, _))) }
fn mode(p: &P) -> Option<AggregateMode> { p.downcast_ref::<AggregateExec>().map(|a| *a.mode()) }
fn up(p: &P, f: impl Fn(&P) -> Option<P>) -> P { Arc::clone(p).transform_up(|n| Ok(match f(&n) { Some(m) => Transformed::yes(m), None => Transformed::no(n) })).unwrap().data }
fn wrapped(p: &P) -> P { up(p, |n| is_hash(n).then(|| Arc::new(NetworkShuffleExec::try_new(Arc::clone(n), 1).unwrap()) as P)) }
fn flat(p: &P) -> P { up(p, |n| n.downcast_ref::<NetworkShuffleExec>().map(|_| Arc::clone(n.children()[0]))) }
fn unreduced(p: &P) -> P { up(p, |n| (mode(n) == Some(AggregateMode::PartialReduce)).then(|| Arc::clone(n.children()[0]))) }
fn count(p: &P, f: &dyn Fn(&P) -> bool) -> usize { f(p) as usize + p.children().iter().map(|c| count(c, f)).sum::<usize>() }
async fn rows(p: P) -> Result<Vec<String>, String> {
    let batches = datafusion::physical_plan::collect(p, Arc::new(datafusion::execution::TaskContext::default())).await.map_err(|e| e.to_string())?;
    let mut out = vec![];
    for b in batches {
        let o = FormatOptions::default().with_null("NULL");
        let cols: Vec<ArrayFormatter> = b.columns().iter().map(|c| ArrayFormatter::try_new(c, &o).unwrap()).collect();
        for i in 0..b.num_rows() { out.push(cols.iter().map(|c| c.value(i).to_string()).collect::<Vec<_>>().join("|")); }
    }
    out.sort();
    Ok(out)
}
/// what is wrong with the plan the pass made of `before`
fn shape(before: &P, after: &P) -> Option<String> {
    if show(&unreduced(after)) != show(before) { return Some("taking the partial reductions out does not give back the plan".into()); }
    let site = |n: &P| n.is_network_boundary() && is_hash(n.children()[0]) && mode(n.children()[0].children()[0]) == Some(AggregateMode::Partial);
    let made = |n: &P| n.is_network_boundary() && mode(n.children()[0]) == Some(AggregateMode::PartialReduce) && is_hash(n.children()[0].children()[0])
        && mode(n.children()[0].children()[0].children()[0]) == Some(AggregateMode::Partial);
    let (want, got, all) = (count(before, &site), count(after, &made), count(after, &|n| mode(n) == Some(AggregateMode::PartialReduce)));
    if got != all { return Some(format!("{all} partial reductions, of which only {got} are between a shuffle and the hash repartition of a partial aggregation")); }
    if got != want { return Some(format!("{got} partial reductions for {want} shuffles of partial aggregations")); }
    None
}
pub fn run(seed: u64, thorough: bool) -> Search {
    let cases = if thorough { 2500 } else { 220 };
    let mut s = Search::new(&format!("{cases} random SQL queries (grouping sets, rollup, cube, filters, distinct and ordered aggregates, joins, unions, limits, some shuffled as a whole) over random tables of up to 4 partitions, one shuffle above every hash repartition"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let mut r = Rng::new(seed ^ 0x24);
    let mut reductions = 0;
    for _ in 0..cases {
        let mut cfg = SessionConfig::new().with_target_partitions(if r.chance(1, 5) { 9 } else { r.range(1, 4) as usize }).with_batch_size(r.range(1, 16) as usize);
        if r.chance(2, 3) {
            cfg.options_mut().optimizer.hash_join_single_partition_threshold = 0;
            cfg.options_mut().optimizer.hash_join_single_partition_threshold_rows = 0;
        }
        let ctx = SessionContext::new_with_config(cfg);
        ctx.register_table("t", Arc::new(table(&mut r, 4))).unwrap();
        ctx.register_table("one", Arc::new(table(&mut r, 1))).unwrap();
        let q = query(&mut r);
        let plan = rt.block_on(async { ctx.sql(&q).await?.create_physical_plan().await });
        let Ok(mut plan) = plan else { continue };
        // a shuffle over a whole query, whatever it ends with
        if r.chance(1, 2) {
            let by = vec![Arc::new(datafusion::physical_expr::expressions::Column::new(plan.schema().field(0).name(), 0)) as Arc<dyn datafusion::physical_plan::PhysicalExpr>];
            plan = Arc::new(RepartitionExec::try_new(plan, Partitioning::Hash(by, r.range(1, 9) as usize)).unwrap());
        }
        s.case();
        let before = wrapped(&plan);
        let off = match reduce(Arc::clone(&before), false) { Ok(p) => p, Err(e) => { s.fail(format!("{q}: switched off, the pass fails: {e}")); return s } };
        if show(&off) != show(&before) { s.fail(format!("{q}: the plan changes though partial_reduce is off:\n{}", show(&off))); return s }
        let after = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| reduce(Arc::clone(&before), true))) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => { s.fail(format!("{q}: the pass fails: {e}\n{}", show(&before))); return s }
            Err(_) => { s.fail(format!("{q}: the pass panics\n{}", show(&before))); return s }
        };
        if let Some(w) = shape(&before, &after) { s.fail(format!("{q}: {w}:\n{}\ngives\n{}", show(&before), show(&after))); return s }
        let n = count(&after, &|n| mode(n) == Some(AggregateMode::PartialReduce));
        reductions += n;
        if n == 0 { continue; }
        let (want, got) = rt.block_on(async { (rows(datafusion::physical_plan::execution_plan::reset_plan_states(Arc::clone(&plan)).unwrap()).await, tokio::spawn(rows(datafusion::physical_plan::execution_plan::reset_plan_states(flat(&after)).unwrap())).await.unwrap_or_else(|e| Err(format!("panic: {e}")))) });
        if want.is_err() { continue; }
        if want != got { s.fail(format!("{q}: {want:?} without, {got:?} with the partial reductions of\n{}", show(&after))); return s }
    }
    s.check(reductions > cases / 2, || format!("only {reductions} partial reductions over {cases} queries"));
    s
}
