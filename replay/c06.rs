//! C06: an isolated union runs each child in its planned tasks, exactly once.
use super::common::*;
use super::plans::*;
use crate::execution_plans::{ChildWeight, ChildrenIsolatorUnionExec};
use crate::*;
use datafusion::arrow::array::{Array, AsArray};
use datafusion::arrow::datatypes::Int64Type;
use datafusion::execution::TaskContext;
use datafusion::prelude::SessionConfig;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use std::collections::BTreeMap;
use std::sync::Arc;

/// child, partition, task of the child, tasks of the child
type Row = (i64, i64, i64, i64);
async fn run_task(n: &Arc<dyn ExecutionPlan>, t: usize, tasks: usize) -> Result<Vec<Vec<Row>>, String> {
    let ctx = Arc::new(TaskContext::default().with_session_config(SessionConfig::new().with_extension(Arc::new(DistributedTaskContext { task_index: t, task_count: tasks }))));
    let mut out = vec![];
    for q in 0..n.output_partitioning().partition_count() {
        let st = match no_panic(|| n.execute(q, Arc::clone(&ctx))) {
            Ok(Ok(st)) => st,
            Ok(Err(e)) => return Err(format!("task {t} partition {q}: error {e}")),
            Err(e) => return Err(format!("task {t} partition {q}: panic {e}")),
        };
        let mut rows = vec![];
        for b in drain(st).await.map_err(|e| format!("task {t} partition {q}: stream error {e}"))? {
            let c: Vec<_> = (0..4).map(|i| b.column(i).as_primitive::<Int64Type>().clone()).collect();
            for r in 0..c[0].len() { rows.push((c[0].value(r), c[1].value(r), c[2].value(r), c[3].value(r))); }
        }
        out.push(rows);
    }
    Ok(out)
}
async fn one(s: &mut Search, parts: &[usize], w: &[ChildWeight], budget: usize, thorough: bool) {
    s.case();
    let case = format!("children with {parts:?} partitions, weights {:?}, budget {budget}", w.iter().map(|x| (x.weight, x.max)).collect::<Vec<_>>());
    let kids: Vec<Arc<dyn ExecutionPlan>> = parts.iter().enumerate().map(|(i, p)| Arc::new(Tag::new(i, *p, None, None)) as _).collect();
    let n = match no_panic(|| ChildrenIsolatorUnionExec::from_children_and_weights(kids.clone(), w.to_vec(), budget)) {
        Ok(Ok(n)) => n,
        Ok(Err(e)) => { s.check(budget == 0 || parts.is_empty() || w.iter().any(|x| x.max == Some(0)) || w.len() != parts.len(), || format!("{case}: refused: {e}")); return; }
        Err(e) => { s.fail(format!("{case}: panic {e}")); return; }
    };
    s.check(w.len() == parts.len() && budget > 0 && w.iter().all(|x| x.max != Some(0)), || format!("{case}: accepted"));
    let counts = n.child_task_counts();
    s.check(counts.len() == parts.len(), || format!("{case}: counts {counts:?}"));
    for (i, x) in w.iter().enumerate() {
        let got = counts.get(i).copied().unwrap_or(0);
        s.check(got >= 1 && got <= budget && x.max.is_none_or(|m| got <= m), || format!("{case}: child {i} in {got} tasks"));
    }
    if s.failed() { return; }
    let adv = n.properties().partitioning.partition_count();
    let n = Arc::new(n);
    let mut variants: Vec<(&str, Arc<dyn ExecutionPlan>)> = vec![("built", n.clone() as _)];
    match no_panic(|| n.clone().with_new_children(kids.clone())) {
        Ok(Ok(m)) => variants.push(("with_new_children", m)),
        Ok(Err(e)) => { s.fail(format!("{case}: with_new_children: {e}")); return; }
        Err(e) => { s.fail(format!("{case}: with_new_children: panic {e}")); return; }
    }
    let more: Vec<_> = kids.iter().cloned().chain(kids.first().cloned()).collect();
    s.check(n.clone().with_new_children(more).is_err(), || format!("{case}: with_new_children took another number of children"));
    for (what, v) in &variants {
        s.check(v.output_partitioning().partition_count() == adv, || format!("{case}: {what}: {} partitions, was {adv}", v.output_partitioning().partition_count()));
        let mut seen: BTreeMap<Row, usize> = BTreeMap::new();
        let mut widest = 0;
        for t in 0..budget {
            let r = match run_task(v, t, budget).await { Ok(r) => r, Err(e) => { s.fail(format!("{case}: {what}: {e}")); return; } };
            let used = r.iter().rposition(|x| !x.is_empty()).map(|x| x + 1).unwrap_or(0);
            widest = widest.max(used);
            for (q, rows) in r.iter().enumerate() {
                s.check(rows.len() == usize::from(q < used), || format!("{case}: {what}: task {t} partition {q} gives {rows:?}, {used} partitions are used"));
                for x in rows { *seen.entry(*x).or_default() += 1; }
            }
            // partitions are those of the children, child after child
            let flat: Vec<_> = r.iter().flatten().collect();
            for p in flat.windows(2) { s.check(if p[0].1 + 1 < parts[p[0].0 as usize] as i64 { p[1].0 == p[0].0 && p[1].1 == p[0].1 + 1 } else { p[1].1 == 0 }, || format!("{case}: {what}: task {t}: {:?} follows {:?}", p[1], p[0])); }
            if *what == "built" {
                let sp: Arc<dyn ExecutionPlan> = Arc::new(n.to_task_specialized(t));
                s.check(sp.output_partitioning().partition_count() == adv, || format!("{case}: specialized to task {t}: {} partitions", sp.output_partitioning().partition_count()));
                match run_task(&sp, t, budget).await {
                    Ok(r2) => s.check(r2 == r, || format!("{case}: specialized to task {t}: {r2:?} instead of {r:?}")),
                    Err(e) => s.fail(format!("{case}: specialized to task {t}: {e}")),
                }
            }
            if s.failed() { return; }
        }
        s.check(widest == adv, || format!("{case}: {what}: advertises {adv} partitions, the widest task has {widest}"));
        let mut want: BTreeMap<Row, usize> = BTreeMap::new();
        for (c, p) in parts.iter().enumerate() { for i in 0..counts[c] { for q in 0..*p { want.insert((c as i64, q as i64, i as i64, counts[c] as i64), 1); } } }
        if seen != want {
            let x = seen.iter().find(|(k, v)| want.get(k) != Some(v)).map(|(k, v)| format!("{k:?} produced {v} times")).or_else(|| want.keys().find(|k| !seen.contains_key(k)).map(|k| format!("{k:?} never produced")));
            s.fail(format!("{case}: {what}: (child, partition, its task, its tasks) {}", x.unwrap_or_default()));
        }
        if s.failed() { return; }
    }
    let _ = thorough;
}

pub fn run(seed: u64, thorough: bool) -> Search {
    let (n1, n2) = if thorough { (5, 4000) } else { (4, 700) };
    let mut s = Search::new(&format!("up to {n1} children (every combination, or evenly spaced ones where there are more than {}) with weight 0, 1 or 3 and cap none, 1 or 2, budget 1..={}; {n2} random unions of up to 12 children, budgets up to 20; {} stages of up to 7 tasks with up to 3 levels of unions, cut into tasks by the coordinator; every partition of every task is run", if thorough { 3000 } else { 250 }, n1 + 1, n2 * 2));
    let mut r = Rng::new(seed);
    block_on(async {
        one(&mut s, &[], &[], 1, thorough).await;
        one(&mut s, &[1], &[ChildWeight::desired(1.)], 0, thorough).await;
        one(&mut s, &[1], &[ChildWeight::maximum(0)], 2, thorough).await;
        one(&mut s, &[1, 1], &[ChildWeight::desired(1.)], 2, thorough).await;
        let opts: Vec<ChildWeight> = [0., 1., 3.].iter().flat_map(|w| [None, Some(1), Some(2)].map(|max| ChildWeight { weight: *w, max })).collect();
        for n in 1..=n1 {
            let total = opts.len().pow(n as u32);
            let step = (total / if thorough { 3000 } else { 250 }).max(1);
            let mut k = r.below(step as u64) as usize;
            while k < total {
                let mut x = k; let mut w = vec![]; let mut p = vec![];
                for i in 0..n { w.push(opts[x % opts.len()]); p.push(1 + (x / opts.len() + i) % 3); x /= opts.len(); }
                one(&mut s, &p, &w, 1 + k % (n1 + 1), thorough).await;
                if s.failed() { return; }
                k += step;
            }
        }
        for _ in 0..n2 {
            let n = r.range(1, 12) as usize;
            let p: Vec<usize> = (0..n).map(|_| if r.chance(1, 9) { 0 } else { r.range(1, 5) as usize }).collect();
            if p.iter().all(|x| *x == 0) || p.contains(&0) { continue; }
            let w: Vec<ChildWeight> = (0..n).map(|_| match r.below(5) { 0 => ChildWeight::maximum(r.range(1, 5) as usize), 1 => ChildWeight::desired(0.), 2 => ChildWeight::desired(r.range(1, 1_000_000) as f64 / 7.), 3 => ChildWeight { weight: r.range(0, 9) as f64, max: Some(r.range(1, 3) as usize) }, _ => ChildWeight::desired(r.range(1, 9) as f64) }).collect();
            one(&mut s, &p, &w, r.range(1, 20) as usize, thorough).await;
            if s.failed() { return; }
        }
        for _ in 0..n2 * 2 {
            s.case();
            if let Err(e) = super::nested::nested_case(&mut r) { s.fail(e); return; }
        }
        // one task runs all children
        for n in 1..5usize {
            let kids: Vec<Arc<dyn ExecutionPlan>> = (0..n).map(|i| Arc::new(Tag::new(i, i + 1, None, None)) as _).collect();
            let u: Arc<dyn ExecutionPlan> = Arc::new(ChildrenIsolatorUnionExec::new_single_task(kids).unwrap());
            let r = run_task(&u, 0, 1).await.unwrap();
            let want: Vec<Vec<Row>> = (0..n).flat_map(|i| (0..=i).map(move |q| vec![(i as i64, q as i64, 0, 1)])).collect();
            s.check(r == want, || format!("single task union of {n}: {r:?}"));
        }
    });
    s
}
