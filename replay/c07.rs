//! C07: stage task counts respect declared limits and agree on both sides.
use super::common::*;
use super::plans::*;
use crate::distributed_planner::inject_network_boundaries::{inject_network_boundaries, CardinalityBasedNetworkBoundaryBuilder};
use crate::execution_plans::{BroadcastExec, ChildrenIsolatorUnionExec};
use crate::stage::LocalStage;
use crate::*;
use datafusion::common::JoinType;
use datafusion::physical_expr::Distribution;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties, Partitioning};
use std::collections::HashSet;
use std::sync::Arc;
use TaskCountAnnotation::{Desired, Maximum};

/// joins whose build side, gathered in one place, cannot be shared between tasks
pub fn one_task_join(p: &Arc<dyn ExecutionPlan>, broadcast: bool) -> bool {
    let shareable = |t: &JoinType| matches!(t, JoinType::Inner | JoinType::Right | JoinType::RightSemi | JoinType::RightAnti | JoinType::RightMark);
    if let Some(j) = p.downcast_ref::<HashJoinExec>() { return *j.partition_mode() == PartitionMode::CollectLeft && (!broadcast || j.null_aware || !shareable(j.join_type())); }
    if let Some(j) = p.downcast_ref::<NestedLoopJoinExec>() { return !broadcast || !shareable(j.join_type()); }
    p.is::<CrossJoinExec>() && !broadcast
}
/// what one stage (or one isolated child of it) declares
#[derive(Default)]
struct Seen { maxima: Vec<(String, usize)>, desired: Vec<usize>, only_desired: bool, stages: Vec<LocalStage>, problems: Vec<String> }
/// no boundary and no isolated union below
fn plain(p: &Arc<dyn ExecutionPlan>) -> bool { !p.is_network_boundary() && !p.is::<ChildrenIsolatorUnionExec>() && p.children().into_iter().all(plain) }
/// walks the operators that run in `tasks` tasks
fn walk(p: &Arc<dyn ExecutionPlan>, tasks: usize, broadcast: bool, exact: bool, s: &mut Seen) {
    if let Some(nb) = p.as_network_boundary() {
        match nb.input_stage() {
            Stage::Local(l) => {
                let head = &l.plan;
                let ok = if p.is::<NetworkShuffleExec>() { head.downcast_ref::<RepartitionExec>().is_some_and(|r| matches!(r.partitioning(), Partitioning::Hash(..))) }
                    else if p.is::<NetworkBroadcastExec>() { head.is::<BroadcastExec>() }
                    else { true };
                if !ok { s.problems.push(format!("{} over {}", p.name(), head.name())); }
                s.stages.push(l.clone());
            }
            _ => s.problems.push("boundary without a planned stage".into()),
        }
        s.only_desired = false;
        return;
    }
    if let Some(u) = p.downcast_ref::<ChildrenIsolatorUnionExec>() {
        if u.task_idx_map.len() != tasks { s.problems.push(format!("isolated union laid out for {} tasks in a stage of {tasks}", u.task_idx_map.len())); }
        let counts = u.child_task_counts();
        s.only_desired = false;
        for (i, c) in p.children().into_iter().enumerate() {
            let mut sub = Seen { only_desired: true, ..Default::default() };
            walk(c, counts[i], broadcast, false, &mut sub);
            if counts[i] < 1 || counts[i] > tasks { s.problems.push(format!("child {i} of a union gets {} of {tasks} tasks", counts[i])); }
            for (who, m) in &sub.maxima { if counts[i] > *m { s.problems.push(format!("child {i} of a union runs in {} tasks, but {who} allows {m}", counts[i])); } }
            s.stages.append(&mut sub.stages);
            s.problems.append(&mut sub.problems);
        }
        return;
    }
    if let Some(t) = p.downcast_ref::<Tag>() {
        match t.wish {
            Some(Maximum(n)) => { s.maxima.push((format!("Tag {}", t.id), n.max(1))); s.only_desired = false; }
            Some(Desired(n)) => s.desired.push(n.max(1)),
            None => if t.input.is_none() { s.maxima.push((format!("Tag {} (no wish)", t.id), 1)); s.only_desired = false; }
        }
        if t.input.is_none() && t.scaled != Some(tasks) { s.problems.push(format!("leaf {} prepared for {:?} tasks runs in {tasks}", t.id, t.scaled)); }
    }
    if one_task_join(p, broadcast) { s.maxima.push((format!("{} that cannot be split", p.name()), 1)); s.only_desired = false; }
    // operators that rely on one partition: no boundary below in this stage, so each task has one of its own
    for (i, d) in p.input_distribution_requirements().into_per_child().into_iter().enumerate() {
        let c = p.children()[i];
        let broadcast = c.is::<CoalescePartitionsExec>() && c.children()[0].is::<NetworkBroadcastExec>();
        match d {
            Distribution::UnspecifiedDistribution => {}
            Distribution::SinglePartition => if !broadcast { s.maxima.push((format!("{} over a single partition", p.name()), 1)); s.only_desired = false; },
            _ => { s.only_desired = false; if plain(c) && c.output_partitioning().partition_count() == 1 { s.maxima.push((format!("{} over a lone partition", p.name()), 1)); } }
        }
    }
    if p.fetch().is_some() { s.only_desired = false; if plain(p) && p.output_partitioning().partition_count() == 1 { s.maxima.push((format!("limit of {}", p.name()), 1)); } }
    let _ = exact;
    for c in p.children() {
        let folds = p.is::<CoalescePartitionsExec>() || p.is::<SortPreservingMergeExec>();
        let ok = !folds || c.as_network_boundary().is_some_and(|_| !c.is::<NetworkShuffleExec>() || true);
        if !ok { s.problems.push(format!("{} over {} without a boundary", p.name(), c.name())); }
        if let Some(r) = c.downcast_ref::<RepartitionExec>() { if matches!(r.partitioning(), Partitioning::Hash(..)) { s.problems.push("a hash repartition inside a stage".into()); } }
        if c.is::<BroadcastExec>() { s.problems.push("a broadcast inside a stage".into()); }
        walk(c, tasks, broadcast, exact, s);
    }
}
pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 60000 } else { 6000 };
    let mut s = Search::new(&format!("merge and limit over counts 0..=7 and 2^64-1; {rounds} random plans of depth 5 (joins, isolated unions, broadcasts, shuffles, sorts, coalesces) with wishes 0..=5 or 1000, 0..=6 workers, task limits 0..=5, broadcast joins on and off"));
    let vals: Vec<usize> = (0..=7).chain([usize::MAX]).collect();
    let all: Vec<TaskCountAnnotation> = vals.iter().flat_map(|v| [Desired(*v), Maximum(*v)]).collect();
    for a in &all {
        for l in vals.iter().filter(|l| **l > 0) {
            s.case();
            let r = a.limit(*l);
            s.check(r.as_usize() == a.as_usize().clamp(1, *l) && matches!(r, Maximum(_)) == matches!(a, Maximum(_)), || format!("{a:?}.limit({l}) is {r:?}"));
        }
        for b in &all {
            s.case();
            let (x, y) = (a.merge(*b), b.merge(*a));
            let same = |a: &TaskCountAnnotation, b: &TaskCountAnnotation| matches!(a, Maximum(_)) == matches!(b, Maximum(_)) && a.as_usize() == b.as_usize();
            s.check(same(&x, &y), || format!("{a:?} merged with {b:?} is {x:?}, the other way round {y:?}"));
            let want = match (a, b) { (Desired(p), Desired(q)) => Desired(*p.max(q)), (Maximum(p), Maximum(q)) => Maximum(*p.min(q)), (Maximum(p), _) => Maximum(*p), (_, Maximum(q)) => Maximum(*q) };
            s.check(same(&x, &want), || format!("{a:?} merged with {b:?} is {x:?}"));
        }
    }
    if s.failed() { return s; }
    let mut r = Rng::new(seed);
    block_on(async {
        for _ in 0..rounds {
            s.case();
            let plan = Gen { r: &mut r, next: 0, shape: Shape { big: true, ..Shape::ALL } }.plan(5);
            let (workers, max, broadcast) = (r.below(7) as usize, *r.pick(&[0usize, 0, 1, 2, 3, 5]), r.chance(1, 2));
            let cap = if max == 0 { workers.max(1) } else { max };
            let cfg = tag_session(workers, max, broadcast);
            let shown = format!("{workers} workers, max_tasks_per_stage {max}, broadcast joins {broadcast}: {}", show(&plan));
            let f = std::panic::AssertUnwindSafe(inject_network_boundaries(plan, CardinalityBasedNetworkBoundaryBuilder, &cfg));
            let out = match futures::FutureExt::catch_unwind(f).await {
                Err(_) => { s.fail(format!("{shown} panics at {}", LAST_PANIC.lock().unwrap())); return; }
                Ok(Err(e)) => { s.fail(format!("{shown} fails: {e}")); return; }
                Ok(Ok(p)) => p,
            };
            // the head of the plan
            let mut todo: Vec<LocalStage> = vec![];
            let mut nums = HashSet::new();
            let mut first = true;
            while first || !todo.is_empty() {
                let (p, tasks, num) = if first { (Arc::clone(&out), None, 0) } else { let l = todo.pop().unwrap(); (Arc::clone(&l.plan), Some(l.tasks), l.num) };
                first = false;
                let Some(tasks) = tasks else {
                    // the head stage: its count is only seen at its leaves
                    if p.is_network_boundary() { let mut seen = Seen::default(); walk(&p, 1, broadcast, true, &mut seen); todo.append(&mut seen.stages); }
                    else {
                        let mut ok = None;
                        for t in 1..=cap { let mut seen = Seen { only_desired: true, ..Default::default() }; walk(&p, t, broadcast, true, &mut seen);
                            if t == 1 || ok.is_none() { if seen.problems.is_empty() && seen.maxima.iter().all(|(_, m)| t <= *m) { ok = Some(seen) } else if t == cap { ok = Some(Seen { problems: seen.problems, ..Default::default() }) } } }
                        let mut seen = ok.unwrap();
                        if let Some(p) = seen.problems.first() { s.fail(format!("{shown}: head stage: {p}; planned {}", show(&out))); return; }
                        todo.append(&mut seen.stages);
                    }
                    continue;
                };
                if !nums.insert(num) { s.fail(format!("{shown}: two stages are numbered {num}")); return; }
                if tasks < 1 || tasks > cap { s.fail(format!("{shown}: stage {num} gets {tasks} tasks, allowed 1..={cap}")); return; }
                let mut seen = Seen { only_desired: true, ..Default::default() };
                walk(&p, tasks, broadcast, false, &mut seen);
                for (who, m) in &seen.maxima { if tasks > *m { s.fail(format!("{shown}: stage {num} gets {tasks} tasks, but {who} allows {m}; planned {}", show(&out))); return; } }
                if let Some(x) = seen.problems.first() { s.fail(format!("{shown}: stage {num}: {x}; planned {}", show(&out))); return; }
                if seen.only_desired { let want = seen.desired.iter().copied().max().unwrap_or(1).min(cap); if tasks != want { s.fail(format!("{shown}: stage {num} gets {tasks} tasks, its operators want {want}")); return; } }
                todo.append(&mut seen.stages);
            }
        }
    });
    s
}
