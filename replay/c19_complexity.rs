//! Injected into src/distributed_planner/statistics/complexity.rs for C19.
use super::*;
use crate::vp_replay::common::*;
use datafusion::common::stats::Precision;
use datafusion::common::ColumnStatistics;

pub(crate) const SIZES: [usize; 12] = [0, 1, 2, 3, 7, 1000, 1 << 20, 1 << 32, (1 << 63) - 1, 1 << 63, usize::MAX - 1, usize::MAX];
fn tree(r: &mut Rng, depth: u32) -> Complexity {
    if depth == 0 || r.chance(1, 5) {
        return match r.below(8) {
            0 => Complexity::Constant(*r.pick(&[0., 1., 0.5, 1e9, 1e30, f32::MAX])),
            1 => Complexity::Linear(LinearComplexity::Column(r.below(3) as usize)),
            2 => Complexity::Linear(LinearComplexity::AllColumns),
            3 => Complexity::Linear(LinearComplexity::ColumnFromLeft(r.below(3) as usize)),
            4 => Complexity::Linear(LinearComplexity::AllColumnsFromLeft),
            5 => Complexity::Linear(LinearComplexity::ColumnFromRight(r.below(3) as usize)),
            6 => Complexity::Linear(LinearComplexity::AllColumnsFromRight),
            _ => Complexity::Linear(LinearComplexity::AllOutputColumns),
        };
    }
    let (a, b) = (tree(r, depth - 1), tree(r, depth - 1));
    match r.below(6) {
        0 => a.log(b),
        1 => a.plus(b),
        2 => a.multiply(b),
        3 => Complexity::Log(Box::new(a), Box::new(b)),
        4 => Complexity::Plus(Box::new(a), Box::new(b)),
        _ => Complexity::Multiply(Box::new(a), Box::new(b)),
    }
}
fn prec(v: Option<usize>) -> Precision<usize> { match v { None => Precision::Absent, Some(v) => Precision::Inexact(v) } }
fn stats(v: &[Option<usize>]) -> Arc<Statistics> {
    Arc::new(Statistics { num_rows: Precision::Absent, total_byte_size: prec(v[0]), column_statistics: v[1..].iter().map(|b| ColumnStatistics { byte_size: prec(*b), ..ColumnStatistics::new_unknown() }).collect() })
}
pub(crate) fn check(s: &mut Search, r: &mut Rng, rounds: usize) {
    for _ in 0..rounds {
        s.case();
        let c = tree(r, 4);
        let shown = format!("{c:?}").chars().take(400).collect::<String>();
        // two sets of statistics, the second at least as large everywhere
        let children = r.below(3) as usize;
        let (mut small, mut big) = (vec![], vec![]);
        for _ in 0..=children {
            let (mut a, mut b) = (vec![], vec![]);
            for _ in 0..1 + r.below(3) {
                if r.chance(1, 8) { a.push(None); b.push(None); continue; }
                let (x, y) = (*r.pick(&SIZES), *r.pick(&SIZES));
                a.push(Some(x.min(y)));
                b.push(Some(x.max(y)));
            }
            small.push(a);
            big.push(b);
        }
        let run = |v: &Vec<Vec<Option<usize>>>| {
            let out = stats(&v[0]);
            let ins: Vec<_> = v[1..].iter().map(|x| stats(x)).collect();
            no_panic(|| c.cost(&out, &ins))
        };
        match (run(&small), run(&big)) {
            (Ok(x), Ok(y)) => {
                s.check(x.is_some() == y.is_some(), || format!("{shown}: cost is {x:?} for {small:?} and {y:?} for {big:?}"));
                if let (Some(x), Some(y)) = (x, y) {
                    s.check(x <= y, || format!("{shown}: cost falls from {x} to {y} when the sizes (output, then inputs; total, then columns) grow from {small:?} to {big:?}"));
                }
            }
            (a, b) => s.fail(format!("{shown}: cost panics: {small:?} gives {a:?}, {big:?} gives {b:?}")),
        }
        if s.failed() { return; }
    }
}
