use super::common::*;
use super::e2e::*;
const ORDERS: [&[&str]; 5] = [&["v"], &["a", "v"], &["a", "b", "c"], &["c"], &["b"]];
fn tables(r: &mut Rng) -> Vec<Table> {
    ["t", "u"].iter().map(|n| {
        let o = if r.chance(1, 5) { None } else { Some(r.pick(&ORDERS).iter().map(|c| (*c, true)).collect()) };
        let files = if r.chance(1, 3) { 1 } else { r.range(1, 5) as usize };
        let max = *r.pick(&[1, 6, 20, 60]);
        table(r, n, files, max, o)
    }).collect()
}
fn query(r: &mut Rng) -> String {
    let k = ["a", "b", "c", "v", "a, b", "a, v", "c, a"][r.below(7) as usize];
    let j = ["a", "b", "c", "v"][r.below(4) as usize];
    let jt = ["join", "left join", "right join", "full join"][r.below(4) as usize];
    let wh = if r.chance(1, 3) { format!(" where v > {}", r.below(30)) } else { String::new() };
    match r.below(14) {
        0 => format!("select {k}, count(*) n, sum(v) s from t{wh} group by {k} order by {k}"),
        1 => format!("select * from t{wh} order by {k}, v"),
        2 => format!("select {k}, row_number() over (partition by {k} order by v) r, v w from t{wh} order by w"),
        3 => format!("select v, sum(v) over (partition by {j} order by v rows between unbounded preceding and current row) r from t{wh} order by v"),
        4 => format!("select t.v, u.v w from t {jt} u on t.{j} = u.{j} order by t.v, u.v"),
        5 => format!("select t.{j} k, count(*) n, sum(u.v) s from t {jt} u on t.{j} = u.{j} group by t.{j} order by k"),
        6 => format!("select v, n from (select v, count(*) over (partition by {j}) n from t) order by v limit {}", r.range(1, 9)),
        7 => format!("select {k}, max(v) m from (select * from t union all select * from u) group by {k} order by {k}"),
        8 => format!("select distinct {k} from t{wh} order by {k} limit {}", r.range(1, 9)),
        9 => format!("select * from t{wh} order by {k}, v limit {} offset {}", r.range(1, 9), r.below(5)),
        10 => format!("select {j}, first_value(v order by v) f, array_agg(v order by v) l from t{wh} group by {j} order by {j}"),
        11 => format!("select {j}, rank() over (order by v) r from t{wh} order by r"),
        12 => format!("select v, lag(v) over (order by v) l from t{wh} order by v"),
        _ => format!("select {j}, s from (select {j}, sum(v) s from t group by {j}) order by s, {j}"),
    }
}
pub fn run(seed: u64, thorough: bool) -> Search {
    search(seed ^ 0x25, if thorough { 1500 } else { 150 }, "whole queries with ORDER BY over two parquet tables of 1 to 5 files, 0 to 59 rows a file, declared sorted or not: aggregates, windows, joins, unions, limits with offsets, over 1 to 4 in-memory workers and random planner settings; the rows come in the order in which one node without the planner gives them", true, tables, query)
}
