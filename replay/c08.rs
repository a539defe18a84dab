use super::common::*;
use super::e2e::*;
fn tables(r: &mut Rng) -> Vec<Table> {
    ["t", "u"].iter().map(|n| {
        let files = r.range(1, 4) as usize;
        let max = *r.pick(&[1, 6, 20, 40, 60]);
        table(r, n, files, max, None)
    }).collect()
}
const CONDS: [&str; 8] = ["t.a = u.a", "t.v = u.v", "t.a = u.b and t.c = u.c", "t.v < u.v", "t.a = u.a and t.v < u.v", "t.a = u.a or t.b = u.b", "t.c = u.c and t.a <> u.b", "t.a is not distinct from u.a"];
fn side(r: &mut Rng, n: &str) -> String {
    match r.below(8) {
        0 => format!("(select * from {n} where v > {}) {n}", r.below(20)),
        1 => format!("(select a, b, max(c) c, sum(v) v from {n} group by a, b) {n}"),
        2 => format!("(select * from {n} order by v limit {}) {n}", r.range(1, 9)),
        3 => format!("(select * from t union all select * from u) {n}"),
        4 => format!("(select min(a) a, min(b) b, max(c) c, count(*) v from {n}) {n}"),
        _ => n.into(),
    }
}
fn query(r: &mut Rng) -> String {
    let on = *r.pick(&CONDS);
    let (t, u) = (side(r, "t"), side(r, "u"));
    let jt = ["join", "left join", "right join", "full join"][r.below(4) as usize];
    match r.below(15) {
        10 => format!("select count(distinct u.v) d, count(*) n from t cross join (select * from u limit {}) u", r.range(1, 30)),
        11 => format!("select count(distinct u.v) <= {0} d from t {jt} (select * from u limit {0}) u on {on}", r.range(1, 30)),
        12 => format!("select a, sum(v) from t group by a union all select b, rank() over (order by v) from u union all select a, count(*) over (partition by a) from t"),
        0 => format!("select t.* from {t} where exists (select 1 from {u} where {on})"),
        1 => format!("select t.* from {t} where not exists (select 1 from {u} where {on})"),
        2 => format!("select t.* from {t} where t.a not in (select u.a from {u})"),
        3 => format!("select t.* from {t} where t.b in (select u.b from {u} where u.c = t.c)"),
        4 => format!("select t.v, u.v from {t} cross join {u}"),
        5 => format!("select t.v, (select count(*) from {u} where u.a = t.a) n from {t}"),
        6 => format!("select t.v from {t} where t.v > (select avg(u.v) from {u})"),
        7 => format!("select t.v from {t} where t.v = 1 or exists (select 1 from {u} where {on})"),
        8 => format!("select {}, count(*), sum(t.v), sum(u.v) from {t} {jt} {u} on {on} group by {0}", ["t.a", "u.b", "t.c"][r.below(3) as usize]),
        9 => format!("select t.v, u.v, w.v from {t} {jt} {u} on {on} {} t w on w.a = u.a", ["join", "left join", "right join", "full join"][r.below(4) as usize]),
        _ => format!("select * from {t} {jt} {u} on {on}"),
    }
}
pub fn run(seed: u64, thorough: bool) -> Search {
    search(seed ^ 0x08, if thorough { 1500 } else { 150 }, "whole queries over two parquet tables of 1 to 4 files and 0 to 59 rows a file: joins of every kind and condition, exists/in/not in/scalar subqueries, cross joins, limited and aggregated sides, joins of three tables, unions, windows, over 1 to 4 in-memory workers and random planner settings; the rows are those of one node without the planner", false, tables, query)
}
