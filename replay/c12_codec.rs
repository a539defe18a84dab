use super::*;
pub fn union(partition_count: u64, map: Vec<Vec<(u64, u64, u64)>>, weights: Vec<(f64, Option<u64>)>) -> Vec<u8> {
    write(DistributedExecNode::ChildrenIsolatorUnion(ChildrenIsolatorUnionExecProto {
        partition_count,
        task_idx_map: map.into_iter().map(|e| TaskIdxMapEntryProto { child_ctx: e.into_iter().map(|(child_idx, task_idx, task_count)| ChildIdxWithTaskContextProto { child_idx, task_idx, task_count }).collect() }).collect(),
        child_weights: weights.into_iter().map(|(weight, max)| ChildWeightProto { weight, max }).collect(),
    }))
}
pub fn broadcast(consumer_task_count: u64) -> Vec<u8> { write(DistributedExecNode::Broadcast(BroadcastExecProto { consumer_task_count })) }
pub fn sampler() -> Vec<u8> { write(DistributedExecNode::Sampler(SamplerExecProto {})) }
pub fn nothing() -> Vec<u8> { DistributedExecProto { node: None }.encode_to_vec() }
/// a boundary of this kind from another boundary's message, with parts left out or damaged
pub fn damaged(b: &[u8], what: u64, id: Vec<u8>) -> Option<Vec<u8>> {
    let mut m = DistributedExecProto::decode(b).ok()?;
    let (s, p, st) = match m.node.as_mut()? {
        DistributedExecNode::NetworkHashShuffle(x) => (&mut x.schema, &mut x.partitioning, &mut x.input_stage),
        DistributedExecNode::NetworkCoalesceTasks(x) => (&mut x.schema, &mut x.partitioning, &mut x.input_stage),
        DistributedExecNode::NetworkBroadcast(x) => (&mut x.schema, &mut x.partitioning, &mut x.input_stage),
        _ => return None,
    };
    match what {
        0 => *s = None,
        1 => *p = None,
        2 => *st = None,
        3 => p.as_mut()?.partition_method = None,
        4 => st.as_mut()?.query_id = id.into(),
        5 => st.as_mut()?.tasks.push(ExecutionTaskProto { url_str: None }),
        _ => st.as_mut()?.tasks.push(ExecutionTaskProto { url_str: Some("no address".into()) }),
    }
    Some(m.encode_to_vec())
}
fn write(n: DistributedExecNode) -> Vec<u8> { DistributedExecProto { node: Some(n) }.encode_to_vec() }
