//! Injected into src/protocol/grpc/worker_service.rs for C13.
use super::*;
pub(crate) fn read_plan(m: pb::SetPlanRequest) -> Result<SetPlanRequest, Status> { decode_set_plan_request(m) }
pub(crate) async fn read_task(m: pb::ExecuteTaskRequest) -> Result<ExecuteTaskRequest, Status> { decode_execute_task_request(m).await }
pub(crate) fn read_message(m: pb::CoordinatorToWorkerMsg) -> Result<CoordinatorToWorkerMsg, Status> { decode_coordinator_to_worker_msg(m) }
pub(crate) fn write_reply(m: WorkerToCoordinatorMsg) -> Result<pb::WorkerToCoordinatorMsg, Status> { encode_worker_to_coordinator_msg(m) }
