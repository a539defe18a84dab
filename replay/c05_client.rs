//! Injected into src/protocol/grpc/worker_client.rs for C05: a worker with a script, and the real client of any worker.
use super::*;
use arrow_flight::encode::FlightDataEncoderBuilder;
use tonic::{Response, Streaming};

/// what comes over a connection: a message of that partition, a message whose metadata cannot be read, an error
#[derive(Clone, Debug)]
pub(crate) enum Wire { Data(u64, FlightData), Unreadable(FlightData), Broken(String), Pause }
#[derive(Clone)]
pub(crate) struct Script { pub items: Vec<Wire>, pub refuse: bool, pub asked: Arc<std::sync::Mutex<Vec<(u64, u64)>>> }
#[async_trait]
impl pb::worker_service_server::WorkerService for Script {
    type CoordinatorChannelStream = BoxStream<'static, Result<pb::WorkerToCoordinatorMsg, Status>>;
    async fn coordinator_channel(&self, _r: Request<Streaming<pb::CoordinatorToWorkerMsg>>) -> Result<Response<Self::CoordinatorChannelStream>, Status> { Err(Status::unimplemented("")) }
    type ExecuteTaskStream = BoxStream<'static, Result<FlightData, Status>>;
    async fn execute_task(&self, request: Request<pb::ExecuteTaskRequest>) -> Result<Response<Self::ExecuteTaskStream>, Status> {
        let q = request.into_inner();
        self.asked.lock().unwrap().push((q.target_partition_start, q.target_partition_end));
        if self.refuse { return Err(Status::internal("refused")); }
        let s = futures::stream::iter(self.items.clone()).filter_map(|i| async move {
            match i {
                Wire::Pause => { tokio::task::yield_now().await; None }
                Wire::Broken(m) => Some(Err(Status::internal(m))),
                Wire::Unreadable(d) => Some(Ok(d.with_app_metadata(vec![0xff, 0xff, 0xff]))),
                Wire::Data(p, d) => Some(Ok(d.with_app_metadata(FlightAppMetadata { partition: p, created_timestamp_unix_nanos: 0 }.encode_to_vec()))),
            }
        });
        Ok(Response::new(s.boxed()))
    }
    async fn get_worker_info(&self, _r: Request<pb::GetWorkerInfoRequest>) -> Result<Response<pb::GetWorkerInfoResponse>, Status> { Err(Status::unimplemented("")) }
}
/// the real client, connected to that service
pub(crate) fn client_of<S: pb::worker_service_server::WorkerService>(svc: S) -> Box<dyn WorkerChannel> {
    let (client, server) = tokio::io::duplex(1024 * 1024);
    let mut client = Some(client);
    let channel = tonic::transport::Endpoint::try_from("http://localhost:50051").unwrap().connect_with_connector_lazy(tower::service_fn(move |_| {
        let client = client.take().expect("one connection");
        async move { Ok::<_, std::io::Error>(hyper_util::rt::TokioIo::new(client)) }
    }));
    tokio::spawn(async move {
        tonic::transport::Server::builder()
            .add_service(pb::worker_service_server::WorkerServiceServer::new(svc).max_decoding_message_size(usize::MAX).max_encoding_message_size(usize::MAX))
            .serve_with_incoming(tokio_stream::once(Ok::<_, std::io::Error>(server))).await
    });
    create_worker_client(BoxCloneSyncChannel::new(channel))
}
/// the messages that encode these batches
pub(crate) async fn messages_of(batches: Vec<RecordBatch>) -> Vec<FlightData> {
    FlightDataEncoderBuilder::new().with_max_flight_data_size(usize::MAX).build(futures::stream::iter(batches.into_iter().map(Ok))).map(|m| m.unwrap()).collect().await
}
