//! Injected into src/protocol/grpc/worker_client.rs for C13: a recording worker behind the real client.
use super::*;
use std::sync::Mutex;
use tonic::{Response, Streaming};

#[derive(Clone, Default)]
pub(crate) struct Recorder(pub Arc<Mutex<Recorded>>);
#[derive(Default)]
pub(crate) struct Recorded { pub headers: Vec<HeaderMap>, pub to_worker: Vec<pb::CoordinatorToWorkerMsg>, pub tasks: Vec<pb::ExecuteTaskRequest>, pub replies: Vec<pb::WorkerToCoordinatorMsg>, pub version: String }

#[async_trait]
impl pb::worker_service_server::WorkerService for Recorder {
    type CoordinatorChannelStream = BoxStream<'static, Result<pb::WorkerToCoordinatorMsg, Status>>;
    async fn coordinator_channel(&self, request: Request<Streaming<pb::CoordinatorToWorkerMsg>>) -> Result<Response<Self::CoordinatorChannelStream>, Status> {
        let (h, _, mut body) = request.into_parts();
        self.0.lock().unwrap().headers.push(h.into_headers());
        let mut got = vec![];
        while let Some(m) = body.message().await? { got.push(m); }
        let mut r = self.0.lock().unwrap();
        r.to_worker.extend(got);
        let out = std::mem::take(&mut r.replies);
        Ok(Response::new(futures::stream::iter(out.into_iter().map(Ok)).boxed()))
    }
    type ExecuteTaskStream = BoxStream<'static, Result<FlightData, Status>>;
    async fn execute_task(&self, request: Request<pb::ExecuteTaskRequest>) -> Result<Response<Self::ExecuteTaskStream>, Status> {
        let (h, _, body) = request.into_parts();
        let mut r = self.0.lock().unwrap();
        r.headers.push(h.into_headers());
        r.tasks.push(body);
        Ok(Response::new(futures::stream::empty().boxed()))
    }
    async fn get_worker_info(&self, _r: Request<pb::GetWorkerInfoRequest>) -> Result<Response<pb::GetWorkerInfoResponse>, Status> {
        Ok(Response::new(pb::GetWorkerInfoResponse { version: self.0.lock().unwrap().version.clone() }))
    }
}
/// the real client, connected to `r`
pub(crate) fn client_of(r: Recorder) -> Box<dyn WorkerChannel> {
    let (client, server) = tokio::io::duplex(1024 * 1024);
    let mut client = Some(client);
    let channel = tonic::transport::Endpoint::try_from("http://localhost:50051").unwrap().connect_with_connector_lazy(tower::service_fn(move |_| {
        let client = client.take().expect("one connection");
        async move { Ok::<_, std::io::Error>(hyper_util::rt::TokioIo::new(client)) }
    }));
    tokio::spawn(async move {
        tonic::transport::Server::builder()
            .add_service(pb::worker_service_server::WorkerServiceServer::new(r).max_decoding_message_size(usize::MAX).max_encoding_message_size(usize::MAX))
            .serve_with_incoming(tokio_stream::once(Ok::<_, std::io::Error>(server))).await
    });
    create_worker_client(BoxCloneSyncChannel::new(channel))
}
pub(crate) fn read_reply(m: pb::WorkerToCoordinatorMsg) -> Result<WorkerToCoordinatorMsg> { decode_worker_to_coordinator_msg(m) }
