//! C14: errors keep their kind and message across the wire.
use super::common::*;
use crate::protocol::grpc::vp_inject::*;
use datafusion::arrow::error::ArrowError;
use datafusion::common::{Column, Diagnostic, SchemaError, TableReference};
use datafusion::error::DataFusionError as E;
use datafusion::parquet::errors::ParquetError;
use datafusion::sql::sqlparser::parser::ParserError;
use object_store::Error as Store;
use std::io::ErrorKind as K;
use std::sync::Arc;

const STORES: [&str; 14] = ["GCS", "MicrosoftAzure", "S3", "Config", "ChunkedStore", "LineDelimiter", "HTTP client", "HTTP", "URL", "InMemory", "ObjectStoreRegistry", "Parts", "LocalFileSystem", "Elsewhere"];
const NUMBERED: [K; 36] = [K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::HostUnreachable, K::NetworkUnreachable, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::NetworkDown, K::BrokenPipe, K::AlreadyExists, K::WouldBlock, K::NotADirectory, K::IsADirectory, K::DirectoryNotEmpty, K::ReadOnlyFilesystem, K::StaleNetworkFileHandle, K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::StorageFull, K::NotSeekable, K::FileTooLarge, K::ResourceBusy, K::ExecutableFileBusy, K::Deadlock, K::TooManyLinks, K::ArgumentListTooLong, K::Interrupted, K::Unsupported, K::UnexpectedEof, K::OutOfMemory, K::Other];
const KINDS: usize = 20;
const DEPTH: usize = 30;

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 60000 } else { 6000 };
    let mut s = Search::new(&format!("every kind of error with every alternative it has (texts that are empty, long, or not ASCII; sizes 0, 1 and the largest), alone and under 0..={DEPTH} contexts, causes and collections: {rounds} random errors; {rounds} statuses with damaged details"));
    let mut r = Rng::new(seed);
    for i in 0..rounds {
        s.case();
        let kind = i as u64 % KINDS as u64;
        let depth = if i % 4 == 0 { 0 } else if i % 50 == 1 { DEPTH } else { r.below(5) as usize };
        let e = nested(&mut r, kind, i as u64 / KINDS as u64, depth);
        let flight = r.chance(1, 2);
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let status = datafusion_error_to_tonic_status(&e);
            if flight { map_flight_to_datafusion_error(arrow_flight::error::FlightError::Tonic(Box::new(status))) } else { map_status_to_datafusion_error(status) }
        }));
        match got {
            Err(_) => { s.fail(format!("sending the error `{e:?}` panics: {}", panicked())); return s; }
            Ok(g) => if let Err(why) = same(&e, &g) { s.fail(format!("the error `{e:?}` arrives as `{g:?}`: {why}")); return s; }
        }
        // damaged details: some error, and never a panic
        let mut b = datafusion_error_to_tonic_status(&e).details().to_vec();
        for _ in 0..=r.below(3) { if !b.is_empty() { let k = r.below(b.len() as u64) as usize; if r.chance(1, 2) { b[k] = r.next() as u8 } else { b.truncate(k) } } }
        let st = tonic::Status::with_details(tonic::Code::Internal, "DataFusionError", b.into());
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| map_status_to_datafusion_error(st))).is_err() {
            s.fail(format!("reading damaged details of the error `{e:?}` panics: {}", panicked())); return s;
        }
        // a failure of the network is not taken for an error of a query
        let st = tonic::Status::new([tonic::Code::Unavailable, tonic::Code::Internal, tonic::Code::Cancelled][r.below(3) as usize], "gone");
        match map_status_to_datafusion_error(st.clone()) { E::External(x) if x.to_string() == st.to_string() => {} g => { s.fail(format!("the status {st:?} arrives as `{g:?}`")); return s; } }
    }
    s
}

fn panicked() -> String { LAST_PANIC.lock().unwrap().clone() }

fn text(r: &mut Rng) -> String {
    match r.below(6) { 0 => String::new(), 1 => "naïve ☃ \u{0} 字".into(), 2 => "x".repeat(1 + r.below(2000) as usize), _ => format!("text {}", r.below(1000)) }
}
fn ctx(r: &mut Rng) -> Option<String> { if r.chance(1, 2) { Some(text(r)) } else { None } }
fn size(r: &mut Rng) -> usize { [0, 1, 7, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX][r.below(6) as usize] }
fn io(r: &mut Rng, i: u64) -> std::io::Error {
    match r.below(8) {
        0 => std::io::Error::from_raw_os_error([2, 13, 28, 40, 122, 9999][r.below(6) as usize]),
        1 => std::io::Error::from(NUMBERED[(i % 36) as usize]),
        2 => std::io::Error::new([K::QuotaExceeded, K::CrossesDevices, K::InvalidFilename][(i % 3) as usize], text(r)),
        _ => std::io::Error::new(NUMBERED[(i % 36) as usize], text(r)),
    }
}
fn boxed(r: &mut Rng) -> Box<dyn std::error::Error + Send + Sync> { text(r).into() }

fn arrow(r: &mut Rng, i: u64) -> ArrowError {
    use ArrowError::*;
    match i % 20 {
        0 => NotYetImplemented(text(r)), 1 => ExternalError(boxed(r)), 2 => CastError(text(r)), 3 => MemoryError(text(r)), 4 => ParseError(text(r)), 5 => SchemaError(text(r)), 6 => ComputeError(text(r)),
        7 => DivideByZero, 8 => ArithmeticOverflow(text(r)), 9 => CsvError(text(r)), 10 => JsonError(text(r)), 11 => AvroError(text(r)), 12 => { let k = r.next(); IoError(text(r), io(r, k)) }, 13 => IpcError(text(r)),
        14 => InvalidArgumentError(text(r)), 15 => ParquetError(text(r)), 16 => CDataInterface(text(r)), 17 => DictionaryKeyOverflowError, 18 => RunEndIndexOverflowError, _ => OffsetOverflowError(size(r)),
    }
}
fn parquet(r: &mut Rng, i: u64) -> ParquetError {
    use ParquetError::*;
    match i % 8 { 0 => General(text(r)), 1 => NYI(text(r)), 2 => EOF(text(r)), 3 => ArrowError(text(r)), 4 => IndexOutOfBound(size(r), size(r)), 5 => External(boxed(r)), 6 => NeedMoreData(size(r)), _ => NeedMoreDataRange(size(r) as u64..size(r) as u64) }
}
fn store(r: &mut Rng, i: u64) -> Store {
    let st = STORES[(r.next() % 14) as usize];
    match i % 12 {
        0 => Store::Generic { store: st, source: boxed(r) }, 1 => Store::NotFound { path: text(r), source: boxed(r) },
        2 => Store::InvalidPath { source: object_store::path::Error::EmptySegment { path: text(r) } },
        3 => Store::NotSupported { source: boxed(r) }, 4 => Store::AlreadyExists { path: text(r), source: boxed(r) }, 5 => Store::Precondition { path: text(r), source: boxed(r) },
        6 => Store::NotModified { path: text(r), source: boxed(r) }, 7 => Store::NotImplemented { operation: text(r), implementer: text(r) }, 8 => Store::PermissionDenied { path: text(r), source: boxed(r) },
        9 => Store::Unauthenticated { path: text(r), source: boxed(r) }, 10 => Store::UnknownConfigurationKey { store: st, key: text(r) },
        _ => Store::JoinError { source: join() },
    }
}
fn join() -> tokio::task::JoinError {
    block_on(async { let h = tokio::spawn(std::future::pending::<()>()); h.abort(); h.await.unwrap_err() })
}
fn table(r: &mut Rng) -> TableReference {
    match r.below(3) { 0 => TableReference::Bare { table: text(r).into() }, 1 => TableReference::Partial { schema: text(r).into(), table: text(r).into() }, _ => TableReference::Full { catalog: text(r).into(), schema: text(r).into(), table: text(r).into() } }
}
fn column(r: &mut Rng) -> Column { Column::new(if r.chance(1, 3) { None } else { Some(table(r)) }, text(r)) }
fn schema(r: &mut Rng, i: u64) -> SchemaError {
    match i % 4 {
        0 => SchemaError::AmbiguousReference { field: Box::new(column(r)) }, 1 => SchemaError::DuplicateQualifiedField { qualifier: Box::new(table(r)), name: text(r) },
        2 => SchemaError::DuplicateUnqualifiedField { name: text(r) }, _ => SchemaError::FieldNotFound { field: Box::new(column(r)), valid_fields: (0..r.below(4)).map(|_| column(r)).collect() },
    }
}
fn error(r: &mut Rng, kind: u64, i: u64) -> E {
    match kind {
        0 => E::ArrowError(Box::new(arrow(r, i)), ctx(r)), 1 => E::ParquetError(Box::new(parquet(r, i))), 2 => E::ObjectStore(Box::new(store(r, i))), 3 => E::IoError(io(r, i)),
        4 => E::SQL(Box::new(match i % 3 { 0 => ParserError::TokenizerError(text(r)), 1 => ParserError::ParserError(text(r)), _ => ParserError::RecursionLimitExceeded }), ctx(r)),
        5 => E::NotImplemented(text(r)), 6 => E::Internal(text(r)), 7 => E::Plan(text(r)), 8 => E::Configuration(text(r)), 9 => E::SchemaError(Box::new(schema(r, i)), Box::new(ctx(r))), 10 => E::Execution(text(r)),
        11 => E::ExecutionJoin(Box::new(join())), 12 => E::ResourcesExhausted(text(r)), 13 => E::External(boxed(r)), 14 => E::Substrait(text(r)), 15 => E::Ffi(text(r)),
        k => { let inner = r.below(16); let j = r.next(); let e = error(r, inner, j); wrap(r, k, e) }
    }
}
fn wrap(r: &mut Rng, k: u64, e: E) -> E {
    match k % 4 {
        0 => E::Context(text(r), Box::new(e)),
        1 => E::Diagnostic(Box::new(Diagnostic::new_error("careful", None)), Box::new(e)),
        2 => { let mut v: Vec<E> = (0..r.below(3)).map(|_| { let (k, j) = (r.below(16), r.next()); error(r, k, j) }).collect(); v.insert(r.below(v.len() as u64 + 1) as usize, e); E::Collection(v) }
        _ => E::Shared(Arc::new(e)),
    }
}
fn nested(r: &mut Rng, kind: u64, i: u64, depth: usize) -> E {
    let mut e = error(r, kind, i);
    for _ in 0..depth { let k = r.next(); e = wrap(r, k, e); }
    e
}

type R = Result<(), String>;
fn eq(what: &str, a: &str, b: &str) -> R { if a == b { Ok(()) } else { Err(format!("the {what} is {b:?} and not {a:?}")) } }
fn need(ok: bool, what: &str) -> R { if ok { Ok(()) } else { Err(what.to_string()) } }
fn same_io(a: &std::io::Error, b: &std::io::Error) -> R {
    eq("text", &a.to_string(), &b.to_string())?;
    let want = if NUMBERED.contains(&a.kind()) { a.kind() } else { K::Other };
    need(b.kind() == want, &format!("the kind is {:?} and not {want:?}", b.kind()))
}
fn same_store(a: &Store, b: &Store) -> R {
    use Store::*;
    let st = |x: &str, y: &str| if STORES[..13].contains(&x) { eq("store", x, y) } else { Ok(()) };
    match (a, b) {
        (Generic { store, source }, Generic { store: s2, source: t }) => { st(store, s2)?; eq("source", &source.to_string(), &t.to_string()) }
        (UnknownConfigurationKey { store, key }, UnknownConfigurationKey { store: s2, key: k }) => { st(store, s2)?; eq("key", key, k) }
        (InvalidPath { source }, Generic { source: t, .. }) => need(t.to_string().contains(&source.to_string()), "the text is not mentioned"),
        (JoinError { source }, Generic { source: t, .. }) => need(t.to_string().contains(&source.to_string()), "the text is not mentioned"),
        _ => { need(std::mem::discriminant(a) == std::mem::discriminant(b), "another kind of object store error")?; eq("text", &a.to_string(), &b.to_string()) }
    }
}
fn same_column(a: &Column, b: &Column) -> R { need(a.relation == b.relation && a.name == b.name, "another column") }
fn same_schema(a: &SchemaError, b: &SchemaError) -> R {
    use SchemaError::*;
    match (a, b) {
        (AmbiguousReference { field }, AmbiguousReference { field: f }) => same_column(field, f),
        (DuplicateQualifiedField { qualifier, name }, DuplicateQualifiedField { qualifier: q, name: n }) => need(qualifier == q && name == n, "another qualifier or name"),
        (DuplicateUnqualifiedField { name }, DuplicateUnqualifiedField { name: n }) => eq("name", name, n),
        (FieldNotFound { field, valid_fields }, FieldNotFound { field: f, valid_fields: v }) => { same_column(field, f)?; need(valid_fields.len() == v.len(), "another number of valid fields")?; valid_fields.iter().zip(v).try_for_each(|(a, b)| same_column(a, b)) }
        _ => Err("another kind of schema error".into()),
    }
}
fn opt(a: &Option<String>, b: &Option<String>) -> R { need(a == b, &format!("the backtrace is {b:?} and not {a:?}")) }
fn same(a: &E, b: &E) -> R {
    match (a, b) {
        (E::ArrowError(a, m), E::ArrowError(b, n)) => {
            opt(m, n)?;
            match (&**a, &**b) { (ArrowError::IoError(m, a), ArrowError::IoError(n, b)) => { eq("text", m, n)?; same_io(a, b) } (a, b) => { need(std::mem::discriminant(a) == std::mem::discriminant(b), "another kind of arrow error")?; eq("text", &a.to_string(), &b.to_string()) } }
        }
        (E::ParquetError(a), E::ParquetError(b)) => { need(std::mem::discriminant(&**a) == std::mem::discriminant(&**b), "another kind of parquet error")?; eq("text", &a.to_string(), &b.to_string()) }
        (E::ObjectStore(a), E::ObjectStore(b)) => same_store(a, b),
        (E::IoError(a), E::IoError(b)) => same_io(a, b),
        (E::SQL(a, m), E::SQL(b, n)) => { opt(m, n)?; need(a == b, "another parser error") }
        (E::SchemaError(a, m), E::SchemaError(b, n)) => { opt(m, n)?; same_schema(a, b) }
        (E::ExecutionJoin(a), E::Internal(b)) => eq("text", &a.to_string(), b),
        (E::External(a), E::External(b)) => eq("text", &a.to_string(), &b.to_string()),
        (E::Context(m, a), E::Context(n, b)) => { eq("context", m, n)?; same(a, b) }
        (E::Diagnostic(_, a), E::Diagnostic(_, b)) => same(a, b),
        (E::Collection(a), E::Collection(b)) => { need(a.len() == b.len(), "another number of errors")?; a.iter().zip(b).try_for_each(|(a, b)| same(a, b)) }
        (E::Shared(a), E::Shared(b)) => same(a, b),
        (E::NotImplemented(a), E::NotImplemented(b)) | (E::Internal(a), E::Internal(b)) | (E::Plan(a), E::Plan(b)) | (E::Configuration(a), E::Configuration(b)) | (E::Execution(a), E::Execution(b)) | (E::ResourcesExhausted(a), E::ResourcesExhausted(b)) | (E::Substrait(a), E::Substrait(b)) | (E::Ffi(a), E::Ffi(b)) => eq("text", a, b),
        _ => Err("another kind of error".into()),
    }
}
