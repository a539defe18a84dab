//@type_is std::io::Error => IoError
//@type_is object_store::Error => StoreError
//@type_is .to_string() => .txt()
//@type_is .into() => .vx_into()
//@type_is Box::from( => generic(
//@type_is String => Text
//@type_is tonic::Status => Status
//@type_is tonic::Code => Code
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ text
#[verifier::external_body] pub struct Text { _x: u8 }
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// what a value displays as
pub trait Txt {
    spec fn t(&self) -> Text;
    fn txt(&self) -> (r: Text) ensures r == self.t();
}
impl Txt for Text { open spec fn t(&self) -> Text { *self } fn txt(&self) -> (r: Text) { self.clone() } }
impl Txt for str { uninterp spec fn t(&self) -> Text; #[verifier::external_body] fn txt(&self) -> (r: Text) { unimplemented!() } }
macro_rules! displayed { ($($n:ident),*) => { verus! { $(
    #[verifier::external_body] pub struct $n { _x: u8 }
    impl Txt for $n { uninterp spec fn t(&self) -> Text; #[verifier::external_body] fn txt(&self) -> (r: Text) { unimplemented!() } }
)* } } }
displayed!(GenericError, JoinError, StoreName, Name, PathError);
pub trait VxInto<T> {
    spec fn kept(&self, r: T) -> bool;
    fn vx_into(self) -> (r: T) ensures self.kept(r);
}
impl VxInto<GenericError> for Text { open spec fn kept(&self, r: GenericError) -> bool { r.t() == *self } #[verifier::external_body] fn vx_into(self) -> (r: GenericError) { unimplemented!() } }
impl VxInto<Name> for Text { open spec fn kept(&self, r: Name) -> bool { r.t() == *self } #[verifier::external_body] fn vx_into(self) -> (r: Name) { unimplemented!() } }
impl VxInto<GenericError> for &str { open spec fn kept(&self, r: GenericError) -> bool { r.t() == self.t() } #[verifier::external_body] fn vx_into(self) -> (r: GenericError) { unimplemented!() } }
impl VxInto<Name> for &str { open spec fn kept(&self, r: Name) -> bool { r.t() == self.t() } #[verifier::external_body] fn vx_into(self) -> (r: Name) { unimplemented!() } }
#[verifier::external_body] pub fn generic(x: Text) -> (r: GenericError) ensures r.t() == x { unimplemented!() }
/// a text that contains another
pub uninterp spec fn mentions(t: Text, part: Text) -> bool;
#[verifier::external_body] pub fn mention(part: &Text) -> (r: GenericError) ensures mentions(r.t(), *part) { unimplemented!() }

// ------------------------------------------------------------------ the error types of the dependencies
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other, QuotaExceeded, CrossesDevices, InvalidFilename }
#[verifier::external_body] pub struct IoError { _x: u8 }
impl Txt for IoError { uninterp spec fn t(&self) -> Text; #[verifier::external_body] fn txt(&self) -> (r: Text) { unimplemented!() } }
impl IoError {
    pub uninterp spec fn k(&self) -> ErrorKind;
    #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
    #[verifier::external_body] pub fn new(k: ErrorKind, t: Text) -> (r: Self) ensures r.k() == k, r.t() == t { unimplemented!() }
}
pub enum ArrowError { NotYetImplemented(Text), ExternalError(GenericError), CastError(Text), MemoryError(Text), ParseError(Text), SchemaError(Text), ComputeError(Text), DivideByZero, ArithmeticOverflow(Text), CsvError(Text), JsonError(Text), AvroError(Text), IoError(Text, IoError), IpcError(Text), InvalidArgumentError(Text), ParquetError(Text), CDataInterface(Text), DictionaryKeyOverflowError, RunEndIndexOverflowError, OffsetOverflowError(usize) }
#[verifier::external_body] pub struct RangeU64 { _x: u8 }
pub enum ParquetError { General(Text), NYI(Text), EOF(Text), ArrowError(Text), IndexOutOfBound(usize, usize), External(GenericError), NeedMoreData(usize), NeedMoreDataRange(core::ops::Range<u64>) }
pub enum ParserError { TokenizerError(Text), ParserError(Text), RecursionLimitExceeded }
pub enum StoreError {
    Generic { store: StoreName, source: GenericError }, NotFound { path: Text, source: GenericError }, InvalidPath { source: PathError }, JoinError { source: JoinError }, NotSupported { source: GenericError },
    AlreadyExists { path: Text, source: GenericError }, Precondition { path: Text, source: GenericError }, NotModified { path: Text, source: GenericError }, NotImplemented { operation: Text, implementer: Text },
    PermissionDenied { path: Text, source: GenericError }, Unauthenticated { path: Text, source: GenericError }, UnknownConfigurationKey { key: Text, store: StoreName },
}
pub enum TableReference { Bare { table: Name }, Partial { schema: Name, table: Name }, Full { catalog: Name, schema: Name, table: Name } }
impl TableReference { #[verifier::external_body] pub fn bare(t: &str) -> Self { unimplemented!() } }
pub struct Column { pub relation: Option<TableReference>, pub name: Text }
impl Column {
    #[verifier::external_body] pub fn new(relation: Option<TableReference>, name: Text) -> (r: Self) ensures r.relation == relation, r.name == name { unimplemented!() }
    #[verifier::external_body] pub fn new_unqualified(name: Text) -> Self { unimplemented!() }
}
pub enum SchemaError { AmbiguousReference { field: Box<Column> }, DuplicateQualifiedField { qualifier: Box<TableReference>, name: Text }, DuplicateUnqualifiedField { name: Text }, FieldNotFound { field: Box<Column>, valid_fields: Vec<Column> } }
#[verifier::external_body] pub struct Diagnostic { _x: u8 }
impl Diagnostic { #[verifier::external_body] pub fn new_error(t: &str, s: Option<u8>) -> Self { unimplemented!() } }
pub enum DataFusionError {
    ArrowError(Box<ArrowError>, Option<Text>), ParquetError(Box<ParquetError>), ObjectStore(Box<StoreError>), IoError(IoError), SQL(Box<ParserError>, Option<Text>), NotImplemented(Text), Internal(Text), Plan(Text), Configuration(Text),
    SchemaError(Box<SchemaError>, Box<Option<Text>>), Execution(Text), ExecutionJoin(Box<JoinError>), ResourcesExhausted(Text), External(GenericError), Context(Text, Box<DataFusionError>), Substrait(Text),
    Diagnostic(Box<Diagnostic>, Box<DataFusionError>), Collection(Vec<DataFusionError>), Shared(Arc<DataFusionError>), Ffi(Text),
}

// ------------------------------------------------------------------ the wire types
//@struct src/protocol/grpc/errors/io_error.rs IoErrorProto
//@struct src/protocol/grpc/errors/arrow_error.rs ArrowErrorProto
//@enum src/protocol/grpc/errors/arrow_error.rs ArrowErrorInnerProto
//@struct src/protocol/grpc/errors/parquet_error.rs ParquetErrorProto
//@enum src/protocol/grpc/errors/parquet_error.rs ParquetErrorInnerProto
//@struct src/protocol/grpc/errors/parquet_error.rs IndexOutOfBoundProto
//@struct src/protocol/grpc/errors/parquet_error.rs NeedMoreDataRangeProto
//@struct src/protocol/grpc/errors/parser_error.rs ParserErrorProto
//@enum src/protocol/grpc/errors/parser_error.rs ParserErrorInnerProto
//@struct src/protocol/grpc/errors/objectstore_error.rs ObjectStoreErrorProto
//@enum src/protocol/grpc/errors/objectstore_error.rs ObjectStoreErrorInnerProto
//@struct src/protocol/grpc/errors/objectstore_error.rs ObjectStoreGenericErrorProto
//@struct src/protocol/grpc/errors/objectstore_error.rs ObjectStoreSourceErrorProto
//@struct src/protocol/grpc/errors/objectstore_error.rs ObjectStoreSourcePathErrorProto
//@struct src/protocol/grpc/errors/objectstore_error.rs ObjectStoreNotImplementedErrorProto
//@struct src/protocol/grpc/errors/objectstore_error.rs ObjectStoreConfigurationKeyErrorProto
//@struct src/protocol/grpc/errors/schema_error.rs SchemaErrorProto
//@enum src/protocol/grpc/errors/schema_error.rs SchemaErrorInnerProto
//@struct src/protocol/grpc/errors/schema_error.rs AmbiguousReferenceProto
//@struct src/protocol/grpc/errors/schema_error.rs DuplicateQualifiedFieldProto
//@struct src/protocol/grpc/errors/schema_error.rs DuplicateUnqualifiedFieldProto
//@struct src/protocol/grpc/errors/schema_error.rs FieldNotFoundProto
//@struct src/protocol/grpc/errors/schema_error.rs ColumnProto
//@struct src/protocol/grpc/errors/schema_error.rs TableReferenceProto
//@enum src/protocol/grpc/errors/schema_error.rs TableReferenceInnerProto
//@struct src/protocol/grpc/errors/schema_error.rs TableReferenceBareProto
//@struct src/protocol/grpc/errors/schema_error.rs TableReferencePartialProto
//@struct src/protocol/grpc/errors/schema_error.rs TableReferenceFullProto
//@struct src/protocol/grpc/errors/datafusion_error.rs DataFusionErrorProto
//@enum src/protocol/grpc/errors/datafusion_error.rs DataFusionErrorInnerProto
//@struct src/protocol/grpc/errors/datafusion_error.rs DataFusionSqlErrorProto
//@struct src/protocol/grpc/errors/datafusion_error.rs DataFusionContextErrorProto
//@struct src/protocol/grpc/errors/datafusion_error.rs DataFusionCollectionErrorProto
//@struct src/protocol/grpc/errors/datafusion_error.rs DistributedDataFusionGenericError
// every alternative of a message is listed, so that its bytes are understood, and under a number of its own
//@tags src/protocol/grpc/errors/arrow_error.rs ArrowErrorProto ArrowErrorInnerProto
//@tags src/protocol/grpc/errors/parquet_error.rs ParquetErrorProto ParquetErrorInnerProto
//@tags src/protocol/grpc/errors/parser_error.rs ParserErrorProto ParserErrorInnerProto
//@tags src/protocol/grpc/errors/objectstore_error.rs ObjectStoreErrorProto ObjectStoreErrorInnerProto
//@tags src/protocol/grpc/errors/schema_error.rs SchemaErrorProto SchemaErrorInnerProto
//@tags src/protocol/grpc/errors/schema_error.rs TableReferenceProto TableReferenceInnerProto
//@tags src/protocol/grpc/errors/datafusion_error.rs DataFusionErrorProto DataFusionErrorInnerProto
pub open spec fn member(x: int, s: Seq<int>) -> bool decreases s.len() { s.len() > 0 && (s.last() == x || member(x, s.drop_last())) }
pub open spec fn all_listed(v: Seq<int>, listed: Seq<int>, fields: Seq<int>) -> bool decreases v.len() {
    v.len() == 0 || { member(v.last(), listed) && !member(v.last(), fields) && !member(v.last(), v.drop_last()) && all_listed(v.drop_last(), listed, fields) }
}
pub proof fn theorem_every_alternative_decodes()
    ensures
        all_listed(variant_tags_ArrowErrorInnerProto(), listed_tags_ArrowErrorInnerProto(), field_tags_ArrowErrorInnerProto()),
        all_listed(variant_tags_ParquetErrorInnerProto(), listed_tags_ParquetErrorInnerProto(), field_tags_ParquetErrorInnerProto()),
        all_listed(variant_tags_ParserErrorInnerProto(), listed_tags_ParserErrorInnerProto(), field_tags_ParserErrorInnerProto()),
        all_listed(variant_tags_ObjectStoreErrorInnerProto(), listed_tags_ObjectStoreErrorInnerProto(), field_tags_ObjectStoreErrorInnerProto()),
        all_listed(variant_tags_SchemaErrorInnerProto(), listed_tags_SchemaErrorInnerProto(), field_tags_SchemaErrorInnerProto()),
        all_listed(variant_tags_TableReferenceInnerProto(), listed_tags_TableReferenceInnerProto(), field_tags_TableReferenceInnerProto()),
        all_listed(variant_tags_DataFusionErrorInnerProto(), listed_tags_DataFusionErrorInnerProto(), field_tags_DataFusionErrorInnerProto()),
{
    assert(all_listed(variant_tags_ArrowErrorInnerProto(), listed_tags_ArrowErrorInnerProto(), field_tags_ArrowErrorInnerProto())) by (compute);
    assert(all_listed(variant_tags_ParquetErrorInnerProto(), listed_tags_ParquetErrorInnerProto(), field_tags_ParquetErrorInnerProto())) by (compute);
    assert(all_listed(variant_tags_ParserErrorInnerProto(), listed_tags_ParserErrorInnerProto(), field_tags_ParserErrorInnerProto())) by (compute);
    assert(all_listed(variant_tags_ObjectStoreErrorInnerProto(), listed_tags_ObjectStoreErrorInnerProto(), field_tags_ObjectStoreErrorInnerProto())) by (compute);
    assert(all_listed(variant_tags_SchemaErrorInnerProto(), listed_tags_SchemaErrorInnerProto(), field_tags_SchemaErrorInnerProto())) by (compute);
    assert(all_listed(variant_tags_TableReferenceInnerProto(), listed_tags_TableReferenceInnerProto(), field_tags_TableReferenceInnerProto())) by (compute);
    assert(all_listed(variant_tags_DataFusionErrorInnerProto(), listed_tags_DataFusionErrorInnerProto(), field_tags_DataFusionErrorInnerProto())) by (compute);
}
// ------------------------------------------------------------------ specification: what carries what, and which error may arrive for which
pub open spec fn io_code(k: ErrorKind) -> int { match k { ErrorKind::NotFound => 0, ErrorKind::PermissionDenied => 1, ErrorKind::ConnectionRefused => 2, ErrorKind::ConnectionReset => 3, ErrorKind::HostUnreachable => 4, ErrorKind::NetworkUnreachable => 5, ErrorKind::ConnectionAborted => 6, ErrorKind::NotConnected => 7, ErrorKind::AddrInUse => 8, ErrorKind::AddrNotAvailable => 9, ErrorKind::NetworkDown => 10, ErrorKind::BrokenPipe => 11, ErrorKind::AlreadyExists => 12, ErrorKind::WouldBlock => 13, ErrorKind::NotADirectory => 14, ErrorKind::IsADirectory => 15, ErrorKind::DirectoryNotEmpty => 16, ErrorKind::ReadOnlyFilesystem => 17, ErrorKind::StaleNetworkFileHandle => 18, ErrorKind::InvalidInput => 19, ErrorKind::InvalidData => 20, ErrorKind::TimedOut => 21, ErrorKind::WriteZero => 22, ErrorKind::StorageFull => 23, ErrorKind::NotSeekable => 24, ErrorKind::FileTooLarge => 25, ErrorKind::ResourceBusy => 26, ErrorKind::ExecutableFileBusy => 27, ErrorKind::Deadlock => 28, ErrorKind::TooManyLinks => 29, ErrorKind::ArgumentListTooLong => 30, ErrorKind::Interrupted => 31, ErrorKind::Unsupported => 32, ErrorKind::UnexpectedEof => 33, ErrorKind::OutOfMemory => 34, ErrorKind::Other => 35, _ => -1 } }
pub open spec fn carries_io(p: IoErrorProto, msg: Text, e: IoError) -> bool { p.msg == msg && p.err == e.t() && p.code == io_code(e.k()) }
// kinds without a number arrive as Other
pub open spec fn same_io(a: IoError, b: IoError) -> bool { a.t() == b.t() && (a.k() == b.k() || io_code(a.k()) == -1 && b.k() == ErrorKind::Other) }
pub open spec fn carries_arrow(p: ArrowErrorProto, e: ArrowError) -> bool { match (e, p.inner) {
    (ArrowError::NotYetImplemented(m), Some(ArrowErrorInnerProto::NotYetImplemented(n))) => m == n,
    (ArrowError::CastError(m), Some(ArrowErrorInnerProto::CastError(n))) => m == n,
    (ArrowError::MemoryError(m), Some(ArrowErrorInnerProto::MemoryError(n))) => m == n,
    (ArrowError::ParseError(m), Some(ArrowErrorInnerProto::ParseError(n))) => m == n,
    (ArrowError::SchemaError(m), Some(ArrowErrorInnerProto::SchemaError(n))) => m == n,
    (ArrowError::ComputeError(m), Some(ArrowErrorInnerProto::ComputeError(n))) => m == n,
    (ArrowError::ArithmeticOverflow(m), Some(ArrowErrorInnerProto::ArithmeticOverflow(n))) => m == n,
    (ArrowError::CsvError(m), Some(ArrowErrorInnerProto::CsvError(n))) => m == n,
    (ArrowError::JsonError(m), Some(ArrowErrorInnerProto::JsonError(n))) => m == n,
    (ArrowError::AvroError(m), Some(ArrowErrorInnerProto::AvroError(n))) => m == n,
    (ArrowError::IpcError(m), Some(ArrowErrorInnerProto::IpcError(n))) => m == n,
    (ArrowError::InvalidArgumentError(m), Some(ArrowErrorInnerProto::InvalidArgumentError(n))) => m == n,
    (ArrowError::ParquetError(m), Some(ArrowErrorInnerProto::ParquetError(n))) => m == n,
    (ArrowError::CDataInterface(m), Some(ArrowErrorInnerProto::CDataInterface(n))) => m == n,
    (ArrowError::ExternalError(m), Some(ArrowErrorInnerProto::ExternalError(n))) => n == m.t(),
    (ArrowError::DivideByZero, Some(ArrowErrorInnerProto::DivideByZero(_))) => true,
    (ArrowError::DictionaryKeyOverflowError, Some(ArrowErrorInnerProto::DictionaryKeyOverflowError(_))) => true,
    (ArrowError::RunEndIndexOverflowError, Some(ArrowErrorInnerProto::RunEndIndexOverflowError(_))) => true,
    (ArrowError::IoError(m, i), Some(ArrowErrorInnerProto::IoError(q))) => carries_io(q, m, i),
    (ArrowError::OffsetOverflowError(a), Some(ArrowErrorInnerProto::OffsetOverflowError(b))) => a == b,
    _ => false,
} }
pub open spec fn same_arrow(a: ArrowError, b: ArrowError) -> bool { match (a, b) {
    (ArrowError::NotYetImplemented(m), ArrowError::NotYetImplemented(n)) => m == n,
    (ArrowError::CastError(m), ArrowError::CastError(n)) => m == n,
    (ArrowError::MemoryError(m), ArrowError::MemoryError(n)) => m == n,
    (ArrowError::ParseError(m), ArrowError::ParseError(n)) => m == n,
    (ArrowError::SchemaError(m), ArrowError::SchemaError(n)) => m == n,
    (ArrowError::ComputeError(m), ArrowError::ComputeError(n)) => m == n,
    (ArrowError::ArithmeticOverflow(m), ArrowError::ArithmeticOverflow(n)) => m == n,
    (ArrowError::CsvError(m), ArrowError::CsvError(n)) => m == n,
    (ArrowError::JsonError(m), ArrowError::JsonError(n)) => m == n,
    (ArrowError::AvroError(m), ArrowError::AvroError(n)) => m == n,
    (ArrowError::IpcError(m), ArrowError::IpcError(n)) => m == n,
    (ArrowError::InvalidArgumentError(m), ArrowError::InvalidArgumentError(n)) => m == n,
    (ArrowError::ParquetError(m), ArrowError::ParquetError(n)) => m == n,
    (ArrowError::CDataInterface(m), ArrowError::CDataInterface(n)) => m == n,
    (ArrowError::ExternalError(m), ArrowError::ExternalError(n)) => m.t() == n.t(),
    (ArrowError::DivideByZero, ArrowError::DivideByZero) => true,
    (ArrowError::DictionaryKeyOverflowError, ArrowError::DictionaryKeyOverflowError) => true,
    (ArrowError::RunEndIndexOverflowError, ArrowError::RunEndIndexOverflowError) => true,
    (ArrowError::IoError(m, i), ArrowError::IoError(n, j)) => m == n && same_io(i, j),
    (ArrowError::OffsetOverflowError(a), ArrowError::OffsetOverflowError(b)) => a == b,
    _ => false,
} }
pub open spec fn carries_parquet(p: ParquetErrorProto, e: ParquetError) -> bool { match (e, p.inner) {
    (ParquetError::General(m), Some(ParquetErrorInnerProto::General(n))) => m == n,
    (ParquetError::NYI(m), Some(ParquetErrorInnerProto::NYI(n))) => m == n,
    (ParquetError::EOF(m), Some(ParquetErrorInnerProto::EOF(n))) => m == n,
    (ParquetError::ArrowError(m), Some(ParquetErrorInnerProto::ArrowError(n))) => m == n,
    (ParquetError::External(m), Some(ParquetErrorInnerProto::External(n))) => n == m.t(),
    (ParquetError::IndexOutOfBound(a, b), Some(ParquetErrorInnerProto::IndexOutOfBound(q))) => q.a == a && q.b == b,
    (ParquetError::NeedMoreData(a), Some(ParquetErrorInnerProto::NeedMoreData(b))) => a == b,
    (ParquetError::NeedMoreDataRange(r), Some(ParquetErrorInnerProto::NeedMoreDataRange(q))) => q.start == r.start && q.end == r.end,
    _ => false,
} }
pub open spec fn same_parquet(a: ParquetError, b: ParquetError) -> bool { match (a, b) {
    (ParquetError::General(m), ParquetError::General(n)) => m == n,
    (ParquetError::NYI(m), ParquetError::NYI(n)) => m == n,
    (ParquetError::EOF(m), ParquetError::EOF(n)) => m == n,
    (ParquetError::ArrowError(m), ParquetError::ArrowError(n)) => m == n,
    (ParquetError::External(m), ParquetError::External(n)) => m.t() == n.t(),
    (ParquetError::IndexOutOfBound(a, b), ParquetError::IndexOutOfBound(c, d)) => a == c && b == d,
    (ParquetError::NeedMoreData(a), ParquetError::NeedMoreData(b)) => a == b,
    (ParquetError::NeedMoreDataRange(r), ParquetError::NeedMoreDataRange(q)) => q.start == r.start && q.end == r.end,
    _ => false,
} }
pub open spec fn carries_parser(p: ParserErrorProto, e: ParserError) -> bool { match (e, p.inner) {
    (ParserError::TokenizerError(m), Some(ParserErrorInnerProto::TokenizerError(n))) => m == n,
    (ParserError::ParserError(m), Some(ParserErrorInnerProto::ParserError(n))) => m == n,
    (ParserError::RecursionLimitExceeded, Some(ParserErrorInnerProto::RecursionLimitExceeded(_))) => true,
    _ => false,
} }
pub open spec fn same_parser(a: ParserError, b: ParserError) -> bool { match (a, b) {
    (ParserError::TokenizerError(m), ParserError::TokenizerError(n)) => m == n,
    (ParserError::ParserError(m), ParserError::ParserError(n)) => m == n,
    (ParserError::RecursionLimitExceeded, ParserError::RecursionLimitExceeded) => true,
    _ => false,
} }
pub open spec fn carries_store(p: ObjectStoreErrorProto, e: StoreError) -> bool { match (e, p.inner) {
    (StoreError::Generic { store, source }, Some(ObjectStoreErrorInnerProto::Generic(q))) => q.store == store.t() && q.source == source.t(),
    (StoreError::NotFound { path, source }, Some(ObjectStoreErrorInnerProto::NotFound(q))) => q.path == path && q.source == source.t(),
    (StoreError::AlreadyExists { path, source }, Some(ObjectStoreErrorInnerProto::AlreadyExists(q))) => q.path == path && q.source == source.t(),
    (StoreError::Precondition { path, source }, Some(ObjectStoreErrorInnerProto::Precondition(q))) => q.path == path && q.source == source.t(),
    (StoreError::NotModified { path, source }, Some(ObjectStoreErrorInnerProto::NotModified(q))) => q.path == path && q.source == source.t(),
    (StoreError::PermissionDenied { path, source }, Some(ObjectStoreErrorInnerProto::PermissionDenied(q))) => q.path == path && q.source == source.t(),
    (StoreError::Unauthenticated { path, source }, Some(ObjectStoreErrorInnerProto::Unauthenticated(q))) => q.path == path && q.source == source.t(),
    (StoreError::InvalidPath { source }, Some(ObjectStoreErrorInnerProto::InvalidPath(q))) => q.source == source.t(),
    (StoreError::JoinError { source }, Some(ObjectStoreErrorInnerProto::JoinError(q))) => q.source == source.t(),
    (StoreError::NotSupported { source }, Some(ObjectStoreErrorInnerProto::NotSupported(q))) => q.source == source.t(),
    (StoreError::NotImplemented { operation, implementer }, Some(ObjectStoreErrorInnerProto::NotImplemented(q))) => q.operation == operation && q.implementer == implementer,
    (StoreError::UnknownConfigurationKey { key, store }, Some(ObjectStoreErrorInnerProto::UnknownConfigurationKey(q))) => q.key == key && q.store == store.t(),
    _ => false,
} }
// the name of a store arrives when it is one of the known ones; invalid paths and join errors arrive as generic errors that give their text
pub uninterp spec fn known_store(s: Text) -> bool;
pub open spec fn same_store(a: StoreError, b: StoreError) -> bool { match (a, b) {
    (StoreError::Generic { store, source }, StoreError::Generic { store: s, source: t }) => (known_store(store.t()) ==> s.t() == store.t()) && t.t() == source.t(),
    (StoreError::NotFound { path, source }, StoreError::NotFound { path: p, source: t }) => p == path && t.t() == source.t(),
    (StoreError::AlreadyExists { path, source }, StoreError::AlreadyExists { path: p, source: t }) => p == path && t.t() == source.t(),
    (StoreError::Precondition { path, source }, StoreError::Precondition { path: p, source: t }) => p == path && t.t() == source.t(),
    (StoreError::NotModified { path, source }, StoreError::NotModified { path: p, source: t }) => p == path && t.t() == source.t(),
    (StoreError::PermissionDenied { path, source }, StoreError::PermissionDenied { path: p, source: t }) => p == path && t.t() == source.t(),
    (StoreError::Unauthenticated { path, source }, StoreError::Unauthenticated { path: p, source: t }) => p == path && t.t() == source.t(),
    (StoreError::InvalidPath { source }, StoreError::Generic { store: _, source: t }) => mentions(t.t(), source.t()),
    (StoreError::JoinError { source }, StoreError::Generic { store: _, source: t }) => mentions(t.t(), source.t()),
    (StoreError::NotSupported { source }, StoreError::NotSupported { source: t }) => t.t() == source.t(),
    (StoreError::NotImplemented { operation, implementer }, StoreError::NotImplemented { operation: o, implementer: i }) => o == operation && i == implementer,
    (StoreError::UnknownConfigurationKey { key, store }, StoreError::UnknownConfigurationKey { key: k, store: s }) => k == key && (known_store(store.t()) ==> s.t() == store.t()),
    _ => false,
} }
pub open spec fn carries_table(p: TableReferenceProto, e: TableReference) -> bool { match (e, p.inner) {
    (TableReference::Bare { table }, Some(TableReferenceInnerProto::Bare(q))) => q.table == table.t(),
    (TableReference::Partial { schema, table }, Some(TableReferenceInnerProto::Partial(q))) => q.schema == schema.t() && q.table == table.t(),
    (TableReference::Full { catalog, schema, table }, Some(TableReferenceInnerProto::Full(q))) => q.catalog == catalog.t() && q.schema == schema.t() && q.table == table.t(),
    _ => false,
} }
pub open spec fn same_table(a: TableReference, b: TableReference) -> bool { match (a, b) {
    (TableReference::Bare { table }, TableReference::Bare { table: t }) => t.t() == table.t(),
    (TableReference::Partial { schema, table }, TableReference::Partial { schema: s, table: t }) => s.t() == schema.t() && t.t() == table.t(),
    (TableReference::Full { catalog, schema, table }, TableReference::Full { catalog: c, schema: s, table: t }) => c.t() == catalog.t() && s.t() == schema.t() && t.t() == table.t(),
    _ => false,
} }
pub open spec fn carries_col(p: ColumnProto, c: Column) -> bool { p.name == c.name && match (c.relation, p.relation) { (None, None) => true, (Some(t), Some(q)) => carries_table(q, t), _ => false } }
pub open spec fn same_col(a: Column, b: Column) -> bool { a.name == b.name && match (a.relation, b.relation) { (None, None) => true, (Some(t), Some(q)) => same_table(t, q), _ => false } }
pub open spec fn carries_cols(p: Seq<ColumnProto>, c: Seq<Column>) -> bool { p.len() == c.len() && forall|i: int| #![trigger p[i]] #![trigger c[i]] 0 <= i < p.len() ==> carries_col(p[i], c[i]) }
pub open spec fn same_cols(a: Seq<Column>, b: Seq<Column>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] same_col(a[i], b[i]) }
pub open spec fn carries_schema(p: SchemaErrorProto, e: SchemaError) -> bool { match (e, p.inner) {
    (SchemaError::AmbiguousReference { field }, Some(SchemaErrorInnerProto::AmbiguousReference(q))) => q.field is Some && carries_col(q.field->0, *field),
    (SchemaError::DuplicateQualifiedField { qualifier, name }, Some(SchemaErrorInnerProto::DuplicateQualifiedField(q))) => q.name == name && q.qualifier is Some && carries_table(q.qualifier->0, *qualifier),
    (SchemaError::DuplicateUnqualifiedField { name }, Some(SchemaErrorInnerProto::DuplicateUnqualifiedField(q))) => q.name == name,
    (SchemaError::FieldNotFound { field, valid_fields }, Some(SchemaErrorInnerProto::FieldNotFound(q))) => q.field is Some && carries_col(*q.field->0, *field) && carries_cols(q.valid_fields@, valid_fields@),
    _ => false,
} }
pub open spec fn same_schema(a: SchemaError, b: SchemaError) -> bool { match (a, b) {
    (SchemaError::AmbiguousReference { field }, SchemaError::AmbiguousReference { field: f }) => same_col(*field, *f),
    (SchemaError::DuplicateQualifiedField { qualifier, name }, SchemaError::DuplicateQualifiedField { qualifier: q, name: n }) => n == name && same_table(*qualifier, *q),
    (SchemaError::DuplicateUnqualifiedField { name }, SchemaError::DuplicateUnqualifiedField { name: n }) => n == name,
    (SchemaError::FieldNotFound { field, valid_fields }, SchemaError::FieldNotFound { field: f, valid_fields: v }) => same_col(*field, *f) && same_cols(valid_fields@, v@),
    _ => false,
} }
// always true: names a pair of a message and an error for the quantifiers below
pub open spec fn pair(p: DataFusionErrorProto, e: DataFusionError) -> bool { true }
pub open spec fn carries(p: DataFusionErrorProto, e: DataFusionError) -> bool decreases p { match (e, p.inner) {
    (DataFusionError::ArrowError(a, m), Some(DataFusionErrorInnerProto::ArrowError(q))) => q.ctx == m && carries_arrow(q, *a),
    (DataFusionError::ParquetError(a), Some(DataFusionErrorInnerProto::ParquetError(q))) => carries_parquet(q, *a),
    (DataFusionError::ObjectStore(a), Some(DataFusionErrorInnerProto::ObjectStoreError(q))) => carries_store(q, *a),
    (DataFusionError::IoError(a), Some(DataFusionErrorInnerProto::IoError(q))) => carries_io(q, q.msg, a),
    (DataFusionError::SQL(a, m), Some(DataFusionErrorInnerProto::SQL(q))) => q.backtrace == m && q.err is Some && carries_parser(q.err->0, *a),
    (DataFusionError::NotImplemented(m), Some(DataFusionErrorInnerProto::NotImplemented(n))) => m == n,
    (DataFusionError::Internal(m), Some(DataFusionErrorInnerProto::Internal(n))) => m == n,
    (DataFusionError::Plan(m), Some(DataFusionErrorInnerProto::Plan(n))) => m == n,
    (DataFusionError::Configuration(m), Some(DataFusionErrorInnerProto::Configuration(n))) => m == n,
    (DataFusionError::Execution(m), Some(DataFusionErrorInnerProto::Execution(n))) => m == n,
    (DataFusionError::ResourcesExhausted(m), Some(DataFusionErrorInnerProto::ResourceExhausted(n))) => m == n,
    (DataFusionError::Substrait(m), Some(DataFusionErrorInnerProto::Substrait(n))) => m == n,
    (DataFusionError::Ffi(m), Some(DataFusionErrorInnerProto::Ffi(n))) => m == n,
    (DataFusionError::SchemaError(a, m), Some(DataFusionErrorInnerProto::Schema(q))) => q.backtrace == *m && carries_schema(q, *a),
    (DataFusionError::ExecutionJoin(j), Some(DataFusionErrorInnerProto::ExecutionJoin(n))) => n == j.t(),
    (DataFusionError::External(g), Some(DataFusionErrorInnerProto::External(n))) => n == g.t(),
    (DataFusionError::Context(m, a), Some(DataFusionErrorInnerProto::Context(q))) => q.ctx == m && q.err is Some && pair(*q.err->0, *a) && carries(*q.err->0, *a),
    (DataFusionError::Diagnostic(_, a), Some(DataFusionErrorInnerProto::Diagnostic(q))) => pair(*q, *a) && carries(*q, *a),
    (DataFusionError::Collection(v), Some(DataFusionErrorInnerProto::Collection(q))) => q.errs@.len() == v@.len() && forall|i: int| #![trigger q.errs@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> pair(*q.errs@[i], v@[i]) && carries(*q.errs@[i], v@[i]),
    (DataFusionError::Shared(a), Some(DataFusionErrorInnerProto::Shared(q))) => pair(*q, *a) && carries(*q, *a),
    _ => false,
} }
// join errors cannot be built: they arrive as internal errors with their text; diagnostics are not sent
pub open spec fn same(a: DataFusionError, b: DataFusionError) -> bool decreases a { match (a, b) {
    (DataFusionError::ArrowError(a, m), DataFusionError::ArrowError(b, n)) => m == n && same_arrow(*a, *b),
    (DataFusionError::ParquetError(a), DataFusionError::ParquetError(b)) => same_parquet(*a, *b),
    (DataFusionError::ObjectStore(a), DataFusionError::ObjectStore(b)) => same_store(*a, *b),
    (DataFusionError::IoError(a), DataFusionError::IoError(b)) => same_io(a, b),
    (DataFusionError::SQL(a, m), DataFusionError::SQL(b, n)) => m == n && same_parser(*a, *b),
    (DataFusionError::NotImplemented(m), DataFusionError::NotImplemented(n)) => m == n,
    (DataFusionError::Internal(m), DataFusionError::Internal(n)) => m == n,
    (DataFusionError::Plan(m), DataFusionError::Plan(n)) => m == n,
    (DataFusionError::Configuration(m), DataFusionError::Configuration(n)) => m == n,
    (DataFusionError::Execution(m), DataFusionError::Execution(n)) => m == n,
    (DataFusionError::ResourcesExhausted(m), DataFusionError::ResourcesExhausted(n)) => m == n,
    (DataFusionError::Substrait(m), DataFusionError::Substrait(n)) => m == n,
    (DataFusionError::Ffi(m), DataFusionError::Ffi(n)) => m == n,
    (DataFusionError::SchemaError(a, m), DataFusionError::SchemaError(b, n)) => *m == *n && same_schema(*a, *b),
    (DataFusionError::ExecutionJoin(j), DataFusionError::Internal(n)) => n == j.t(),
    (DataFusionError::External(g), DataFusionError::External(h)) => g.t() == h.t(),
    (DataFusionError::Context(m, a), DataFusionError::Context(n, b)) => m == n && same(*a, *b),
    (DataFusionError::Diagnostic(_, a), DataFusionError::Diagnostic(_, b)) => same(*a, *b),
    (DataFusionError::Collection(v), DataFusionError::Collection(u)) => v@.len() == u@.len() && forall|i: int| #![trigger v@[i]] #![trigger u@[i]] 0 <= i < v@.len() ==> same(v@[i], u@[i]),
    (DataFusionError::Shared(a), DataFusionError::Shared(b)) => same(*a, *b),
    _ => false,
} }
// ------------------------------------------------------------------ the code
impl IoErrorProto {
//@fn src/protocol/grpc/errors/io_error.rs IoErrorProto::from_io_error
//@ sig: pub fn $name(msg: &Text, err: &IoError) -> (r: Self)
//@ spec: ensures carries_io(r, *msg, *err),
//@end
//@fn src/protocol/grpc/errors/io_error.rs IoErrorProto::to_io_error
//@ spec: ensures forall|m: Text, e: IoError| #[trigger] carries_io(*self, m, e) ==> same_io(e, r.0) && r.1 == m,
//@end
}
impl ArrowErrorProto {
//@fn src/protocol/grpc/errors/arrow_error.rs ArrowErrorProto::from_arrow_error
//@ args: err ctx
//@ spec: ensures carries_arrow(r, *err), r.ctx == match ctx { Some(c) => Some(*c), None => None },
//@end
//@fn src/protocol/grpc/errors/arrow_error.rs ArrowErrorProto::to_arrow_error
//@ spec: ensures forall|e: ArrowError| #[trigger] carries_arrow(*self, e) ==> same_arrow(e, r.0) && r.1 == self.ctx,
//@end
}
impl ParquetErrorProto {
//@fn src/protocol/grpc/errors/parquet_error.rs ParquetErrorProto::from_parquet_error
//@ args: err
//@ spec: ensures carries_parquet(r, *err),
//@end
//@fn src/protocol/grpc/errors/parquet_error.rs ParquetErrorProto::to_parquet_error
//@ spec: ensures forall|e: ParquetError| #[trigger] carries_parquet(*self, e) ==> same_parquet(e, r),
//@end
}
impl ParserErrorProto {
//@fn src/protocol/grpc/errors/parser_error.rs ParserErrorProto::from_parser_error
//@ args: err
//@ spec: ensures carries_parser(r, *err),
//@end
//@fn src/protocol/grpc/errors/parser_error.rs ParserErrorProto::to_parser_error
//@ spec: ensures forall|e: ParserError| #[trigger] carries_parser(*self, e) ==> same_parser(e, r),
//@end
}
// (a Text stands for a str: the contract assumed of parse_store below is the one proved here)
pub open spec fn known_name(s: &str) -> bool { s == "GCS" || s == "MicrosoftAzure" || s == "S3" || s == "Config" || s == "ChunkedStore" || s == "LineDelimiter" || s == "HTTP client" || s == "HTTP" || s == "URL" || s == "InMemory" || s == "ObjectStoreRegistry" || s == "Parts" || s == "LocalFileSystem" }
//@fn src/protocol/grpc/errors/objectstore_error.rs parse_store as parse_store_text
//@ sig: pub fn $name(store: &str) -> (r: &'static str)
//@ spec: ensures known_name(store) ==> r == store,
//@end
#[verifier::external_body] pub fn parse_store(s: &Text) -> (r: StoreName) ensures known_store(*s) ==> r.t() == *s { unimplemented!() }
impl ObjectStoreErrorProto {
//@fn src/protocol/grpc/errors/objectstore_error.rs ObjectStoreErrorProto::from_object_store_error
//@ args: err
//@ spec: ensures carries_store(r, *err),
//@end
//@fn src/protocol/grpc/errors/objectstore_error.rs ObjectStoreErrorProto::to_object_store_error
//@ subst: format!("InvalidPath: {}", msg.source).vx_into() => mention(&msg.source)
//@ subst: format!("JoinError: {}", msg.source).vx_into() => mention(&msg.source)
//@ subst: store: "unknown" => store: unknown_store()
//@ spec: ensures forall|e: StoreError| #[trigger] carries_store(*self, e) ==> same_store(e, r),
//@end
}
#[verifier::external_body] pub fn unknown_store() -> StoreName { unimplemented!() }
impl TableReferenceProto {
//@fn src/protocol/grpc/errors/schema_error.rs TableReferenceProto::from_table_reference
//@ args: v
//@ spec: ensures carries_table(r, *v),
//@end
//@fn src/protocol/grpc/errors/schema_error.rs TableReferenceProto::to_table_reference
//@ spec: ensures forall|e: TableReference| #[trigger] carries_table(*self, e) ==> same_table(e, r),
//@end
}
impl ColumnProto {
//@fn src/protocol/grpc/errors/schema_error.rs ColumnProto::from_column
//@ args: v
//@ spec: ensures carries_col(r, *v),
//@end
//@fn src/protocol/grpc/errors/schema_error.rs ColumnProto::to_column
//@ closure 0: |v: &TableReferenceProto| -> (o: TableReference) ensures forall|e: TableReference| #[trigger] carries_table(*v, e) ==> same_table(e, o)
//@ spec: ensures forall|c: Column| #[trigger] carries_col(*self, c) ==> same_col(c, r),
//@end
}
impl SchemaErrorProto {
//@fn src/protocol/grpc/errors/schema_error.rs SchemaErrorProto::from_schema_error
//@ args: err backtrace
//@ spec: ensures carries_schema(r, *err), r.backtrace == match backtrace { Some(c) => Some(*c), None => None },
//@end
//@fn src/protocol/grpc/errors/schema_error.rs SchemaErrorProto::to_schema_error
//@ closure 0: |v: &ColumnProto| -> (o: Column) ensures forall|e: Column| #[trigger] carries_col(*v, e) ==> same_col(e, o)
//@ closure 1: |v: &TableReferenceProto| -> (o: TableReference) ensures forall|e: TableReference| #[trigger] carries_table(*v, e) ==> same_table(e, o)
//@ closure 2: |v: &Box<ColumnProto>| -> (o: Column) ensures forall|e: Column| #[trigger] carries_col(**v, e) ==> same_col(e, o)
//@ closure 3: |v: &ColumnProto| -> (o: Column) ensures forall|e: Column| #[trigger] carries_col(*v, e) ==> same_col(e, o)
//@ spec: ensures forall|e: SchemaError| #[trigger] carries_schema(*self, e) ==> same_schema(e, r.0) && r.1 == self.backtrace,
//@end
}
impl DataFusionErrorProto {
//@fn src/protocol/grpc/errors/datafusion_error.rs DataFusionErrorProto::from_datafusion_error
//@ args: err
//@ subst: errs.iter().map(DataFusionErrorProto::from_datafusion_error).map(Box::new).collect() => from_all(errs)
//@ subst: IoErrorProto::from_io_error("", err) => IoErrorProto::from_io_error(&no_text(), err)
//@ subst: err.as_ref() => &**err
//@ subst: backtrace.as_ref().as_ref() => (&**backtrace).as_ref()
//@ header: #[verifier::exec_allows_no_decreases_clause]
//@ spec: ensures carries(r, *err),
//@end
//@fn src/protocol/grpc/errors/datafusion_error.rs DataFusionErrorProto::to_datafusion_err
//@ closure 0: |err: &ParserErrorProto| -> (o: ParserError) ensures forall|e: ParserError| #[trigger] carries_parser(*err, e) ==> same_parser(e, o)
//@ closure 1: |v: &Box<DataFusionErrorProto>| -> (o: DataFusionError) ensures forall|e: DataFusionError| #[trigger] pair(**v, e) && carries(**v, e) ==> same(e, o)
//@ closure 2: |err: &Box<DataFusionErrorProto>| -> (o: DataFusionError) ensures forall|e: DataFusionError| #[trigger] pair(**err, e) && carries(**err, e) ==> same(e, o)
//@ subst: Box::new(DistributedDataFusionGenericError { message: generic.clone(), }) => generic_error(DistributedDataFusionGenericError { message: generic.clone() })
//@ header: #[verifier::exec_allows_no_decreases_clause]
//@ spec: ensures forall|e: DataFusionError| #[trigger] pair(*self, e) && carries(*self, e) ==> same(e, r),
//@end
}
#[verifier::external_body] pub fn no_text() -> Text { unimplemented!() }
#[verifier::external_body] pub fn generic_error(e: DistributedDataFusionGenericError) -> (r: GenericError) ensures r.t() == e.message { unimplemented!() }
proof fn lemma_collection(v: Vec<DataFusionError>, q: Vec<Box<DataFusionErrorProto>>)
    requires v@.len() == q@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] carries(*q@[i], v@[i]),
    ensures carries(DataFusionErrorProto { inner: Some(DataFusionErrorInnerProto::Collection(DataFusionCollectionErrorProto { errs: q })) }, DataFusionError::Collection(v)),
{
    let p = DataFusionErrorProto { inner: Some(DataFusionErrorInnerProto::Collection(DataFusionCollectionErrorProto { errs: q })) };
    assert(carries(p, DataFusionError::Collection(v)) == (q@.len() == v@.len() && forall|i: int| #![trigger q@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> pair(*q@[i], v@[i]) && carries(*q@[i], v@[i]))); 
}
// `errs.iter().map(from_datafusion_error).map(Box::new).collect()`
#[verifier::exec_allows_no_decreases_clause]
pub fn from_all(errs: &Vec<DataFusionError>) -> (r: Vec<Box<DataFusionErrorProto>>)
    ensures r@.len() == errs@.len(), forall|i: int| #![trigger r@[i]] #![trigger errs@[i]] 0 <= i < errs@.len() ==> carries(*r@[i], errs@[i]),
        carries(DataFusionErrorProto { inner: Some(DataFusionErrorInnerProto::Collection(DataFusionCollectionErrorProto { errs: r })) }, DataFusionError::Collection(*errs)),
{
    let mut out: Vec<Box<DataFusionErrorProto>> = Vec::new();
    for err in it: errs.iter()
        invariant it.seq().len() == errs@.len(), forall|i: int| 0 <= i < errs@.len() ==> *(#[trigger] it.seq()[i]) == errs@[i], out@.len() == it.index(), forall|i: int| 0 <= i < it.index() ==> #[trigger] carries(*out@[i], errs@[i]),
    { out.push(Box::new(DataFusionErrorProto::from_datafusion_error(err))); }
    proof { lemma_collection(*errs, out); }
    out
}

// ------------------------------------------------------------------ across the wire
pub struct Bytes { x: u8 }
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum Code { Ok, Cancelled, Unknown, InvalidArgument, DeadlineExceeded, NotFound, AlreadyExists, PermissionDenied, ResourceExhausted, FailedPrecondition, Aborted, OutOfRange, Unimplemented, Internal, Unavailable, DataLoss, Unauthenticated }
#[verifier::external_body] pub struct Status { _x: u8 }
impl Status {
    pub uninterp spec fn c(&self) -> Code;
    pub uninterp spec fn m(&self) -> Seq<char>;
    pub uninterp spec fn d(&self) -> Bytes;
    #[verifier::external_body] pub fn with_details(code: Code, message: &str, details: Bytes) -> (r: Self) ensures r.c() == code, r.m() == message@, r.d() == details { unimplemented!() }
    #[verifier::external_body] pub fn code(&self) -> (r: Code) ensures r == self.c() { unimplemented!() }
    #[verifier::external_body] pub fn message_is(&self, s: &str) -> (r: bool) ensures r == (self.m() == s@) { unimplemented!() }
    #[verifier::external_body] pub fn details(&self) -> (r: Bytes) ensures r == self.d() { unimplemented!() }
}
impl VxInto<Bytes> for Bytes { open spec fn kept(&self, r: Bytes) -> bool { r == *self } fn vx_into(self) -> (r: Bytes) { self } }
/// what prost writes for a message
pub uninterp spec fn bytes(p: DataFusionErrorProto) -> Bytes;
/// a message nested within the depth that prost reads
pub uninterp spec fn shallow(p: DataFusionErrorProto) -> bool;
#[verifier::external_body] pub fn encode(p: &DataFusionErrorProto) -> (r: Bytes) ensures r == bytes(*p) { unimplemented!() }
// prost reads back what it wrote: each alternative is listed under a number of its own (theorem_every_alternative_decodes)
#[verifier::external_body] pub fn decode(b: Bytes) -> (r: Result<DataFusionErrorProto, Text>) ensures forall|p: DataFusionErrorProto| #[trigger] bytes(p) == b && shallow(p) ==> r == Ok::<DataFusionErrorProto, Text>(p) { unimplemented!() }
#[verifier::external_body] pub fn cannot_decode() -> DataFusionError { unimplemented!() }
pub open spec fn marked(s: Status) -> bool { s.c() == Code::Internal && s.m() == "DataFusionError"@ }
//@fn src/protocol/grpc/errors/mod.rs datafusion_error_to_tonic_status
//@ sig: pub fn $name(err: &DataFusionError) -> (r: Status)
//@ subst: err.borrow() => err
//@ subst: err.encode_to_vec() => encode(&err)
//@ spec: ensures marked(r), exists|p: DataFusionErrorProto| #[trigger] bytes(p) == r.d() && carries(p, *err),
//@end
//@fn src/protocol/grpc/errors/mod.rs tonic_status_to_datafusion_error
//@ sig: pub fn $name(status: &Status) -> (r: Option<DataFusionError>)
//@ subst: let status = status.borrow(); => 
//@ subst: status.message() != "DataFusionError" => !status.message_is("DataFusionError")
//@ subst: status.message() == "DataFusionError" => status.message_is("DataFusionError")
//@ subst: DataFusionErrorProto::decode( => decode(
//@ subst: internal_datafusion_err!($..) => cannot_decode()
//@ spec: ensures marked(*status) <==> r is Some, forall|p: DataFusionErrorProto, e: DataFusionError| marked(*status) && #[trigger] bytes(p) == status.d() && shallow(p) && #[trigger] pair(p, e) && carries(p, e) ==> same(e, r->0),
//@end
// what one side sends, the other side reads
pub fn theorem_errors_survive_the_wire(e: &DataFusionError) -> (r: Option<DataFusionError>)
    ensures exists|p: DataFusionErrorProto| #[trigger] carries(p, *e) && (shallow(p) ==> r is Some && same(*e, r->0)),
{
    let s = datafusion_error_to_tonic_status(e);
    let r = tonic_status_to_datafusion_error(&s);
    proof { let p = choose|p: DataFusionErrorProto| #[trigger] bytes(p) == s.d() && carries(p, *e); assert(pair(p, *e)); assert(carries(p, *e) && (shallow(p) ==> r is Some && same(*e, r->0))); }
    r
}
} // verus!
fn main() {}
