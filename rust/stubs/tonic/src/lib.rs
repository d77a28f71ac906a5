//! Stand-in for the parts of tonic which the backend's service uses (no network: the driver calls the service itself).
pub use tonic_macros::async_trait;

#[macro_export]
macro_rules! include_proto {
    ($package:tt) => {
        include!(env!("FICUS_PROTO_RS"));
    };
}

#[derive(Debug)]
pub struct Request<T>(T);

impl<T> Request<T> {
    pub fn new(message: T) -> Self {
        Request(message)
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}

#[derive(Debug)]
pub struct Response<T>(T);

impl<T> Response<T> {
    pub fn new(message: T) -> Self {
        Response(message)
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code {
    Ok,
    Cancelled,
    Unknown,
    InvalidArgument,
    DeadlineExceeded,
    NotFound,
    AlreadyExists,
    PermissionDenied,
    ResourceExhausted,
    FailedPrecondition,
    Aborted,
    OutOfRange,
    Unimplemented,
    Internal,
    Unavailable,
    DataLoss,
    Unauthenticated,
}

#[derive(Debug, Clone)]
pub struct Status {
    code: Code,
    message: String,
}

macro_rules! constructors {
    ($($name:ident $code:ident),*) => { impl Status { $(pub fn $name(message: impl Into<String>) -> Self { Status::new(Code::$code, message) })* } };
}

constructors!(ok Ok, cancelled Cancelled, unknown Unknown, invalid_argument InvalidArgument, deadline_exceeded DeadlineExceeded, not_found NotFound,
              already_exists AlreadyExists, permission_denied PermissionDenied, resource_exhausted ResourceExhausted,
              failed_precondition FailedPrecondition, aborted Aborted, out_of_range OutOfRange, unimplemented Unimplemented, internal Internal,
              unavailable Unavailable, data_loss DataLoss, unauthenticated Unauthenticated);

impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Self {
        Status { code, message: message.into() }
    }
    pub fn code(&self) -> Code {
        self.code
    }
    pub fn message(&self) -> &str {
        &self.message
    }
}

impl std::fmt::Display for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}: {}", self.code, self.message)
    }
}

impl std::error::Error for Status {}
