//! Stand-in for the bxes library: the same models, stored with bincode instead of the bxes binary format.
pub mod models {
    use serde::{Deserialize, Serialize};
    use std::rc::Rc;

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum BrafLifecycle {
        Unspecified,
        Closed,
        ClosedCancelled,
        ClosedCancelledAborted,
        ClosedCancelledError,
        ClosedCancelledExited,
        ClosedCancelledObsolete,
        ClosedCancelledTerminated,
        Completed,
        CompletedFailed,
        CompletedSuccess,
        Open,
        OpenNotRunning,
        OpenNotRunningAssigned,
        OpenNotRunningReserved,
        OpenNotRunningSuspendedAssigned,
        OpenNotRunningSuspendedReserved,
        OpenRunning,
        OpenRunningInProgress,
        OpenRunningSuspended,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum StandardLifecycle {
        Unspecified,
        Assign,
        AteAbort,
        Autoskip,
        Complete,
        ManualSkip,
        PiAbort,
        ReAssign,
        Resume,
        Schedule,
        Start,
        Suspend,
        Unknown,
        Withdraw,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum Lifecycle {
        Braf(BrafLifecycle),
        Standard(StandardLifecycle),
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct BxesArtifact {}

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct BxesDrivers {}

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum SoftwareEventType {
        Unspecified,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum BxesValue {
        Int32(i32),
        Int64(i64),
        Uint32(u32),
        Uint64(u64),
        Float32(f32),
        Float64(f64),
        String(Rc<Box<String>>),
        Bool(bool),
        Timestamp(i64),
        BrafLifecycle(BrafLifecycle),
        StandardLifecycle(StandardLifecycle),
        Artifact(BxesArtifact),
        Drivers(BxesDrivers),
        Guid(uuid::Uuid),
        SoftwareEventType(SoftwareEventType),
    }

    type V = Rc<Box<BxesValue>>;

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct BxesEvent {
        pub name: V,
        pub timestamp: i64,
        pub attributes: Option<Vec<(V, V)>>,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct BxesTraceVariant {
        pub traces_count: u32,
        pub metadata: Vec<(V, V)>,
        pub events: Vec<BxesEvent>,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct BxesExtension {
        pub name: V,
        pub prefix: V,
        pub uri: V,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct BxesClassifier {
        pub name: V,
        pub keys: Vec<V>,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum BxesGlobalKind {
        Event,
        Trace,
        Log,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct BxesGlobal {
        pub entity_kind: BxesGlobalKind,
        pub globals: Vec<(V, V)>,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct BxesEventLogMetadata {
        pub extensions: Option<Vec<BxesExtension>>,
        pub classifiers: Option<Vec<BxesClassifier>>,
        pub properties: Option<Vec<(V, V)>>,
        pub globals: Option<Vec<BxesGlobal>>,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct BxesEventLog {
        pub version: u32,
        pub metadata: BxesEventLogMetadata,
        pub variants: Vec<BxesTraceVariant>,
    }
}

pub mod read {
    pub mod errors {
        #[derive(Debug)]
        pub struct BxesReadError(pub String);

        impl std::fmt::Display for BxesReadError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.0)
            }
        }
    }

    pub mod single_file_bxes_reader {
        use super::errors::BxesReadError;
        use crate::models::BxesEventLog;

        pub fn read_bxes(path: &str) -> Result<BxesEventLog, BxesReadError> {
            let bytes = std::fs::read(path).map_err(|e| BxesReadError(e.to_string()))?;
            bincode::deserialize(&bytes).map_err(|e| BxesReadError(e.to_string()))
        }
    }
}

pub mod writer {
    pub mod errors {
        #[derive(Debug)]
        pub struct BxesWriteError(pub String);

        impl std::fmt::Display for BxesWriteError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.0)
            }
        }
    }

    pub mod single_file_bxes_writer {
        use super::errors::BxesWriteError;
        use crate::models::BxesEventLog;

        pub fn write_bxes(path: &str, log: &BxesEventLog) -> Result<(), BxesWriteError> {
            let bytes = bincode::serialize(log).map_err(|e| BxesWriteError(e.to_string()))?;
            std::fs::write(path, bytes).map_err(|e| BxesWriteError(e.to_string()))
        }
    }
}
