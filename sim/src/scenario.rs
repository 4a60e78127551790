//! A scenario is everything one simulated run needs: schema and per-column value generators,
//! configuration, batch partition, fill schedule, behaviour of the simulated sink and of the
//! simulated client. Executing a scenario draws no randomness that is not derived from seeds
//! stored inside it, so a scenario file is a replay file.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Boolean,
    Short,
    Int,
    Long,
    Date,
    Float,
    Double,
    Timestamp,
    Decimal(u32, u32),
    Str,
    Binary,
    Char(u32),
    VarChar(u32),
    Struct,
    List,
    Map,
    Union,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Nulls {
    None,
    All,
    /// Independently with probability p/256.
    Random(u8),
    /// Segments of nulls, of values, of alternation.
    Segments,
    /// Exactly the cell with this index (modulo 4096) is null.
    Single(u32),
    /// Exactly the cells with index >= this are null.
    From(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    /// Field name, when the parent is a struct.
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub name: String,
    pub nulls: Nulls,
    /// Seed of this column's value stream.
    pub seed: u64,
    /// Which segment shapes the value stream may use (bit mask; 0 = constant zero).
    pub mask: u32,
    /// Scale parameter of the values (string lengths, list lengths).
    pub scale: u32,
    /// Particular numbers and texts that the values also take.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub magic: Vec<i64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub texts: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub children: Vec<Node>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Codec {
    None,
    Snappy,
    Zstd,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub codec: Codec,
    /// None: the default of the codec.
    pub block: Option<u32>,
    /// None: the default level.
    pub level: Option<i32>,
    pub stride: Option<u32>,
    pub stripe: Option<u64>,
}

pub const DEFAULT_STRIDE: u32 = 10000;
pub const DEFAULT_STRIPE: u64 = 67108864;
pub const DEFAULT_BLOCK: u32 = 262144;
pub const MAX_BLOCK: u32 = 0x7f_ffff;

impl Cfg {
    pub fn block_size(&self) -> u64 {
        match self.codec {
            Codec::None => 0,
            _ => self.block.unwrap_or(DEFAULT_BLOCK) as u64,
        }
    }
    pub fn stride_value(&self) -> u64 {
        self.stride.unwrap_or(DEFAULT_STRIDE) as u64
    }
    pub fn stripe_value(&self) -> u64 {
        self.stripe.unwrap_or(DEFAULT_STRIPE)
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fill {
    /// Each column completely, parents first.
    PreOrder,
    /// Each column completely, children first.
    PostOrder,
    /// Each column completely, in a random order per batch.
    Shuffled(u64),
    /// Random column, random number of cells, until all are filled.
    Interleaved(u64),
    /// Row after row, parents first.
    RowMajor,
}

/// How much of each write the sink accepts.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Accept {
    Whole,
    AtMost(u32),
    /// A pseudo-random part; derived from the seed and the call number.
    Random(u64),
    /// All but the last byte of each write longer than one byte.
    AllButOne,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    /// When this many bytes have been accepted (a write crossing it is cut there).
    Byte(u64),
    /// At the n-th flush call (0-based).
    Flush(u32),
    /// At the n-th write call (0-based).
    Call(u64),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Interrupted,
    Other,
    BrokenPipe,
    NoSpace,
    WouldBlock,
    TimedOut,
    UnexpectedEof,
    /// A write that accepts nothing.
    Zero,
    /// The sink panics (unwinds) in the middle of a write.
    Panic,
    /// Any other kind of error, by its place in `KINDS`.
    Kind(u8),
    /// An error of the operating system, by its number.
    Os(i32),
}

/// Every error kind a sink may report, except interruption.
pub const KINDS: [std::io::ErrorKind; 33] = {
    use std::io::ErrorKind::*;
    [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected,
        AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty,
        ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded,
        FileTooLarge, ResourceBusy, Deadlock, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ]
};

/// EIO, EBADF, EAGAIN, ENOMEM, EBUSY, EINVAL, EFBIG, ENOSPC, EROFS, EPIPE, ENOSYS, EOPNOTSUPP, ECONNRESET, ETIMEDOUT, ESTALE, EDQUOT.
pub const OS_ERRORS: [i32; 16] = [5, 9, 11, 12, 16, 22, 27, 28, 30, 32, 38, 95, 104, 110, 116, 122];

impl Act {
    pub fn is_hard(self) -> bool {
        self != Act::Interrupted
    }
    pub fn code(self) -> u64 {
        match self {
            Act::Interrupted => 0,
            Act::Other => 1,
            Act::BrokenPipe => 2,
            Act::NoSpace => 3,
            Act::WouldBlock => 4,
            Act::TimedOut => 5,
            Act::UnexpectedEof => 6,
            Act::Zero => 7,
            Act::Panic => 8,
            Act::Kind(k) => 100 + k as u64,
            Act::Os(e) => 1000 + e as u64,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    pub at: Place,
    pub act: Act,
    /// How often it strikes before the sink recovers; 0 = permanent.
    pub times: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct SinkPlan {
    pub accept: Accept,
    /// (seed, probability/256, longest burst) of spontaneous interruptions.
    pub interrupts: Option<(u64, u8, u8)>,
    pub faults: Vec<Fault>,
    /// The sink persists data on its own every so many bytes (0 = only on flush).
    pub writeback: u32,
}

impl SinkPlan {
    pub fn clean() -> SinkPlan {
        SinkPlan { accept: Accept::Whole, interrupts: None, faults: vec![], writeback: 0 }
    }
}

/// What the client does after a call failed.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Reaction {
    /// Drop the writer.
    Abandon,
    /// Go straight to finish.
    Finish,
    /// Carry on with the remaining batches, then finish.
    Continue,
    /// Repeat an empty write_batch a few times, then carry on and finish.
    RetryEmpty,
    /// Repeat the failed batch (fill it again and commit), carry on, finish.
    Refill,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Misuse {
    /// In this batch, the column gets one cell fewer.
    Missing { batch: u32, col: u32 },
    /// In this batch, the column gets this many extra cells.
    Extra { batch: u32, col: u32, n: u32, null: bool },
    /// The batch is declared with this many rows more (or fewer).
    Declare { batch: u32, delta: i64 },
    /// The last batch is filled but never committed.
    Uncommitted { rows: u32 },
    /// A union column is given a tag outside its variants (before filling the batch's cells).
    BadTag { batch: u32, col: u32, tag: u64 },
    /// Two columns: one cell moved from one sibling to another (totals agree, columns do not).
    Swap { batch: u32, less: u32, more: u32 },
    /// Two lengths of a list or map column are too large by 2^63 each, so that their sum is
    /// right modulo 2^64.
    /// With `by` set, instead: one length is too large by that much (2^8, 2^16, 2^32, ...).
    Huge {
        batch: u32,
        col: u32,
        #[serde(default, skip_serializing_if = "is_zero")]
        by: u64,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scenario {
    pub root: Node,
    pub batches: Vec<u32>,
    pub cfg: Cfg,
    pub fill: Fill,
    pub sink: SinkPlan,
    pub reaction: Reaction,
    /// Drop the writer after this many committed batches instead of finishing.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub abandon_after: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub misuse: Option<Misuse>,
    /// Seed of the client's looking around between its calls (C14); 0 = it does not.
    #[serde(default, skip_serializing_if = "is_zero")]
    pub probe: u64,
}

fn is_zero(x: &u64) -> bool {
    *x == 0
}

/// One simulated run as generated from a seed and as stored in a replay file.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub property: String,
    pub main: Scenario,
    /// Further scenarios: the other writers of C13; the re-partitioned twin of C12.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub others: Vec<Scenario>,
    /// Seed of the interleaving of several writers, of twin schedules.
    #[serde(default)]
    pub sched: u64,
    /// C13: number of simulated threads the writers are spread over.
    #[serde(default)]
    pub threads: u32,
    /// A run beyond 32-bit sizes, which replaces everything above.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub giant: Option<crate::giant::Giant>,
    /// C16: requests at and beyond the format's limits, made along the way.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub attempts: Vec<crate::limits::Attempt>,
}

impl Node {
    pub fn count(&self) -> usize {
        1 + self.children.iter().map(|c| c.count()).sum::<usize>()
    }
}
