use crate::driver::{Kind, Property, Scenario};
pub mod abort;
pub mod amutex;
pub mod awaker;
pub mod combo;
pub mod compat;
pub mod conc;
pub mod crowd;
pub mod exec;
pub mod fu;
pub mod futs;
pub mod fused;
pub mod iolarge;
pub mod ioread;
pub mod iowrite;
pub mod memio;
pub mod merge;
pub mod mpsc;
pub mod oneshot;
pub mod orphan;
pub mod pins;
pub mod remote;
pub mod shared;
pub mod sinks;
pub mod split;
pub mod steady;
pub mod streams;
pub mod testkit;
pub mod unwind;
pub mod wakers;

macro_rules! scen {
    ($v:ident, $name:expr, $kind:expr, $f:expr) => {
        pub static $v: Scenario = Scenario { name: $name, kind: $kind, f: $f };
    };
}
scen!(MPSC, "mpsc", Kind::Threads, mpsc::both);
scen!(MPSC_B, "mpsc-bounded", Kind::Threads, mpsc::bounded);
scen!(AWAKER, "atomic-waker", Kind::Threads, awaker::run);
scen!(AMUTEX, "async-mutex", Kind::Threads, amutex::run);
scen!(BILOCK, "bilock", Kind::Threads, split::bilock);
scen!(SPLIT_S, "stream-split", Kind::Threads, split::stream);
scen!(SPLIT_IO, "io-split", Kind::Threads, split::io);
scen!(SHARED, "shared", Kind::Threads, shared::run);
scen!(SHARED_P, "shared-panic", Kind::Threads, shared::panics);
scen!(ABORT, "abortable", Kind::Threads, abort::run);
scen!(ABORT_K, "abortable-copies", Kind::Single, abort::copies);
scen!(ABORT_C, "abortable-copy", Kind::Threads, abort::copy);
scen!(REMOTE, "remote-handle", Kind::Threads, remote::run);
scen!(FU, "futures-unordered", Kind::Threads, fu::run);
scen!(FU_P, "futures-unordered-panic", Kind::Threads, fu::panics);
scen!(LOCAL, "local-executors", Kind::Threads, exec::local);
scen!(LOCAL_P, "local-pool-panic", Kind::Threads, exec::local_panics);
scen!(POOL_P, "thread-pool-panic", Kind::Threads, exec::thread_pool_panics);
scen!(UW_C, "unwind-combinators", Kind::Threads, unwind::combos);
scen!(UW_S, "unwind-streams", Kind::Threads, unwind::strs);
scen!(UW_M, "unwind-sets-and-merges", Kind::Threads, unwind::merges);
scen!(UW_I, "unwind-io-and-sinks", Kind::Threads, unwind::ios);
scen!(UW_K, "caught-panics", Kind::Single, unwind::caught);
scen!(ORPHAN, "orphaned-tasks", Kind::Threads, orphan::run);
scen!(AMUTEX_P, "async-mutex-panic", Kind::Threads, amutex::panics);
scen!(BILOCK_P, "bilock-panic", Kind::Threads, split::bilock_panics);
scen!(POOL, "thread-pool", Kind::Threads, exec::thread_pool);
scen!(ARCWAKE, "arc-wake", Kind::Threads, wakers::arc_wake);
scen!(FOBJ, "future-obj", Kind::Threads, wakers::future_obj);
scen!(ONESHOT, "oneshot", Kind::Threads, oneshot::run);

scen!(CONC_B, "bounded-concurrency", Kind::Single, conc::buffers);
scen!(CONC_O, "futures-ordered", Kind::Single, conc::ordered);
scen!(MG_F, "merge", Kind::Single, merge::fixed);
scen!(MG_G, "select-all-growing", Kind::Single, merge::growing);
scen!(MG_U, "flatten-unordered", Kind::Single, merge::flatten);
scen!(MG_T, "merge-threads", Kind::Threads, merge::threads);
scen!(JOINS, "join", Kind::Single, combo::joins);
scen!(TJOINS, "try-join", Kind::Single, combo::try_joins);
scen!(SELECTS, "select", Kind::Single, combo::selects);
scen!(SELMAC, "select-macros", Kind::Single, combo::macros);
scen!(IO_LR, "io-large-read", Kind::Single, iolarge::read);
scen!(IO_LW, "io-large-write", Kind::Single, iolarge::write);
scen!(CR_C, "crowd-channel", Kind::Single, crowd::channel);
scen!(CR_M, "crowd-mutex", Kind::Single, crowd::mutex);
scen!(CR_S, "crowd-shared", Kind::Single, crowd::shared);
scen!(CR_U, "crowd-set", Kind::Single, crowd::set);
scen!(CR_W, "crowd-window", Kind::Single, crowd::window);
scen!(CR_G, "crowd-merge", Kind::Single, crowd::merge);
scen!(CR_P, "crowd-pool", Kind::Single, crowd::pool);
scen!(IO_R, "readers", Kind::Single, ioread::readers);
scen!(IO_SK, "seeking-readers", Kind::Single, ioread::seeks);
scen!(IO_M, "in-memory-io", Kind::Single, memio::run);
scen!(M_IO_M, "mem-in-memory-io", Kind::Tracked, memio::run);
scen!(IO_W, "writers", Kind::Single, iowrite::writers);
scen!(IO_S, "byte-sinks", Kind::Single, iowrite::sinks);
scen!(SINKS, "sink-adapters", Kind::Single, sinks::adapters);
scen!(CP_V, "compat-values", Kind::Single, compat::values);
scen!(CP_T, "compat-threads", Kind::Threads, compat::threads);
scen!(ST_AD, "stream-adapters", Kind::Single, streams::adapters);
scen!(ST_FAD, "fused-stream-adapters", Kind::Single, streams::fused_adapters);
scen!(ST_FTAD, "fused-try-stream-adapters", Kind::Single, streams::fused_try_adapters);
scen!(FUTS, "future-combinators", Kind::Single, futs::run);
scen!(M_FUTS, "mem-future-combinators", Kind::Tracked, futs::run);
scen!(FUSED_F, "fused-futures", Kind::Single, fused::futures_);
scen!(FUSED_M, "fused-merges", Kind::Single, fused::merges);
scen!(ST_CO, "stream-consumers", Kind::Single, streams::consumers);
scen!(ST_TAD, "try-stream-adapters", Kind::Single, streams::try_adapters);
scen!(ST_TCO, "try-stream-consumers", Kind::Single, streams::try_consumers);
scen!(ST_TU, "take-until", Kind::Single, streams::take_until);

scen!(M_CONC_B, "mem-bounded-concurrency", Kind::Tracked, conc::buffers);
scen!(M_CONC_O, "mem-futures-ordered", Kind::Tracked, conc::ordered);
scen!(M_MG_F, "mem-merge", Kind::Tracked, merge::fixed);
scen!(M_MG_G, "mem-select-all-growing", Kind::Tracked, merge::growing);
scen!(M_MG_U, "mem-flatten-unordered", Kind::Tracked, merge::flatten);
scen!(M_JOINS, "mem-join", Kind::Tracked, combo::joins);
scen!(M_TJOINS, "mem-try-join", Kind::Tracked, combo::try_joins);
scen!(M_SELECTS, "mem-select", Kind::Tracked, combo::selects);
scen!(M_SELMAC, "mem-select-macros", Kind::Tracked, combo::macros);
scen!(M_IO_R, "mem-readers", Kind::Tracked, ioread::readers);
scen!(M_IO_SK, "mem-seeking-readers", Kind::Tracked, ioread::seeks);
scen!(M_IO_W, "mem-writers", Kind::Tracked, iowrite::writers);
scen!(M_IO_S, "mem-byte-sinks", Kind::Tracked, iowrite::sinks);
scen!(M_SINKS, "mem-sink-adapters", Kind::Tracked, sinks::adapters);
scen!(M_CP_V, "mem-compat-values", Kind::Tracked, compat::values);
scen!(M_ST_AD, "mem-stream-adapters", Kind::Tracked, streams::adapters);
scen!(M_ST_FAD, "mem-fused-stream-adapters", Kind::Tracked, streams::fused_adapters);
scen!(M_ST_FTAD, "mem-fused-try-stream-adapters", Kind::Tracked, streams::fused_try_adapters);
scen!(M_FUSED_F, "mem-fused-futures", Kind::Tracked, fused::futures_);
scen!(M_FUSED_M, "mem-fused-merges", Kind::Tracked, fused::merges);
scen!(M_ST_CO, "mem-stream-consumers", Kind::Tracked, streams::consumers);
scen!(M_ST_TAD, "mem-try-stream-adapters", Kind::Tracked, streams::try_adapters);
scen!(M_ST_TCO, "mem-try-stream-consumers", Kind::Tracked, streams::try_consumers);
scen!(M_ST_TU, "mem-take-until", Kind::Tracked, streams::take_until);
scen!(TK_A, "test-adapters", Kind::Single, testkit::adapters);
scen!(M_TK_A, "mem-test-adapters", Kind::Tracked, testkit::adapters);
scen!(TK_T, "test-threads", Kind::Threads, testkit::threads);
scen!(PIN_S, "pinned", Kind::Single, pins::single);
scen!(M_PIN_S, "mem-pinned", Kind::Tracked, pins::single);
scen!(PIN_T, "pinned-threads", Kind::Threads, pins::threads);
scen!(STEADY, "steady-state", Kind::Tracked, steady::run);

const SG: &str = "input streams and futures, closures, executor, event source";
const EX: &str = "harness executor (strict waker contract)";
macro_rules! props {
    ($($id:literal $q:literal [$(($s:ident, $w:literal)),*] $real:literal, $stub:expr, [$($a:literal),*];)*) => {
        pub static PROPS: &[Property] = &[$(Property {
            id: $id, scen: &[$((&$s, $w)),*], quick: $q, real: $real, stub: $stub, assumptions: &[$($a),*],
        }),*];
    };
}
props! {
    "C01" 180_000 [(ONESHOT, 1)] "futures-channel oneshot, std (Arc, thread, park), all instrumented", EX, [];
    "C02" 180_000 [(MPSC, 30), (CR_C, 1)] "futures-channel mpsc incl. lock-free queue, AtomicWaker, SinkExt::send, std", EX, [];
    "C03" 180_000 [(MPSC_B, 30), (CR_C, 1)] "futures-channel bounded mpsc, AtomicWaker, SinkExt::send, std", EX, [];
    "C04" 180_000 [(AWAKER, 1)] "futures-core AtomicWaker, std", EX, [];
    "C05" 180_000 [(AMUTEX, 30), (CR_M, 1)] "futures-util lock::Mutex (plain, owned, mapped guards), slab, std", EX, [];
    "C06" 180_000 [(BILOCK, 2), (SPLIT_S, 2), (SPLIT_IO, 1)] "futures-util BiLock, stream split, io split, SinkExt/AsyncReadExt/AsyncWriteExt operations", "harness executor; split object (in-memory duplex)", [];
    "C07" 180_000 [(SHARED, 30), (CR_S, 1)] "futures-util Shared/WeakShared, slab, ArcWake wakers, std", "harness executor; wrapped future", [];
    "C08" 180_000 [(FU, 30), (CR_U, 1)] "futures-util FuturesUnordered (ready queue, task list, iterators), AtomicWaker, std", "harness executor; member futures", [];
    "C10" 180_000 [(ABORT, 30), (ABORT_C, 10), (ABORT_K, 1)] "futures-util Abortable/AbortHandle, copy_buf_abortable, AtomicWaker", "harness executor; wrapped future/stream", [];
    "C11" 180_000 [(REMOTE, 1)] "futures-util RemoteHandle/Remote/CatchUnwind, futures-channel oneshot", "harness executor; wrapped future", [];
    "C21" 180_000 [(FU_P, 1), (SHARED_P, 1), (POOL_P, 1), (LOCAL_P, 1), (UW_C, 1), (UW_S, 1), (UW_M, 1), (UW_I, 1), (UW_K, 1), (ORPHAN, 1), (AMUTEX_P, 1), (BILOCK_P, 1)] "panic and cancellation paths of every component driven by the other properties; catch_unwind", "harness executor; wrapped futures", [];
    "C12" 180_000 [(LOCAL, 30), (CR_P, 1)] "futures-executor block_on, block_on_stream, LocalPool, enter; FuturesUnordered; std thread parking", "spawned futures; environment thread that wakes them", [];
    "C13" 120_000 [(POOL, 1)] "futures-executor ThreadPool, UnparkMutex; std mpsc, Mutex, threads", "spawned futures; environment thread that wakes them", [];
    "C09" 300_000 [(CONC_B, 90), (CONC_O, 30), (CR_W, 2)] "futures-util FuturesOrdered, buffered, buffer_unordered, for_each_concurrent, try_ forms, FuturesUnordered", SG, [];
    "C14" 240_000 [(MG_F, 90), (MG_G, 30), (MG_U, 90), (MG_T, 90), (CR_G, 5)] "futures-util select, select_all, select_with_strategy, flatten_unordered, flat_map_unordered, try_flatten_unordered, FuturesUnordered; futures-macro stream_select!", SG, [];
    "C15" 300_000 [(ST_AD, 6), (ST_CO, 3), (ST_TAD, 5), (ST_TCO, 2), (ST_TU, 1)] "futures-util stream and try_stream adapters, constructors and consumers", SG, [];
    "C16" 240_000 [(JOINS, 1), (TJOINS, 1)] "futures-util join, join_all, try_join, try_join_all, maybe_done; futures-macro join!, try_join!", SG, [];
    "C17" 300_000 [(SELECTS, 1), (SELMAC, 1)] "futures-util select, try_select, select_all, select_ok, select_next_some; futures-macro select!, select_biased!", SG, [];
    "C18" 300_000 [(IO_R, 80), (IO_SK, 20), (IO_M, 10), (IO_LR, 3)] "futures-util io read operations, BufReader, Take, Chain, Lines, copy, copy_buf, copy_buf_abortable, AllowStdIo, Cursor, IntoAsyncRead, Either", "byte sources and destinations, executor, event source", [];
    "C19" 300_000 [(IO_W, 80), (IO_S, 20), (IO_M, 10), (IO_LW, 3)] "futures-util io write operations, BufWriter, LineWriter, AllowStdIo, IntoSink, copy, split, Either", "byte destinations, executor, event source", [];
    "C20" 300_000 [(SINKS, 1)] "futures-util sink buffer, fanout, with, with_flat_map, sink_map_err, sink_err_into, unfold, drain, send, feed, send_all, flush, close, forward, try_forward, flatten_sink, split, Either; futures-channel mpsc sender", "underlying sinks, input streams, mapping futures, executor, event source", [];
    "C22" 300_000 [(ST_FAD, 3), (ST_FTAD, 3), (FUSED_F, 2), (FUSED_M, 2)] "futures-util FusedStream/FusedFuture implementations of adapters, constructors and consumers", SG, [];
    "C23" 240_000 [(CP_V, 1), (CP_T, 1)] "futures-util compat (futures, streams, sinks, byte I/O, executors in both directions), futures 0.1 task machinery and channels, ThreadPool", "leaves of either model, driving tasks, event source; environment thread that wakes them", [];
    "C24" 180_000 [(ARCWAKE, 2), (FOBJ, 1)] "futures-task ArcWake/waker/waker_ref/noop_waker/FutureObj/LocalFutureObj", "handles and futures", [];
    "C26" 240_000 [(TK_A, 4), (TK_T, 1)] "futures-test (interleave_pending, pending_once, limited, track_closed, assert_unmoved, counting and panicking wakers, spawners, run_in_background, stream assertions)", "wrapped objects, executor, event source", [];
    "C27" 240_000 [(PIN_S, 4), (PIN_T, 1)] "every combinator, container and executor of futures-util and futures-executor that holds pinned values", "address-sensitive futures, streams, sinks, readers and writers; executor, event source", [];
    "C28" 450_000 [(FUTS, 1)] "futures-util FutureExt/TryFutureExt combinators, future constructors, Either, OptionFuture, maybe_done, poll_immediate; futures-task LocalFutureObj; poll!, pending!", SG, [];
    "C25" 180_000 [(M_FUTS, 1), (M_IO_M, 1), (M_PIN_S, 1), (PIN_T, 1), (M_TK_A, 1), (TK_T, 1), (MPSC, 2), (MPSC_B, 2), (AWAKER, 2), (AMUTEX, 2), (BILOCK, 2), (SPLIT_S, 2), (SPLIT_IO, 2), (SHARED, 2), (SHARED_P, 2), (ABORT, 2), (ABORT_C, 2), (REMOTE, 2), (FU, 2), (FU_P, 2), (LOCAL, 2), (LOCAL_P, 2), (POOL_P, 2), (ORPHAN, 2), (AMUTEX_P, 2), (BILOCK_P, 2), (POOL, 2), (ARCWAKE, 2), (FOBJ, 2), (ONESHOT, 2), (MG_T, 2), (CP_T, 2), (UW_K, 1), (M_CONC_B, 1), (M_CONC_O, 1), (M_MG_F, 1), (M_MG_G, 1), (M_MG_U, 1), (M_JOINS, 1), (M_TJOINS, 1), (M_SELECTS, 1), (M_SELMAC, 1), (M_IO_R, 1), (M_IO_SK, 1), (M_IO_W, 1), (M_IO_S, 1), (M_SINKS, 1), (M_CP_V, 1), (M_ST_AD, 1), (M_ST_FAD, 1), (M_ST_FTAD, 1), (M_FUSED_F, 1), (M_FUSED_M, 1), (M_ST_CO, 1), (M_ST_TAD, 1), (M_ST_TCO, 1), (M_ST_TU, 1), (STEADY, 6)] "every component driven by the other properties, with every heap access checked", "harness executor; the stand-ins of the other properties", [];
}
