#![cfg_attr(
    any(not(all(tokio_unstable, feature = "full")), target_family = "wasm"),
    allow(dead_code)
)]
use crate::runtime::{Callback, TaskCallback};
use crate::util::RngSeedGenerator;

pub(crate) struct Config {
    pub(crate) global_queue_interval: Option<u32>,

    pub(crate) event_interval: u32,

    pub(crate) before_park: Option<Callback>,

    pub(crate) after_unpark: Option<Callback>,

    pub(crate) before_spawn: Option<TaskCallback>,

    pub(crate) after_termination: Option<TaskCallback>,

    #[cfg(tokio_unstable)]
    pub(crate) before_poll: Option<TaskCallback>,

    #[cfg(tokio_unstable)]
    pub(crate) after_poll: Option<TaskCallback>,

    pub(crate) disable_lifo_slot: bool,

    pub(crate) seed_generator: RngSeedGenerator,

    pub(crate) metrics_poll_count_histogram: Option<crate::runtime::HistogramBuilder>,

    pub(crate) track_task_schedule_latency: bool,

    #[cfg_attr(
        not(all(tokio_unstable, feature = "schedule-latency")),
        allow(dead_code)
    )]
    pub(crate) metrics_schedule_latency_histogram: Option<crate::runtime::HistogramBuilder>,

    #[cfg(tokio_unstable)]
    pub(crate) unhandled_panic: crate::runtime::UnhandledPanic,

    pub(crate) enable_eager_driver_handoff: bool,
}
