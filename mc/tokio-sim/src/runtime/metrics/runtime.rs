use crate::runtime::Handle;
use std::time::Duration;

cfg_64bit_metrics! {
    use std::sync::atomic::Ordering::Relaxed;
}

cfg_unstable_metrics! {
    use std::ops::Range;
    use std::thread::ThreadId;
}

#[derive(Clone, Debug)]
pub struct RuntimeMetrics {
    handle: Handle,
}

impl RuntimeMetrics {
    pub(crate) fn new(handle: Handle) -> RuntimeMetrics {
        RuntimeMetrics { handle }
    }

    pub fn num_workers(&self) -> usize {
        self.handle.inner.num_workers()
    }

    pub fn num_alive_tasks(&self) -> usize {
        self.handle.inner.num_alive_tasks()
    }

    pub fn global_queue_depth(&self) -> usize {
        self.handle.inner.injection_queue_depth()
    }

    cfg_64bit_metrics! {
        pub fn worker_total_busy_duration(&self, worker: usize) -> Duration {
            let nanos = self
                .handle
                .inner
                .worker_metrics(worker)
                .busy_duration_total
                .load(Relaxed);
            Duration::from_nanos(nanos)
        }

        pub fn worker_park_count(&self, worker: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .park_count
                .load(Relaxed)
        }

        pub fn worker_park_unpark_count(&self, worker: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .park_unpark_count
                .load(Relaxed)
        }
    }

    cfg_unstable_metrics! {

        pub fn num_blocking_threads(&self) -> usize {
            self.handle.inner.num_blocking_threads()
        }

        #[deprecated = "Renamed to num_alive_tasks"]
        pub fn active_tasks_count(&self) -> usize {
            self.num_alive_tasks()
        }

        pub fn num_idle_blocking_threads(&self) -> usize {
            self.handle.inner.num_idle_blocking_threads()
        }

        pub fn worker_thread_id(&self, worker: usize) -> Option<ThreadId> {
            self.handle
                .inner
                .worker_metrics(worker)
                .thread_id()
        }

        #[deprecated = "Renamed to global_queue_depth"]
        #[doc(hidden)]
        pub fn injection_queue_depth(&self) -> usize {
            self.handle.inner.injection_queue_depth()
        }

        pub fn worker_local_queue_depth(&self, worker: usize) -> usize {
            self.handle.inner.worker_local_queue_depth(worker)
        }

        pub fn poll_time_histogram_enabled(&self) -> bool {
            self.handle
                .inner
                .worker_metrics(0)
                .poll_count_histogram
                .is_some()
        }

        #[deprecated(note = "Renamed to `poll_time_histogram_enabled`")]
        #[doc(hidden)]
        pub fn poll_count_histogram_enabled(&self) -> bool {
            self.poll_time_histogram_enabled()
        }

        pub fn poll_time_histogram_num_buckets(&self) -> usize {
            self.handle
                .inner
                .worker_metrics(0)
                .poll_count_histogram
                .as_ref()
                .map_or(0, |histogram| histogram.num_buckets())
        }

        #[doc(hidden)]
        #[deprecated(note = "renamed to `poll_time_histogram_num_buckets`.")]
        pub fn poll_count_histogram_num_buckets(&self) -> usize {
            self.poll_time_histogram_num_buckets()
        }

        #[track_caller]
        pub fn poll_time_histogram_bucket_range(&self, bucket: usize) -> Range<Duration> {
            self.handle
                .inner
                .worker_metrics(0)
                .poll_count_histogram
                .as_ref()
                .map_or_else(Range::default, |histogram| {
                    let range = histogram.bucket_range(bucket);
                    std::ops::Range {
                        start: Duration::from_nanos(range.start),
                        end: Duration::from_nanos(range.end),
                    }
                })
        }

        #[track_caller]
        #[doc(hidden)]
        #[deprecated(note = "renamed to `poll_time_histogram_bucket_range`")]
        pub fn poll_count_histogram_bucket_range(&self, bucket: usize) -> Range<Duration> {
            self.poll_time_histogram_bucket_range(bucket)
        }

        pub fn blocking_queue_depth(&self) -> usize {
            self.handle.inner.blocking_queue_depth()
        }
    }

    feature! {
        #![all(
            tokio_unstable,
            target_has_atomic = "64"
        )]
        pub fn spawned_tasks_count(&self) -> u64 {
            self.handle.inner.spawned_tasks_count()
        }

        pub fn remote_schedule_count(&self) -> u64 {
            self.handle
                .inner
                .scheduler_metrics()
                .remote_schedule_count
                .load(Relaxed)
        }

        pub fn budget_forced_yield_count(&self) -> u64 {
            self.handle
                .inner
                .scheduler_metrics()
                .budget_forced_yield_count
                .load(Relaxed)
        }

        pub fn worker_noop_count(&self, worker: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .noop_count
                .load(Relaxed)
        }

        pub fn worker_steal_count(&self, worker: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .steal_count
                .load(Relaxed)
        }

        pub fn worker_steal_operations(&self, worker: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .steal_operations
                .load(Relaxed)
        }

        pub fn worker_poll_count(&self, worker: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .poll_count
                .load(Relaxed)
        }

        pub fn worker_local_schedule_count(&self, worker: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .local_schedule_count
                .load(Relaxed)
        }

        pub fn worker_overflow_count(&self, worker: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .overflow_count
                .load(Relaxed)
        }

        #[track_caller]
        pub fn poll_time_histogram_bucket_count(&self, worker: usize, bucket: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .poll_count_histogram
                .as_ref()
                .map_or(0, |histogram| histogram.get(bucket))
        }

        #[doc(hidden)]
        #[deprecated(note = "use `poll_time_histogram_bucket_count` instead")]
        pub fn poll_count_histogram_bucket_count(&self, worker: usize, bucket: usize) -> u64 {
            self.poll_time_histogram_bucket_count(worker, bucket)
        }

        #[track_caller]
        pub fn worker_mean_poll_time(&self, worker: usize) -> Duration {
            let nanos = self
                .handle
                .inner
                .worker_metrics(worker)
                .mean_poll_time
                .load(Relaxed);
            Duration::from_nanos(nanos)
        }
    }

    feature! {
        #![all(tokio_unstable, feature = "schedule-latency")]
        pub fn schedule_latency_histogram_enabled(&self) -> bool {
            self.handle.inner.worker_metrics(0).schedule_latency_histogram.is_some()
        }

        pub fn schedule_latency_histogram_num_buckets(&self) -> usize {
            self.handle
                .inner
                .worker_metrics(0)
                .schedule_latency_histogram
                .as_ref()
                .map_or(0, |histogram| histogram.num_buckets())
        }

        #[track_caller]
        pub fn schedule_latency_histogram_bucket_range(&self, bucket: usize) -> Range<Duration> {
            self.handle
                .inner
                .worker_metrics(0)
                .schedule_latency_histogram
                .as_ref()
                .map_or_else(Range::default, |histogram| {
                    let range = histogram.bucket_range(bucket);
                    std::ops::Range {
                        start: Duration::from_nanos(range.start),
                        end: Duration::from_nanos(range.end),
                    }
                })
        }

        #[track_caller]
        pub fn schedule_latency_histogram_bucket_count(&self, worker: usize, bucket: usize) -> u64 {
            self.handle
                .inner
                .worker_metrics(worker)
                .schedule_latency_histogram
                .as_ref()
                .map_or(0, |histogram| histogram.get(bucket))
        }
    }

    feature! {
        #![all(
            tokio_unstable,
            target_has_atomic = "64",
            feature = "net"
        )]
            pub fn io_driver_fd_registered_count(&self) -> u64 {
                self.with_io_driver_metrics(|m| {
                    m.fd_registered_count.load(Relaxed)
                })
            }

            pub fn io_driver_fd_deregistered_count(&self) -> u64 {
                self.with_io_driver_metrics(|m| {
                    m.fd_deregistered_count.load(Relaxed)
                })
            }

            pub fn io_driver_ready_count(&self) -> u64 {
                self.with_io_driver_metrics(|m| m.ready_count.load(Relaxed))
            }

            fn with_io_driver_metrics<F>(&self, f: F) -> u64
            where
                F: Fn(&super::IoDriverMetrics) -> u64,
            {
                // TODO: Investigate if this should return 0, most of our metrics always increase
                // thus this breaks that guarantee.
                self.handle
                    .inner
                    .driver()
                    .io
                    .as_ref()
                    .map_or(0, |h| f(&h.metrics))
            }
    }
}
