
pub(crate) struct SchedulerMetrics {}

#[derive(Clone, Default)]
pub(crate) struct HistogramBuilder {}

impl SchedulerMetrics {
    pub(crate) fn new() -> Self {
        Self {}
    }

    pub(crate) fn inc_remote_schedule_count(&self) {}
}
