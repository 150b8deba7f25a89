
mod pool;
pub(crate) use pool::{spawn_blocking, BlockingPool, Spawner};

mod sharded;

cfg_io_blocking! {
    pub(crate) use pool::spawn_mandatory_blocking;
}

cfg_trace! {
    pub(crate) use pool::Mandatory;
}

mod schedule;
mod shutdown;
mod task;
pub(crate) use task::BlockingTask;

use crate::runtime::Builder;

pub(crate) fn create_blocking_pool(
    builder: &Builder,
    thread_cap: usize,
    scheduler_threads: usize,
) -> BlockingPool {
    BlockingPool::new(builder, thread_cap, scheduler_threads)
}
