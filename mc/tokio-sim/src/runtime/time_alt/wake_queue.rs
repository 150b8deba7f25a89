use super::{EntryHandle, WakeQueueEntry};
use crate::util::linked_list::LinkedList;

#[derive(Debug)]
pub(crate) struct WakeQueue {
    list: LinkedList<WakeQueueEntry>,
}

impl Drop for WakeQueue {
    fn drop(&mut self) {
        // drain all entries without waking them up
        while let Some(hdl) = self.list.pop_front() {
            drop(hdl);
        }
    }
}

impl WakeQueue {
    pub(crate) fn new() -> Self {
        Self {
            list: LinkedList::new(),
        }
    }

    pub(crate) fn is_empty(&self) -> bool {
        self.list.is_empty()
    }

    pub(crate) unsafe fn push_front(&mut self, hdl: EntryHandle) {
        self.list.push_front(hdl);
    }

    pub(crate) fn wake_all(mut self) {
        while let Some(hdl) = self.list.pop_front() {
            hdl.wake();
        }
    }
}

#[cfg(test)]
mod tests;
