
use std::ptr;

use crate::runtime::task::trace::{Trace, TraceMeta};

pub(crate) fn trace_leaf(meta: &TraceMeta, trace: &mut Trace) {
    let mut frames: Vec<backtrace::BacktraceFrame> = vec![];
    let mut above_leaf = false;

    if let Some(root_addr) = meta.root_addr {
        backtrace::trace(|frame| {
            let below_root = !ptr::eq(frame.symbol_address(), root_addr);

            if above_leaf && below_root {
                frames.push(frame.to_owned().into());
            }

            if ptr::eq(frame.symbol_address(), meta.trace_leaf_addr) {
                above_leaf = true;
            }

            below_root
        });
    }
    trace.push_backtrace(frames);
}
