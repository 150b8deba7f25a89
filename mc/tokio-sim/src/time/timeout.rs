
use crate::{
    task::coop,
    time::{error::Elapsed, Duration, Instant, Sleep},
    util::trace,
};

use pin_project_lite::pin_project;
use std::future::{Future, IntoFuture};
use std::pin::Pin;
use std::task::{self, Poll};

#[track_caller]
pub fn timeout<F>(duration: Duration, future: F) -> Timeout<F::IntoFuture>
where
    F: IntoFuture,
{
    // Closures don't preserve `#[track_caller]`.
    #[allow(clippy::manual_map)]
    Timeout {
        value: future.into_future(),
        delay: match Instant::now().checked_add(duration) {
            Some(deadline) => Some(Sleep::new_timeout(deadline, trace::caller_location())),
            None => None,
        },
    }
}

#[track_caller]
pub fn timeout_at<F>(deadline: Instant, future: F) -> Timeout<F::IntoFuture>
where
    F: IntoFuture,
{
    Timeout {
        value: future.into_future(),
        delay: Some(Sleep::new_timeout(deadline, trace::caller_location())),
    }
}

pin_project! {
    #[must_use = "futures do nothing unless you `.await` or poll them"]
    #[derive(Debug)]
    pub struct Timeout<T> {
        #[pin]
        value: T,
        #[pin]
        delay: Option<Sleep>,
    }
}

impl<T> Timeout<T> {
    pub fn get_ref(&self) -> &T {
        &self.value
    }

    pub fn get_mut(&mut self) -> &mut T {
        &mut self.value
    }

    pub fn into_inner(self) -> T {
        self.value
    }
}

impl<T> Future for Timeout<T>
where
    T: Future,
{
    type Output = Result<T::Output, Elapsed>;

    fn poll(self: Pin<&mut Self>, cx: &mut task::Context<'_>) -> Poll<Self::Output> {
        let me = self.project();

        let had_budget_before = coop::has_budget_remaining();

        // First, try polling the future
        if let Poll::Ready(v) = me.value.poll(cx) {
            return Poll::Ready(Ok(v));
        }

        match me.delay.as_pin_mut() {
            Some(delay) => poll_delay(had_budget_before, delay, cx).map(Err),
            None => Poll::Pending,
        }
    }
}

// The T-invariant portion of Timeout::<T>::poll. Pulling this out reduces the
// amount of code that gets duplicated during monomorphization.
fn poll_delay(
    had_budget_before: bool,
    delay: Pin<&mut Sleep>,
    cx: &mut task::Context<'_>,
) -> Poll<Elapsed> {
    let delay_poll = || match delay.poll(cx) {
        Poll::Ready(()) => Poll::Ready(Elapsed::new()),
        Poll::Pending => Poll::Pending,
    };

    let has_budget_now = coop::has_budget_remaining();

    if let (true, false) = (had_budget_before, has_budget_now) {
        // if it is the underlying future that exhausted the budget, we poll
        // the `delay` with an unconstrained one. This prevents pathological
        // cases where the underlying future always exhausts the budget and
        // we never get a chance to evaluate whether the timeout was hit or
        // not.
        coop::with_unconstrained(delay_poll)
    } else {
        delay_poll()
    }
}
