use crate::io::{AsyncBufRead, AsyncWrite};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::task::{ready, Context, Poll};

cfg_io_util! {
    #[derive(Debug)]
    #[must_use = "futures do nothing unless you `.await` or poll them"]
    struct CopyBuf<'a, R: ?Sized, W: ?Sized> {
        reader: &'a mut R,
        writer: &'a mut W,
        amt: u64,
        need_flush: bool,
    }

    pub async fn copy_buf<'a, R, W>(reader: &'a mut R, writer: &'a mut W) -> io::Result<u64>
    where
        R: AsyncBufRead + Unpin + ?Sized,
        W: AsyncWrite + Unpin + ?Sized,
    {
        CopyBuf {
            reader,
            writer,
            amt: 0,
            need_flush: false,
        }.await
    }
}

impl<R, W> Future for CopyBuf<'_, R, W>
where
    R: AsyncBufRead + Unpin + ?Sized,
    W: AsyncWrite + Unpin + ?Sized,
{
    type Output = io::Result<u64>;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        #[cfg(any(
            feature = "fs",
            feature = "io-std",
            feature = "net",
            feature = "process",
            feature = "rt",
            feature = "signal",
            feature = "sync",
            feature = "time",
        ))]
        // Keep track of task budget
        let coop = ready!(crate::task::coop::poll_proceed(cx));
        loop {
            let me = &mut *self;
            let buffer = match Pin::new(&mut *me.reader).poll_fill_buf(cx) {
                Poll::Ready(Ok(buffer)) => {
                    #[cfg(any(
                        feature = "fs",
                        feature = "io-std",
                        feature = "net",
                        feature = "process",
                        feature = "rt",
                        feature = "signal",
                        feature = "sync",
                        feature = "time",
                    ))]
                    coop.made_progress();
                    buffer
                }
                Poll::Ready(Err(err)) if err.kind() == io::ErrorKind::Interrupted => continue,
                Poll::Ready(Err(err)) => {
                    #[cfg(any(
                        feature = "fs",
                        feature = "io-std",
                        feature = "net",
                        feature = "process",
                        feature = "rt",
                        feature = "signal",
                        feature = "sync",
                        feature = "time",
                    ))]
                    coop.made_progress();
                    return Poll::Ready(Err(err));
                }
                Poll::Pending => {
                    // Try flushing when the reader has no progress to avoid deadlock
                    // when the reader depends on buffered writer.
                    if me.need_flush {
                        ready!(Pin::new(&mut *me.writer).poll_flush(cx))?;
                        me.need_flush = false;
                    }

                    return Poll::Pending;
                }
            };

            if buffer.is_empty() {
                ready!(Pin::new(&mut self.writer).poll_flush(cx))?;
                return Poll::Ready(Ok(self.amt));
            }

            let i = match ready!(Pin::new(&mut *me.writer).poll_write(cx, buffer)) {
                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                res => res?,
            };
            if i == 0 {
                return Poll::Ready(Err(std::io::ErrorKind::WriteZero.into()));
            }
            self.amt += i as u64;
            self.need_flush = true;
            Pin::new(&mut *self.reader).consume(i);
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn assert_unpin() {
        use std::marker::PhantomPinned;
        crate::is_unpin::<CopyBuf<'_, PhantomPinned, PhantomPinned>>();
    }
}
