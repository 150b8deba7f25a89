
use crate::fs::{asyncify, FileTimes, OpenOptions};
use crate::io::blocking::{Buf, DEFAULT_MAX_BUF_SIZE};
use crate::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};
use crate::sync::Mutex;

use std::cmp;
use std::fmt;
use std::fs::{Metadata, Permissions};
use std::future::Future;
use std::io::{self, Seek, SeekFrom};
use std::path::Path;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{ready, Context, Poll};

#[cfg(test)]
use super::mocks::JoinHandle;
#[cfg(test)]
use super::mocks::MockFile as StdFile;
#[cfg(test)]
use super::mocks::{spawn_blocking, spawn_mandatory_blocking};
#[cfg(not(test))]
use crate::blocking::JoinHandle;
#[cfg(not(test))]
use crate::blocking::{spawn_blocking, spawn_mandatory_blocking};
#[cfg(not(test))]
use std::fs::File as StdFile;

cfg_io_uring! {
    #[cfg(not(test))]
    use crate::spawn;
}

pub struct File {
    std: Arc<StdFile>,
    inner: Mutex<Inner>,
    max_buf_size: usize,
}

struct Inner {
    state: State,

    last_write_err: Option<io::ErrorKind>,

    pos: u64,
}

#[derive(Debug)]
enum State {
    Idle(Option<Buf>),
    Busy(JoinHandle<(Operation, Buf)>),
}

#[derive(Debug)]
enum Operation {
    Read(io::Result<usize>),
    Write(io::Result<()>),
    Seek(io::Result<u64>),
}

impl File {
    pub async fn open(path: impl AsRef<Path>) -> io::Result<File> {
        Self::options().read(true).open(path).await
    }

    pub async fn create(path: impl AsRef<Path>) -> io::Result<File> {
        Self::options()
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .await
    }

    pub async fn create_new<P: AsRef<Path>>(path: P) -> std::io::Result<File> {
        Self::options()
            .read(true)
            .write(true)
            .create_new(true)
            .open(path)
            .await
    }

    #[must_use]
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }

    pub fn from_std(std: StdFile) -> File {
        File {
            std: Arc::new(std),
            inner: Mutex::new(Inner {
                state: State::Idle(Some(Buf::with_capacity(0))),
                last_write_err: None,
                pos: 0,
            }),
            max_buf_size: DEFAULT_MAX_BUF_SIZE,
        }
    }

    pub async fn sync_all(&self) -> io::Result<()> {
        let mut inner = self.inner.lock().await;
        inner.complete_inflight().await;

        let std = self.std.clone();
        asyncify(move || std.sync_all()).await
    }

    pub async fn sync_data(&self) -> io::Result<()> {
        let mut inner = self.inner.lock().await;
        inner.complete_inflight().await;

        let std = self.std.clone();
        asyncify(move || std.sync_data()).await
    }

    pub async fn set_len(&self, size: u64) -> io::Result<()> {
        let mut inner = self.inner.lock().await;
        inner.complete_inflight().await;

        let mut buf = match inner.state {
            State::Idle(ref mut buf_cell) => buf_cell.take().unwrap(),
            _ => unreachable!(),
        };

        let seek = if !buf.is_empty() {
            Some(SeekFrom::Current(buf.discard_read()))
        } else {
            None
        };

        let std = self.std.clone();

        inner.state = State::Busy(spawn_blocking(move || {
            let res = if let Some(seek) = seek {
                (&*std).seek(seek).and_then(|_| std.set_len(size))
            } else {
                std.set_len(size)
            }
            .map(|()| 0); // the value is discarded later

            // Return the result as a seek
            (Operation::Seek(res), buf)
        }));

        let (op, buf) = match inner.state {
            State::Idle(_) => unreachable!(),
            State::Busy(ref mut rx) => {
                let res = rx.await;
                if res.is_err() {
                    // Restore a valid Idle state before returning the error.
                    inner.state = State::Idle(Some(Buf::with_capacity(0)));
                }
                res?
            }
        };

        inner.state = State::Idle(Some(buf));

        match op {
            Operation::Seek(res) => res.map(|pos| {
                inner.pos = pos;
            }),
            _ => unreachable!(),
        }
    }

    pub async fn metadata(&self) -> io::Result<Metadata> {
        let std = self.std.clone();
        asyncify(move || std.metadata()).await
    }

    pub async fn try_clone(&self) -> io::Result<File> {
        self.inner.lock().await.complete_inflight().await;
        let std = self.std.clone();
        let std_file = asyncify(move || std.try_clone()).await?;
        let mut file = File::from_std(std_file);
        file.set_max_buf_size(self.max_buf_size);
        Ok(file)
    }

    pub async fn into_std(mut self) -> StdFile {
        self.inner.get_mut().complete_inflight().await;
        Arc::try_unwrap(self.std).expect("Arc::try_unwrap failed")
    }

    #[allow(clippy::result_large_err)]
    pub fn try_into_std(mut self) -> Result<StdFile, Self> {
        match Arc::try_unwrap(self.std) {
            Ok(file) => Ok(file),
            Err(std_file_arc) => {
                self.std = std_file_arc;
                Err(self)
            }
        }
    }

    pub async fn set_permissions(&self, perm: Permissions) -> io::Result<()> {
        let std = self.std.clone();
        asyncify(move || std.set_permissions(perm)).await
    }

    pub async fn set_times(&self, times: FileTimes) -> io::Result<()> {
        // Wait for in-flight reads/writes like `sync_all` does, so they
        // cannot complete after us and overwrite the timestamps.
        self.inner.lock().await.complete_inflight().await;

        let std = self.std.clone();
        let std_times = times.into_std();
        asyncify(move || std.set_times(std_times)).await
    }

    pub async fn set_modified(&self, time: std::time::SystemTime) -> io::Result<()> {
        self.set_times(FileTimes::new().set_modified(time)).await
    }

    #[track_caller]
    pub fn set_max_buf_size(&mut self, max_buf_size: usize) {
        assert!(max_buf_size > 0, "`max_buf_size` must be greater than 0");
        self.max_buf_size = max_buf_size;
    }

    pub fn max_buf_size(&self) -> usize {
        self.max_buf_size
    }
}

impl AsyncRead for File {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        dst: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        ready!(crate::trace::trace_leaf(cx));

        let me = self.get_mut();
        let inner = me.inner.get_mut();

        loop {
            match inner.state {
                State::Idle(ref mut buf_cell) => {
                    let mut buf = buf_cell.take().unwrap();

                    if !buf.is_empty() || dst.remaining() == 0 {
                        buf.copy_to(dst);
                        *buf_cell = Some(buf);
                        return Poll::Ready(Ok(()));
                    }

                    let std = me.std.clone();

                    let max_buf_size = cmp::min(dst.remaining(), me.max_buf_size);
                    inner.state = State::Busy(Inner::poll_read_inner(std, buf, max_buf_size)?);
                }
                State::Busy(ref mut rx) => {
                    let res = ready!(Pin::new(rx).poll(cx));
                    if res.is_err() {
                        // Restore a valid Idle state before returning the error.
                        inner.state = State::Idle(Some(Buf::with_capacity(0)));
                    }
                    let (op, mut buf) = res?;

                    match op {
                        Operation::Read(Ok(_)) => {
                            buf.copy_to(dst);
                            inner.state = State::Idle(Some(buf));
                            return Poll::Ready(Ok(()));
                        }
                        Operation::Read(Err(e)) => {
                            assert!(buf.is_empty());

                            inner.state = State::Idle(Some(buf));
                            return Poll::Ready(Err(e));
                        }
                        Operation::Write(Ok(())) => {
                            assert!(buf.is_empty());
                            inner.state = State::Idle(Some(buf));
                            continue;
                        }
                        Operation::Write(Err(e)) => {
                            assert!(inner.last_write_err.is_none());
                            inner.last_write_err = Some(e.kind());
                            inner.state = State::Idle(Some(buf));
                        }
                        Operation::Seek(result) => {
                            assert!(buf.is_empty());
                            inner.state = State::Idle(Some(buf));
                            if let Ok(pos) = result {
                                inner.pos = pos;
                            }
                            continue;
                        }
                    }
                }
            }
        }
    }
}

impl AsyncSeek for File {
    fn start_seek(self: Pin<&mut Self>, mut pos: SeekFrom) -> io::Result<()> {
        let me = self.get_mut();
        let inner = me.inner.get_mut();

        match inner.state {
            State::Busy(_) => Err(io::Error::other(
                "other file operation is pending, call poll_complete before start_seek",
            )),
            State::Idle(ref mut buf_cell) => {
                let mut buf = buf_cell.take().unwrap();

                // Factor in any unread data from the buf
                let extra_seek = if !buf.is_empty() {
                    let n = buf.discard_read();

                    if let SeekFrom::Current(ref mut offset) = pos {
                        match offset.checked_add(n) {
                            Some(new_offset) => {
                                *offset = new_offset;
                                None
                            }
                            None => Some(SeekFrom::Current(n)),
                        }
                    } else {
                        None
                    }
                } else {
                    None
                };

                let std = me.std.clone();

                inner.state = State::Busy(spawn_blocking(move || {
                    let res = if let Some(extra_seek) = extra_seek {
                        (&*std).seek(extra_seek).and_then(|_| (&*std).seek(pos))
                    } else {
                        (&*std).seek(pos)
                    };
                    (Operation::Seek(res), buf)
                }));
                Ok(())
            }
        }
    }

    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        ready!(crate::trace::trace_leaf(cx));
        let inner = self.inner.get_mut();

        loop {
            match inner.state {
                State::Idle(_) => return Poll::Ready(Ok(inner.pos)),
                State::Busy(ref mut rx) => {
                    let res = ready!(Pin::new(rx).poll(cx));
                    if res.is_err() {
                        // Restore a valid Idle state before returning the error.
                        inner.state = State::Idle(Some(Buf::with_capacity(0)));
                    }
                    let (op, buf) = res?;
                    inner.state = State::Idle(Some(buf));

                    match op {
                        Operation::Read(_) => {}
                        Operation::Write(Err(e)) => {
                            assert!(inner.last_write_err.is_none());
                            inner.last_write_err = Some(e.kind());
                        }
                        Operation::Write(_) => {}
                        Operation::Seek(res) => {
                            if let Ok(pos) = res {
                                inner.pos = pos;
                            }
                            return Poll::Ready(res);
                        }
                    }
                }
            }
        }
    }
}

impl AsyncWrite for File {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        src: &[u8],
    ) -> Poll<io::Result<usize>> {
        ready!(crate::trace::trace_leaf(cx));
        let me = self.get_mut();
        let inner = me.inner.get_mut();

        if let Some(e) = inner.last_write_err.take() {
            return Poll::Ready(Err(e.into()));
        }

        loop {
            match inner.state {
                State::Idle(ref mut buf_cell) => {
                    let mut buf = buf_cell.take().unwrap();

                    let seek = if !buf.is_empty() {
                        Some(SeekFrom::Current(buf.discard_read()))
                    } else {
                        None
                    };

                    let n = buf.copy_from(src, me.max_buf_size);
                    let std = me.std.clone();

                    let res = spawn_mandatory_blocking(move || {
                        let res = if let Some(seek) = seek {
                            (&*std).seek(seek).and_then(|_| buf.write_to(&mut &*std))
                        } else {
                            buf.write_to(&mut &*std)
                        };

                        (Operation::Write(res), buf)
                    })
                    .ok_or_else(|| io::Error::other("background task failed"));

                    if res.is_err() {
                        // Restore a valid Idle state before returning the error.
                        inner.state = State::Idle(Some(Buf::with_capacity(0)));
                    }
                    let blocking_task_join_handle = res?;

                    inner.state = State::Busy(blocking_task_join_handle);

                    return Poll::Ready(Ok(n));
                }
                State::Busy(ref mut rx) => {
                    let res = ready!(Pin::new(rx).poll(cx));
                    if res.is_err() {
                        // Restore a valid Idle state before returning the error.
                        inner.state = State::Idle(Some(Buf::with_capacity(0)));
                    }
                    let (op, buf) = res?;
                    inner.state = State::Idle(Some(buf));

                    match op {
                        Operation::Read(_) => {
                            // We don't care about the result here. The fact
                            // that the cursor has advanced will be reflected in
                            // the next iteration of the loop
                            continue;
                        }
                        Operation::Write(res) => {
                            // If the previous write was successful, continue.
                            // Otherwise, error.
                            res?;
                            continue;
                        }
                        Operation::Seek(_) => {
                            // Ignore the seek
                            continue;
                        }
                    }
                }
            }
        }
    }

    fn poll_write_vectored(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        bufs: &[io::IoSlice<'_>],
    ) -> Poll<Result<usize, io::Error>> {
        ready!(crate::trace::trace_leaf(cx));
        let me = self.get_mut();
        let inner = me.inner.get_mut();

        if let Some(e) = inner.last_write_err.take() {
            return Poll::Ready(Err(e.into()));
        }

        loop {
            match inner.state {
                State::Idle(ref mut buf_cell) => {
                    let mut buf = buf_cell.take().unwrap();

                    let seek = if !buf.is_empty() {
                        Some(SeekFrom::Current(buf.discard_read()))
                    } else {
                        None
                    };

                    let n = buf.copy_from_bufs(bufs, me.max_buf_size);
                    let std = me.std.clone();

                    let res = spawn_mandatory_blocking(move || {
                        let res = if let Some(seek) = seek {
                            (&*std).seek(seek).and_then(|_| buf.write_to(&mut &*std))
                        } else {
                            buf.write_to(&mut &*std)
                        };

                        (Operation::Write(res), buf)
                    })
                    .ok_or_else(|| io::Error::other("background task failed"));

                    if res.is_err() {
                        // Restore a valid Idle state before returning the error.
                        inner.state = State::Idle(Some(Buf::with_capacity(0)));
                    }
                    let blocking_task_join_handle = res?;

                    inner.state = State::Busy(blocking_task_join_handle);

                    return Poll::Ready(Ok(n));
                }
                State::Busy(ref mut rx) => {
                    let res = ready!(Pin::new(rx).poll(cx));
                    if res.is_err() {
                        // Restore a valid Idle state before returning the error.
                        inner.state = State::Idle(Some(Buf::with_capacity(0)));
                    }
                    let (op, buf) = res?;
                    inner.state = State::Idle(Some(buf));

                    match op {
                        Operation::Read(_) => {
                            // We don't care about the result here. The fact
                            // that the cursor has advanced will be reflected in
                            // the next iteration of the loop
                            continue;
                        }
                        Operation::Write(res) => {
                            // If the previous write was successful, continue.
                            // Otherwise, error.
                            res?;
                            continue;
                        }
                        Operation::Seek(_) => {
                            // Ignore the seek
                            continue;
                        }
                    }
                }
            }
        }
    }

    fn is_write_vectored(&self) -> bool {
        true
    }

    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        ready!(crate::trace::trace_leaf(cx));
        let inner = self.inner.get_mut();
        inner.poll_flush(cx)
    }

    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        ready!(crate::trace::trace_leaf(cx));
        self.poll_flush(cx)
    }
}

impl From<StdFile> for File {
    fn from(std: StdFile) -> Self {
        Self::from_std(std)
    }
}

impl fmt::Debug for File {
    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt.debug_struct("tokio::fs::File")
            .field("std", &self.std)
            .finish()
    }
}

#[cfg(unix)]
impl From<std::os::fd::OwnedFd> for File {
    fn from(fd: std::os::fd::OwnedFd) -> Self {
        Self::from_std(StdFile::from(fd))
    }
}

#[cfg(unix)]
impl std::os::unix::io::AsRawFd for File {
    fn as_raw_fd(&self) -> std::os::unix::io::RawFd {
        self.std.as_raw_fd()
    }
}

#[cfg(unix)]
impl std::os::unix::io::AsFd for File {
    fn as_fd(&self) -> std::os::unix::io::BorrowedFd<'_> {
        unsafe {
            std::os::unix::io::BorrowedFd::borrow_raw(std::os::unix::io::AsRawFd::as_raw_fd(self))
        }
    }
}

#[cfg(unix)]
impl std::os::unix::io::FromRawFd for File {
    unsafe fn from_raw_fd(fd: std::os::unix::io::RawFd) -> Self {
        // Safety: exactly the same safety contract as
        // `std::os::unix::io::FromRawFd::from_raw_fd`.
        unsafe { StdFile::from_raw_fd(fd).into() }
    }
}

cfg_windows! {
    use crate::os::windows::io::{AsRawHandle, FromRawHandle, RawHandle, AsHandle, BorrowedHandle, OwnedHandle};

    impl From<OwnedHandle> for File {
        fn from(handle: OwnedHandle) -> Self {
            Self::from_std(StdFile::from(handle))
        }
    }

    impl AsRawHandle for File {
        fn as_raw_handle(&self) -> RawHandle {
            self.std.as_raw_handle()
        }
    }

    impl AsHandle for File {
        fn as_handle(&self) -> BorrowedHandle<'_> {
            unsafe {
                BorrowedHandle::borrow_raw(
                    AsRawHandle::as_raw_handle(self),
                )
            }
        }
    }

    impl FromRawHandle for File {
        unsafe fn from_raw_handle(handle: RawHandle) -> Self {
            // Safety: exactly the same safety contract as
            // `FromRawHandle::from_raw_handle`.
            unsafe { StdFile::from_raw_handle(handle).into() }
        }
    }
}

impl Inner {
    fn poll_read_inner(
        std: Arc<StdFile>,
        buf: Buf,
        max_buf_size: usize,
    ) -> io::Result<JoinHandle<(Operation, Buf)>> {
        // Unit tests use `MockFile` and the mock `spawn_blocking` infrastructure,
        // which can't drive real io_uring operations. The io_uring read path
        // is tested through integration tests in `tests/fs_uring_file_read.rs`.
        #[cfg(all(
            not(test),
            tokio_unstable,
            feature = "io-uring",
            feature = "rt",
            feature = "fs",
            target_os = "linux",
        ))]
        {
            if let Ok(handle) = crate::runtime::Handle::try_current() {
                if let Some(driver_handle) = handle.inner.driver().io.as_ref() {
                    if driver_handle.is_uring_ready(io_uring::opcode::Read::CODE) {
                        // Fast path: uring already initialized and Read supported.
                        let fd: crate::io::uring::utils::ArcFd = std;
                        return Ok(spawn(Self::uring_read(fd, buf, max_buf_size)));
                    }

                    if !driver_handle.is_uring_probed() {
                        // Not yet probed: lazy init inside an async task so
                        // `File::from_std()` can still benefit from io-uring.
                        return Ok(spawn(Self::lazy_init_read(std, buf, max_buf_size)));
                    }
                }
                // No IO driver or probed but unsupported: fall through to spawn_blocking.
            }
        }

        // Fallback: spawn_blocking
        let join = Self::spawn_blocking_read(buf, std, max_buf_size);
        Ok(join)
    }

    #[cfg(all(
        not(test),
        tokio_unstable,
        feature = "io-uring",
        feature = "rt",
        feature = "fs",
        target_os = "linux",
    ))]
    async fn uring_read(
        mut fd: crate::io::uring::utils::ArcFd,
        mut buf: Buf,
        max_buf_size: usize,
    ) -> (Operation, Buf) {
        use crate::runtime::driver::op::Op;

        loop {
            let (res, r_fd, r_buf) =
                // u64::MAX to use and advance the file position
                Op::read_at(fd, buf, max_buf_size, u64::MAX).await;
            match (res, r_fd, r_buf) {
                // Retry an interrupted read with the resources the op handed back.
                (Err(e), Some(r_fd), Some(r_buf)) if e.kind() == io::ErrorKind::Interrupted => {
                    buf = r_buf;
                    fd = r_fd;
                    continue;
                }
                // A cancelled op keeps its buffer in the driver, so the idle slot
                // gets a fresh empty `Buf` instead.
                (Err(e), _, r_buf) => {
                    let buf = r_buf.unwrap_or_else(|| Buf::with_capacity(0));
                    break (Operation::Read(Err(e)), buf);
                }
                (Ok(n), _, Some(r_buf)) => break (Operation::Read(Ok(n as usize)), r_buf),
                (Ok(_), ..) => unreachable!("a successful read returns its buffer"),
            }
        }
    }

    #[cfg(all(
        not(test),
        tokio_unstable,
        feature = "io-uring",
        feature = "rt",
        feature = "fs",
        target_os = "linux",
    ))]
    async fn lazy_init_read(std: Arc<StdFile>, buf: Buf, max_buf_size: usize) -> (Operation, Buf) {
        if let Ok(handle) = crate::runtime::Handle::try_current() {
            if let Some(driver_handle) = handle.inner.driver().io.as_ref() {
                if driver_handle
                    .check_and_init(io_uring::opcode::Read::CODE)
                    .await
                    .unwrap_or_default()
                {
                    let fd: crate::io::uring::utils::ArcFd = std;
                    return Self::uring_read(fd, buf, max_buf_size).await;
                }
            }
        }

        match Self::spawn_blocking_read(buf, std, max_buf_size).await {
            Ok(result) => result,
            Err(e) => (
                Operation::Read(Err(io::Error::other(e))),
                Buf::with_capacity(0),
            ),
        }
    }

    fn spawn_blocking_read(
        buf: Buf,
        std: Arc<StdFile>,
        max_buf_size: usize,
    ) -> JoinHandle<(Operation, Buf)> {
        spawn_blocking(move || {
            let mut buf = buf;
            // SAFETY: the `Read` implementation of `std` does not
            // read from the buffer it is borrowing and correctly
            // reports the length of the data written into the buffer.
            let res = unsafe { buf.read_from(&mut &*std, max_buf_size) };
            (Operation::Read(res), buf)
        })
    }

    async fn complete_inflight(&mut self) {
        use std::future::poll_fn;

        poll_fn(|cx| self.poll_complete_inflight(cx)).await;
    }

    fn poll_complete_inflight(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        ready!(crate::trace::trace_leaf(cx));
        match self.poll_flush(cx) {
            Poll::Ready(Err(e)) => {
                self.last_write_err = Some(e.kind());
                Poll::Ready(())
            }
            Poll::Ready(Ok(())) => Poll::Ready(()),
            Poll::Pending => Poll::Pending,
        }
    }

    fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        if let Some(e) = self.last_write_err.take() {
            return Poll::Ready(Err(e.into()));
        }

        let (op, buf) = match self.state {
            State::Idle(_) => return Poll::Ready(Ok(())),
            State::Busy(ref mut rx) => {
                let res = ready!(Pin::new(rx).poll(cx));
                if res.is_err() {
                    // Restore a valid Idle state before returning the error.
                    self.state = State::Idle(Some(Buf::with_capacity(0)));
                }
                res?
            }
        };

        // The buffer is not used here
        self.state = State::Idle(Some(buf));

        match op {
            Operation::Read(_) => Poll::Ready(Ok(())),
            Operation::Write(res) => Poll::Ready(res),
            Operation::Seek(_) => Poll::Ready(Ok(())),
        }
    }
}

#[cfg(test)]
mod tests;
