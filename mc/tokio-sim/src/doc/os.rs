
pub mod windows {
    pub mod io {
        pub type RawHandle = crate::doc::NotDefinedHere;

        pub type OwnedHandle = crate::doc::NotDefinedHere;

        pub trait AsRawHandle {
            fn as_raw_handle(&self) -> RawHandle;
        }

        pub trait FromRawHandle {
            unsafe fn from_raw_handle(handle: RawHandle) -> Self;
        }

        pub trait IntoRawHandle {
            fn into_raw_handle(self) -> RawHandle;
        }

        pub type RawSocket = crate::doc::NotDefinedHere;

        pub trait AsRawSocket {
            fn as_raw_socket(&self) -> RawSocket;
        }

        pub trait FromRawSocket {
            unsafe fn from_raw_socket(sock: RawSocket) -> Self;
        }

        pub trait IntoRawSocket {
            fn into_raw_socket(self) -> RawSocket;
        }

        pub type BorrowedHandle<'handle> = crate::doc::NotDefinedHere;

        pub trait AsHandle {
            fn as_handle(&self) -> BorrowedHandle<'_>;
        }

        pub type BorrowedSocket<'socket> = crate::doc::NotDefinedHere;

        pub trait AsSocket {
            fn as_socket(&self) -> BorrowedSocket<'_>;
        }
    }
}
