#![cfg(not(loom))]


mod addr;
cfg_not_wasip1! {
    #[cfg(feature = "net")]
    pub(crate) use addr::to_socket_addrs;
}
pub use addr::ToSocketAddrs;

cfg_net! {
    mod lookup_host;
    pub use lookup_host::lookup_host;

    pub mod tcp;
    pub use crate::sim::net::{TcpListener, TcpStream};
    cfg_not_wasip1! {
        pub use tcp::socket::TcpSocket;

        mod udp;
        #[doc(inline)]
        pub use udp::UdpSocket;
    }
}

cfg_net_unix! {
    pub mod unix;
    pub use unix::datagram::socket::UnixDatagram;
    pub use unix::listener::UnixListener;
    pub use unix::stream::UnixStream;
    pub use unix::socket::UnixSocket;
}

cfg_net_windows! {
    pub mod windows;
}
