cfg_net! {
    use crate::net::addr::{self, ToSocketAddrs};

    use std::io;
    use std::net::SocketAddr;

    pub async fn lookup_host<T>(host: T) -> io::Result<impl Iterator<Item = SocketAddr>>
    where
        T: ToSocketAddrs
    {
        addr::to_socket_addrs(host).await
    }
}
