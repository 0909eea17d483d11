use crate::io::{AsyncRead, AsyncWrite};
use crate::model::world;
use crate::stream::Stream;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::pin::Pin;
use std::task::{Context, Poll};

/// Addresses are not resolved: all of them lead to the harness.
pub trait ToSocketAddrs {}
impl ToSocketAddrs for str {}
impl ToSocketAddrs for String {}
impl ToSocketAddrs for SocketAddr {}
impl ToSocketAddrs for SocketAddrV4 {}
impl ToSocketAddrs for SocketAddrV6 {}
impl ToSocketAddrs for [SocketAddr] {}
impl ToSocketAddrs for (&str, u16) {}
impl ToSocketAddrs for (String, u16) {}
impl ToSocketAddrs for (IpAddr, u16) {}
impl ToSocketAddrs for (Ipv4Addr, u16) {}
impl ToSocketAddrs for (Ipv6Addr, u16) {}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {}

/// Where a listener is bound to. Names are not resolved.
pub trait BindAddr {
    fn addr(&self) -> io::Result<SocketAddr>;
}
impl BindAddr for SocketAddr {
    fn addr(&self) -> io::Result<SocketAddr> {
        Ok(*self)
    }
}
impl BindAddr for SocketAddrV4 {
    fn addr(&self) -> io::Result<SocketAddr> {
        Ok((*self).into())
    }
}
impl BindAddr for SocketAddrV6 {
    fn addr(&self) -> io::Result<SocketAddr> {
        Ok((*self).into())
    }
}
impl BindAddr for [SocketAddr] {
    fn addr(&self) -> io::Result<SocketAddr> {
        self.first().copied().ok_or_else(|| io::ErrorKind::InvalidInput.into())
    }
}
impl BindAddr for (IpAddr, u16) {
    fn addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::new(self.0, self.1))
    }
}
impl BindAddr for (Ipv4Addr, u16) {
    fn addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::new(self.0.into(), self.1))
    }
}
impl BindAddr for (Ipv6Addr, u16) {
    fn addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::new(self.0.into(), self.1))
    }
}
impl BindAddr for (&str, u16) {
    fn addr(&self) -> io::Result<SocketAddr> {
        match self.0.parse::<IpAddr>() {
            Ok(ip) => Ok(SocketAddr::new(ip, self.1)),
            Err(_) => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
}
impl BindAddr for (String, u16) {
    fn addr(&self) -> io::Result<SocketAddr> {
        (&self.0[..], self.1).addr()
    }
}
impl BindAddr for str {
    fn addr(&self) -> io::Result<SocketAddr> {
        self.parse().map_err(|_| io::ErrorKind::InvalidInput.into())
    }
}
impl BindAddr for String {
    fn addr(&self) -> io::Result<SocketAddr> {
        self[..].addr()
    }
}
impl<T: BindAddr + ?Sized> BindAddr for &T {
    fn addr(&self) -> io::Result<SocketAddr> {
        (**self).addr()
    }
}

fn some_addr() -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(192, 0, 2, 1)), 1)
}

pub(crate) fn read(id: usize, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    let c = &mut world().conns[id];
    c.read_size = buf.len();
    match c.pieces.front_mut() {
        Some(p) => {
            world().activity += 1;
            let n = p.len().min(buf.len());
            buf[..n].copy_from_slice(&p[..n]);
            if n == p.len() {
                c.pieces.pop_front();
            } else {
                p.drain(..n);
            }
            Poll::Ready(Ok(n))
        }
        None => match c.read_error {
            Some(k) => Poll::Ready(Err(k.into())),
            None if c.eof => Poll::Ready(Ok(0)),
            None => Poll::Pending,
        },
    }
}
fn peek(id: usize, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    let c = &mut world().conns[id];
    match c.pieces.front() {
        Some(p) => {
            let n = p.len().min(buf.len());
            buf[..n].copy_from_slice(&p[..n]);
            Poll::Ready(Ok(n))
        }
        None => read(id, buf),
    }
}
pub(crate) fn write(id: usize, buf: &[u8]) -> Poll<io::Result<usize>> {
    let c = &mut world().conns[id];
    let mut n = buf.len().min(c.write_max);
    if let Some((at, k)) = c.write_error {
        if c.written.len() >= at {
            return Poll::Ready(Err(k.into()));
        }
        n = n.min(at - c.written.len());
    }
    if c.shut {
        return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
    }
    n = n.min(c.write_room);
    if n == 0 && !buf.is_empty() {
        return Poll::Pending;
    }
    if c.write_room != usize::MAX {
        c.write_room -= n;
    }
    world().activity += 1;
    c.written.extend_from_slice(&buf[..n]);
    Poll::Ready(Ok(n))
}
fn shut(id: usize) -> Poll<io::Result<()>> {
    world().conns[id].shut = true;
    Poll::Ready(Ok(()))
}

macro_rules! reads {
    ($t:ty) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                read(self.id, buf)
            }
        }
    };
}
macro_rules! writes {
    ($t:ty) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                write(self.id, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                shut(self.id)
            }
        }
    };
}

#[derive(Debug)]
pub struct TcpStream {
    id: usize,
    split: bool,
}
reads!(TcpStream);
writes!(TcpStream);

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(_: A) -> io::Result<TcpStream> {
        match world().connects.pop_front() {
            Some(Ok(id)) => Ok(open(id)),
            Some(Err(e)) => Err(e),
            None => Err(io::ErrorKind::ConnectionRefused.into()),
        }
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(some_addr())
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(some_addr())
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        if !matches!(how, Shutdown::Read) {
            world().conns[self.id].shut = true;
        }
        Ok(())
    }
    pub fn poll_peek(&mut self, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        peek(self.id, buf)
    }
    pub async fn peek(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let id = self.id;
        std::future::poll_fn(move |_| peek(id, buf)).await
    }
    pub fn recv_buffer_size(&self) -> io::Result<usize> {
        Ok(65536)
    }
    pub fn set_recv_buffer_size(&self, _: usize) -> io::Result<()> {
        Ok(())
    }
    pub fn send_buffer_size(&self) -> io::Result<usize> {
        Ok(65536)
    }
    pub fn set_send_buffer_size(&self, _: usize) -> io::Result<()> {
        Ok(())
    }
    pub fn keepalive(&self) -> io::Result<Option<std::time::Duration>> {
        Ok(None)
    }
    pub fn set_keepalive(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> {
        Ok(None)
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn into_split(mut self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        self.split = true;
        world().conns[self.id].open_halves = 2;
        (tcp::OwnedReadHalf { id: self.id }, tcp::OwnedWriteHalf { id: self.id })
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (
            tcp::ReadHalf { id: self.id, of: std::marker::PhantomData },
            tcp::WriteHalf { id: self.id, of: std::marker::PhantomData },
        )
    }
}
fn open(id: usize) -> TcpStream {
    world().conns[id].open_halves = 1;
    TcpStream { id, split: false }
}
fn close_half(id: usize) {
    let c = &mut world().conns[id];
    c.open_halves -= 1;
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        if !self.split {
            world().conns[self.id].shut = true;
            close_half(self.id);
        }
    }
}

pub mod tcp {
    use super::*;
    pub use super::{Incoming, TcpListener, TcpStream};

    #[derive(Debug)]
    pub struct OwnedReadHalf {
        pub(super) id: usize,
    }
    #[derive(Debug)]
    pub struct OwnedWriteHalf {
        pub(super) id: usize,
    }
    #[derive(Debug)]
    pub struct ReadHalf<'a> {
        pub(super) id: usize,
        pub(super) of: std::marker::PhantomData<&'a mut TcpStream>,
    }
    #[derive(Debug)]
    pub struct WriteHalf<'a> {
        pub(super) id: usize,
        pub(super) of: std::marker::PhantomData<&'a mut TcpStream>,
    }
    reads!(OwnedReadHalf);
    writes!(OwnedWriteHalf);
    reads!(ReadHalf<'_>);
    writes!(WriteHalf<'_>);
    impl Drop for OwnedReadHalf {
        fn drop(&mut self) {
            close_half(self.id);
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            world().conns[self.id].shut = true;
            close_half(self.id);
        }
    }
}

#[derive(Debug)]
pub struct TcpListener(());
#[derive(Debug)]
pub struct Incoming<'a>(&'a mut TcpListener);

fn accept() -> Poll<Option<io::Result<usize>>> {
    let w = world();
    match w.incoming.pop_front() {
        Some(x) => Poll::Ready(Some(x)),
        None if w.more_incoming => Poll::Pending,
        None => Poll::Ready(None),
    }
}
impl TcpListener {
    pub async fn bind<A: BindAddr>(a: A) -> io::Result<TcpListener> {
        if let Some(k) = world().bind_error {
            return Err(k.into());
        }
        world().bound.push(a.addr()?);
        Ok(TcpListener(()))
    }
    pub fn incoming(&mut self) -> Incoming<'_> {
        Incoming(self)
    }
    pub async fn accept(&mut self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|c| self.poll_accept(c)).await
    }
    pub fn poll_accept(&mut self, _: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        match accept() {
            Poll::Ready(Some(Ok(id))) => Poll::Ready(Ok((open(id), some_addr()))),
            Poll::Ready(Some(Err(e))) => Poll::Ready(Err(e)),
            Poll::Ready(None) => Poll::Ready(Err(io::ErrorKind::Other.into())),
            Poll::Pending => Poll::Pending,
        }
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(world().bound[0])
    }
}
impl Stream for Incoming<'_> {
    type Item = io::Result<TcpStream>;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match accept() {
            Poll::Ready(Some(Ok(id))) => Poll::Ready(Some(Ok(open(id)))),
            Poll::Ready(Some(Err(e))) => Poll::Ready(Some(Err(e))),
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl Stream for TcpListener {
    type Item = io::Result<TcpStream>;
    fn poll_next(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Pin::new(&mut Incoming(&mut self)).poll_next(c)
    }
}
