//! Standard input and output, as one more connection of the harness.
use crate::model::world;
use crate::net::{read, write};
use real::io::{AsyncRead, AsyncWrite};
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct Stdin(usize);
#[derive(Debug)]
pub struct Stdout(usize);

pub fn stdin() -> Stdin {
    Stdin(world().stdio.expect("standard input"))
}
pub fn stdout() -> Stdout {
    Stdout(world().stdio.expect("standard output"))
}

impl AsyncRead for Stdin {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        read(self.0, buf)
    }
}
impl AsyncWrite for Stdout {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let r = write(self.0, buf);
        // what follows the last end of a line waits to be flushed
        let c = &mut world().conns[self.0];
        while c.visible < c.written.len() {
            match c.written[c.visible..].iter().position(|b| *b == b'\n') {
                Some(n) => c.visible += n + 1,
                None => break,
            }
        }
        r
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let c = &mut world().conns[self.0];
        c.visible = c.written.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}
