//! Runtimes whose `block_on` asks the harness what happens whenever there is nothing to do.
use crate::model::{poll, world};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::task::Poll;

#[derive(Debug, Default)]
pub struct Builder(());
#[derive(Debug)]
pub struct Runtime(());

impl Builder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn basic_scheduler(&mut self) -> &mut Self {
        self
    }
    pub fn threaded_scheduler(&mut self) -> &mut Self {
        self
    }
    pub fn core_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn max_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Ok(Runtime(()))
    }
}
impl Runtime {
    pub fn new() -> io::Result<Self> {
        Ok(Self(()))
    }
    pub fn block_on<F: Future>(&mut self, f: F) -> F::Output {
        let mut f: Pin<Box<dyn Future<Output = F::Output> + '_>> = Box::pin(f);
        loop {
            if let Poll::Ready(x) = poll(f.as_mut()) {
                return x;
            }
            let mut idle = world().idle.take().expect("something happens");
            idle();
            world().idle = Some(idle);
        }
    }
}
