//! What the network holds, for harnesses.
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// One side of a connection.
pub struct Conn {
    /// What arrives: a read returns bytes of one piece at most.
    pub pieces: VecDeque<Vec<u8>>,
    /// After the pieces: the end, or an error, or (neither) nothing yet.
    pub eof: bool,
    pub read_error: Option<io::ErrorKind>,
    /// What was written.
    pub written: Vec<u8>,
    /// How much of it can be seen already (standard output only).
    pub visible: usize,
    /// Whether the write side was shut down.
    pub shut: bool,
    /// How many bytes a write takes at most, and how many it takes until it has to wait.
    pub write_max: usize,
    pub write_room: usize,
    /// Writes fail once this many bytes were written.
    pub write_error: Option<(usize, io::ErrorKind)>,
    pub open_halves: usize,
    /// How many bytes the last read could have taken.
    pub read_size: usize,
}

pub struct World {
    pub conns: Vec<Conn>,
    /// Connections a listener will accept.
    pub incoming: VecDeque<io::Result<usize>>,
    /// Whether there will be more of them.
    pub more_incoming: bool,
    pub bound: Vec<SocketAddr>,
    pub bind_error: Option<io::ErrorKind>,
    /// What connecting will give.
    pub connects: VecDeque<io::Result<usize>>,
    pub tasks: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>,
    /// How many reads and writes there were.
    pub activity: u64,
    /// Standard input and output.
    pub stdio: Option<usize>,
    /// What happens when the runtime has nothing to do.
    pub idle: Option<Box<dyn FnMut()>>,
}

static mut WORLD: Option<World> = None;

pub fn world() -> &'static mut World {
    unsafe {
        let w = &mut *std::ptr::addr_of_mut!(WORLD);
        w.get_or_insert_with(|| World {
            conns: vec![],
            incoming: VecDeque::new(),
            more_incoming: false,
            bound: vec![],
            bind_error: None,
            connects: VecDeque::new(),
            tasks: vec![],
            activity: 0,
            stdio: None,
            idle: None,
        })
    }
}

/// A new connection.
pub fn conn() -> usize {
    let w = world();
    w.conns.push(Conn {
        pieces: VecDeque::new(),
        eof: false,
        read_error: None,
        written: vec![],
        visible: 0,
        shut: false,
        write_max: usize::MAX,
        write_room: usize::MAX,
        write_error: None,
        open_halves: 0,
        read_size: 0,
    });
    w.conns.len() - 1
}

fn vtable() -> &'static RawWakerVTable {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), vtable())
    }
    fn nothing(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(clone, nothing, nothing, nothing);
    &V
}

/// Poll a future once.
pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), vtable())) };
    f.poll(&mut Context::from_waker(&w))
}

/// Poll a spawned task until it ends or nothing more happens; whether it ended.
pub fn poll_task(i: usize) -> bool {
    let t = world().tasks[i].take();
    if let Some(mut t) = t {
        loop {
            let before = world().activity;
            if poll(t.as_mut()).is_ready() {
                break;
            }
            if world().activity == before {
                world().tasks[i] = Some(t);
                return false;
            }
        }
    }
    true
}
