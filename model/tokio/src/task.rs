use crate::model::world;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub struct JoinHandle<T>(Arc<Mutex<Option<T>>>);

#[derive(Debug)]
pub struct JoinError(());
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("join error")
    }
}
impl std::error::Error for JoinError {}

/// The task waits for the harness to poll it.
pub fn spawn<T>(f: T) -> JoinHandle<T::Output>
where
    T: Future + Send + 'static,
    T::Output: Send + 'static,
{
    let out = Arc::new(Mutex::new(None));
    let to = out.clone();
    world().tasks.push(Some(Box::pin(async move {
        let r = f.await;
        *to.lock().unwrap() = Some(r);
    })));
    JoinHandle(out)
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.lock().unwrap().take() {
            Some(x) => Poll::Ready(Ok(x)),
            None => Poll::Pending,
        }
    }
}

pub async fn yield_now() {
    let mut first = true;
    real_poll_fn(move || {
        if std::mem::replace(&mut first, false) {
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}
fn real_poll_fn(mut f: impl FnMut() -> Poll<()>) -> impl Future<Output = ()> {
    std::future::poll_fn(move |_| f())
}
