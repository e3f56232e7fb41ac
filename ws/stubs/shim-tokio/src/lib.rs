//! tokio's channels under the schedule explorer: the real ones, each operation preceded by a scheduling point.
pub use tokio::*;
pub mod sync {
    pub use tokio::sync::*;
    pub mod oneshot {
        use shim_std::sched::point;
        use std::{
            future::Future,
            pin::Pin,
            task::{Context, Poll},
        };
        use tokio::sync::oneshot as real;
        pub use real::error;
        #[derive(Debug)]
        pub struct Sender<T>(Option<real::Sender<T>>);
        #[derive(Debug)]
        pub struct Receiver<T>(Option<real::Receiver<T>>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let (a, b) = real::channel();
            (Sender(Some(a)), Receiver(Some(b)))
        }
        impl<T> Sender<T> {
            pub fn send(mut self, t: T) -> Result<(), T> {
                point();
                self.0.take().expect("sender").send(t)
            }
            pub fn is_closed(&self) -> bool {
                point();
                self.0.as_ref().expect("sender").is_closed()
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                if self.0.is_some() {
                    point();
                }
            }
        }
        impl<T> Receiver<T> {
            fn r(&mut self) -> &mut real::Receiver<T> {
                self.0.as_mut().expect("receiver")
            }
            pub fn close(&mut self) {
                point();
                self.r().close()
            }
            pub fn try_recv(&mut self) -> Result<T, real::error::TryRecvError> {
                point();
                self.r().try_recv()
            }
        }
        impl<T> Future for Receiver<T> {
            type Output = Result<T, real::error::RecvError>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                point();
                Pin::new(self.r()).poll(cx)
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                point();
                self.0.take();
            }
        }
    }
    pub mod watch {
        use shim_std::sched::point;
        use tokio::sync::watch as real;
        pub use real::{error, Receiver, Ref};
        #[derive(Debug)]
        pub struct Sender<T>(real::Sender<T>);
        pub fn channel<T>(t: T) -> (Sender<T>, Receiver<T>) {
            let (a, b) = real::channel(t);
            (Sender(a), b)
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), error::SendError<T>> {
                point();
                self.0.send(t)
            }
            pub fn send_modify(&self, f: impl FnOnce(&mut T)) {
                point();
                self.0.send_modify(f)
            }
            pub fn send_if_modified(&self, f: impl FnOnce(&mut T) -> bool) -> bool {
                point();
                self.0.send_if_modified(f)
            }
            pub fn send_replace(&self, t: T) -> T {
                point();
                self.0.send_replace(t)
            }
            pub fn borrow(&self) -> Ref<'_, T> {
                point();
                self.0.borrow()
            }
            pub fn subscribe(&self) -> Receiver<T> {
                self.0.subscribe()
            }
            pub fn receiver_count(&self) -> usize {
                self.0.receiver_count()
            }
            pub fn is_closed(&self) -> bool {
                self.0.is_closed()
            }
        }
    }
}
