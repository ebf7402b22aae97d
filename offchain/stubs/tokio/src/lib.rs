//! The real tokio with a select! that does not need tokio-macros (not available offline). The
//! branches are polled in the order given, rotated from call to call: the real one starts anywhere.
pub use real_tokio::*;
/// signals are sent by the checks to the programs of this thread, see signal::unix::send
pub mod signal {
    pub mod unix {
        use real_tokio::sync::watch;
        use std::cell::RefCell;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct SignalKind(u8);
        impl SignalKind {
            pub fn interrupt() -> Self {
                SignalKind(2)
            }
            pub fn terminate() -> Self {
                SignalKind(15)
            }
            pub fn hangup() -> Self {
                SignalKind(1)
            }
            pub fn quit() -> Self {
                SignalKind(3)
            }
        }
        thread_local!(static BUS: RefCell<watch::Sender<Vec<u8>>> = RefCell::new(watch::channel(vec![]).0));
        pub struct Signal(u8, watch::Receiver<Vec<u8>>, usize);
        pub fn signal(k: SignalKind) -> std::io::Result<Signal> {
            Ok(BUS.with(|b| {
                let r = b.borrow().subscribe();
                let n = r.borrow().len();
                Signal(k.0, r, n)
            }))
        }
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                loop {
                    let seen = self.1.borrow_and_update().clone();
                    if seen[self.2.min(seen.len())..].contains(&self.0) {
                        self.2 = seen.len();
                        return Some(());
                    }
                    if self.1.changed().await.is_err() {
                        // no signal any more
                        std::future::pending::<()>().await;
                    }
                }
            }
        }
        /// no program of before receives any further signals
        pub fn reset() {
            BUS.with(|b| *b.borrow_mut() = watch::channel(vec![]).0);
        }
        pub fn send(k: SignalKind) {
            BUS.with(|b| b.borrow().send_modify(|v| v.push(k.0)));
        }
    }
}
#[doc(hidden)]
pub mod select_support {
    pub use futures::future::{poll_fn, FutureExt};
    use std::cell::Cell;
    thread_local!(static TURN: Cell<usize> = Cell::new(0));
    pub fn turn() -> usize {
        TURN.with(|t| {
            t.set(t.get().wrapping_mul(25214903917).wrapping_add(11));
            t.get() >> 16
        })
    }
    pub fn seed(x: usize) {
        TURN.with(|t| t.set(x))
    }
    pub enum Out3<A, B, C> {
        A(A),
        B(B),
        C(C),
    }
}
#[macro_export]
macro_rules! select {
    ($p1:pat = $f1:expr => $e1:expr, $p2:pat = $f2:expr => $e2:expr, $p3:pat = $f3:expr => $e3:expr $(,)?) => {{
        use $crate::select_support::*;
        let out = {
            let mut a = Box::pin($f1);
            let mut b = Box::pin($f2);
            let mut c = Box::pin($f3);
            poll_fn(|cx| {
                let t = turn();
                for i in 0..3 {
                    match (t + i) % 3 {
                        0 => if let std::task::Poll::Ready(x) = a.poll_unpin(cx) { return std::task::Poll::Ready(Out3::A(x)) },
                        1 => if let std::task::Poll::Ready(x) = b.poll_unpin(cx) { return std::task::Poll::Ready(Out3::B(x)) },
                        _ => if let std::task::Poll::Ready(x) = c.poll_unpin(cx) { return std::task::Poll::Ready(Out3::C(x)) },
                    }
                }
                std::task::Poll::Pending
            })
            .await
        };
        match out {
            Out3::A($p1) => $e1,
            Out3::B($p2) => $e2,
            Out3::C($p3) => $e3,
        }
    }};
    ($p1:pat = $f1:expr => $e1:block $p2:pat = $f2:expr => $e2:expr, $p3:pat = $f3:expr => $e3:expr $(,)?) => {
        $crate::select!($p1 = $f1 => $e1, $p2 = $f2 => $e2, $p3 = $f3 => $e3)
    };
    ($p1:pat = $f1:expr => $e1:expr, $p2:pat = $f2:expr => $e2:expr $(,)?) => {
        $crate::select!($p1 = $f1 => $e1, $p2 = $f2 => $e2, _ = std::future::pending::<()>() => unreachable!())
    };
}
