//! Stand-in for the parts of tokio-stream used by the off-chain worker.
pub use futures::Stream;
use std::hash::Hash;
use std::pin::Pin;
use std::task::{Context, Poll};

pub struct SkipWhile<S, F> {
    stream: Pin<Box<S>>,
    skip: Option<F>,
}
impl<S: Stream, F: FnMut(&S::Item) -> bool + Unpin> Stream for SkipWhile<S, F> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        let me = &mut *self;
        loop {
            match me.stream.as_mut().poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(None),
                Poll::Ready(Some(x)) => {
                    if let Some(f) = me.skip.as_mut() {
                        if f(&x) {
                            continue;
                        }
                    }
                    me.skip = None;
                    return Poll::Ready(Some(x));
                }
            }
        }
    }
}
pub struct Next<'a, S: ?Sized>(&'a mut S);
impl<S: Stream + Unpin + ?Sized> std::future::Future for Next<'_, S> {
    type Output = Option<S::Item>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        Pin::new(&mut *self.0).poll_next(cx)
    }
}
pub trait StreamExt: Stream {
    fn next(&mut self) -> Next<'_, Self>
    where
        Self: Unpin,
    {
        Next(self)
    }
    fn skip_while<F>(self, f: F) -> SkipWhile<Self, F>
    where
        F: FnMut(&Self::Item) -> bool,
        Self: Sized,
    {
        SkipWhile { stream: Box::pin(self), skip: Some(f) }
    }
    fn map<T, F>(self, f: F) -> futures::stream::Map<Self, F>
    where
        F: FnMut(Self::Item) -> T,
        Self: Sized,
    {
        futures::StreamExt::map(self, f)
    }
}
impl<S: Stream + ?Sized> StreamExt for S {}

/// polls its streams starting from another one each time
pub struct StreamMap<K, V> {
    entries: Vec<(K, V)>,
    turn: usize,
}
impl<K, V> StreamMap<K, V> {
    pub fn new() -> Self {
        StreamMap { entries: vec![], turn: 0 }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V>
    where
        K: Hash + Eq,
    {
        let old = self.entries.iter().position(|(x, _)| *x == k).map(|i| self.entries.swap_remove(i).1);
        self.entries.push((k, v));
        old
    }
    pub fn is_empty(&self) -> bool {
        self.entries.is_empty()
    }
    pub fn len(&self) -> usize {
        self.entries.len()
    }
}
impl<K, V> Default for StreamMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone + Unpin, V: Stream + Unpin> Stream for StreamMap<K, V> {
    type Item = (K, V::Item);
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let me = &mut *self;
        me.turn = me.turn.wrapping_add(tokio::select_support::turn());
        let n = me.entries.len();
        let mut ended = vec![];
        for k in 0..n {
            let i = me.turn.wrapping_add(k) % n;
            match Pin::new(&mut me.entries[i].1).poll_next(cx) {
                Poll::Ready(Some(x)) => return Poll::Ready(Some((me.entries[i].0.clone(), x))),
                Poll::Ready(None) => ended.push(i),
                Poll::Pending => {}
            }
        }
        ended.sort();
        for i in ended.into_iter().rev() {
            me.entries.remove(i);
        }
        if me.entries.is_empty() {
            Poll::Ready(None)
        } else {
            Poll::Pending
        }
    }
}

pub mod wrappers {
    use super::*;
    pub mod errors {
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum BroadcastStreamRecvError {
            Lagged(u64),
        }
        impl std::fmt::Display for BroadcastStreamRecvError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let Self::Lagged(n) = self;
                write!(f, "channel lagged by {n}")
            }
        }
        impl std::error::Error for BroadcastStreamRecvError {}
    }
    use errors::BroadcastStreamRecvError;
    use tokio::sync::{broadcast, mpsc};

    pub struct BroadcastStream<T>(Pin<Box<dyn Stream<Item = Result<T, BroadcastStreamRecvError>> + Send>>);
    impl<T: Clone + Send + 'static> BroadcastStream<T> {
        pub fn new(rx: broadcast::Receiver<T>) -> Self {
            BroadcastStream(Box::pin(futures::stream::unfold(rx, |mut rx| async move {
                match rx.recv().await {
                    Ok(x) => Some((Ok(x), rx)),
                    Err(broadcast::error::RecvError::Lagged(n)) => Some((Err(BroadcastStreamRecvError::Lagged(n)), rx)),
                    Err(broadcast::error::RecvError::Closed) => None,
                }
            })))
        }
    }
    impl<T> Stream for BroadcastStream<T> {
        type Item = Result<T, BroadcastStreamRecvError>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            self.0.as_mut().poll_next(cx)
        }
    }
    pub struct ReceiverStream<T>(mpsc::Receiver<T>);
    impl<T> ReceiverStream<T> {
        pub fn new(rx: mpsc::Receiver<T>) -> Self {
            ReceiverStream(rx)
        }
    }
    impl<T> Stream for ReceiverStream<T> {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            self.0.poll_recv(cx)
        }
    }
}
