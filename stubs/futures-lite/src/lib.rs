//! Stand-in for the `futures-lite` crate, which is not available in this sandbox: the parts of
//! its API hyperbee (or a refactoring of it) is likely to use, with the same behaviour.
pub use future::{Future, FutureExt};
pub use futures_core::{ready, Stream};
pub use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
pub use stream::StreamExt;
pub mod prelude {
    pub use crate::{Future, FutureExt as _, Stream, StreamExt as _};
}
#[macro_export]
macro_rules! pin {
    ($($x:ident),* $(,)?) => { $(
        let mut $x = $x;
        #[allow(unused_mut)]
        let mut $x = unsafe { ::core::pin::Pin::new_unchecked(&mut $x) };
    )* }
}
pub mod future {
    pub use core::future::{pending, poll_fn, ready, Future, Pending, Ready};
    use core::{pin::Pin, task::{Context, Poll}};
    pub type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Future<Output = T> + 'static>>;
    pub trait FutureExt: Future {
        fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
        where
            Self: Unpin,
        {
            Future::poll(Pin::new(self), cx)
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send + 'a>>
        where
            Self: Sized + Send + 'a,
        {
            Box::pin(self)
        }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + 'a>>
        where
            Self: Sized + 'a,
        {
            Box::pin(self)
        }
    }
    impl<F: Future + ?Sized> FutureExt for F {}
    pub async fn yield_now() {
        let mut done = false;
        poll_fn(move |cx| {
            if done {
                Poll::Ready(())
            } else {
                done = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        })
        .await
    }
    pub async fn zip<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
        let (mut a, mut b) = (Box::pin(a), Box::pin(b));
        let (mut ra, mut rb) = (None, None);
        poll_fn(move |cx| {
            if ra.is_none() {
                if let Poll::Ready(v) = a.as_mut().poll(cx) {
                    ra = Some(v);
                }
            }
            if rb.is_none() {
                if let Poll::Ready(v) = b.as_mut().poll(cx) {
                    rb = Some(v);
                }
            }
            if ra.is_some() && rb.is_some() {
                Poll::Ready((ra.take().unwrap(), rb.take().unwrap()))
            } else {
                Poll::Pending
            }
        })
        .await
    }
}
pub mod stream {
    pub use futures_core::Stream;
    use core::{future::Future, pin::Pin, task::{Context, Poll}};
    pub type Boxed<T> = Pin<Box<dyn Stream<Item = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Stream<Item = T> + 'static>>;

    pub struct Iter<I>(I);
    impl<I> Unpin for Iter<I> {}
    pub fn iter<I: IntoIterator>(i: I) -> Iter<I::IntoIter> {
        Iter(i.into_iter())
    }
    impl<I: Iterator> Stream for Iter<I> {
        type Item = I::Item;
        fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<I::Item>> {
            Poll::Ready(self.0.next())
        }
    }
    pub struct Empty<T>(core::marker::PhantomData<T>);
    pub fn empty<T>() -> Empty<T> {
        Empty(core::marker::PhantomData)
    }
    impl<T> Stream for Empty<T> {
        type Item = T;
        fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<T>> {
            Poll::Ready(None)
        }
    }
    pub fn once<T>(t: T) -> Iter<core::option::IntoIter<T>> {
        Iter(Some(t).into_iter())
    }
    pub struct PollFn<F>(F);
    impl<F> Unpin for PollFn<F> {}
    pub fn poll_fn<T, F: FnMut(&mut Context<'_>) -> Poll<Option<T>>>(f: F) -> PollFn<F> {
        PollFn(f)
    }
    impl<T, F: FnMut(&mut Context<'_>) -> Poll<Option<T>>> Stream for PollFn<F> {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            (self.0)(cx)
        }
    }
    pub struct Unfold<T, F, Fut> {
        f: F,
        state: Option<T>,
        fut: Option<Pin<Box<Fut>>>,
    }
    impl<T, F, Fut> Unpin for Unfold<T, F, Fut> {}
    pub fn unfold<T, F: FnMut(T) -> Fut, Fut: Future<Output = Option<(I, T)>>, I>(seed: T, f: F) -> Unfold<T, F, Fut> {
        Unfold { f, state: Some(seed), fut: None }
    }
    impl<T, F: FnMut(T) -> Fut, Fut: Future<Output = Option<(I, T)>>, I> Stream for Unfold<T, F, Fut> {
        type Item = I;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<I>> {
            let this = &mut *self;
            if let Some(s) = this.state.take() {
                this.fut = Some(Box::pin((this.f)(s)));
            }
            let Some(fut) = &mut this.fut else { return Poll::Ready(None) };
            match fut.as_mut().poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(o) => {
                    this.fut = None;
                    Poll::Ready(o.map(|(i, s)| {
                        this.state = Some(s);
                        i
                    }))
                }
            }
        }
    }

    /// Adapter core: the inner stream (boxed, so that adapters are `Unpin`) and a function.
    pub struct Map<S, F>(Pin<Box<S>>, F);
    impl<S, F> Unpin for Map<S, F> {}
    impl<S: Stream, F: FnMut(S::Item) -> T, T> Stream for Map<S, F> {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let this = &mut *self;
            match this.0.as_mut().poll_next(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(None) => Poll::Ready(None),
                Poll::Ready(Some(x)) => Poll::Ready(Some((this.1)(x))),
            }
        }
    }
    pub struct FilterMap<S, F>(Pin<Box<S>>, F);
    impl<S, F> Unpin for FilterMap<S, F> {}
    impl<S: Stream, F: FnMut(S::Item) -> Option<T>, T> Stream for FilterMap<S, F> {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let this = &mut *self;
            loop {
                match this.0.as_mut().poll_next(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(None) => return Poll::Ready(None),
                    Poll::Ready(Some(x)) => {
                        if let Some(v) = (this.1)(x) {
                            return Poll::Ready(Some(v));
                        }
                    }
                }
            }
        }
    }
    pub struct Filter<S, F>(Pin<Box<S>>, F);
    impl<S, F> Unpin for Filter<S, F> {}
    impl<S: Stream, F: FnMut(&S::Item) -> bool> Stream for Filter<S, F> {
        type Item = S::Item;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let this = &mut *self;
            loop {
                match this.0.as_mut().poll_next(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(None) => return Poll::Ready(None),
                    Poll::Ready(Some(x)) => {
                        if (this.1)(&x) {
                            return Poll::Ready(Some(x));
                        }
                    }
                }
            }
        }
    }
    /// take / take_while / skip / skip_while / fuse share one state machine.
    pub struct Bounded<S: Stream, P> {
        s: Option<Pin<Box<S>>>,
        p: P,
    }
    impl<S: Stream, P> Unpin for Bounded<S, P> {}
    impl<S: Stream, P: FnMut(&S::Item) -> core::ops::ControlFlow<(), bool>> Stream for Bounded<S, P> {
        type Item = S::Item;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let this = &mut *self;
            loop {
                let Some(s) = &mut this.s else { return Poll::Ready(None) };
                match s.as_mut().poll_next(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(None) => {
                        this.s = None;
                        return Poll::Ready(None);
                    }
                    Poll::Ready(Some(x)) => match (this.p)(&x) {
                        core::ops::ControlFlow::Break(()) => {
                            this.s = None;
                            return Poll::Ready(None);
                        }
                        core::ops::ControlFlow::Continue(true) => return Poll::Ready(Some(x)),
                        core::ops::ControlFlow::Continue(false) => {}
                    },
                }
            }
        }
    }
    pub struct Take<S> {
        s: Pin<Box<S>>,
        n: usize,
    }
    impl<S> Unpin for Take<S> {}
    impl<S: Stream> Stream for Take<S> {
        type Item = S::Item;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            if self.n == 0 {
                return Poll::Ready(None);
            }
            let r = self.s.as_mut().poll_next(cx);
            match &r {
                Poll::Ready(Some(_)) => self.n -= 1,
                Poll::Ready(None) => self.n = 0,
                Poll::Pending => {}
            }
            r
        }
    }
    pub struct Chain<A, B>(Option<Pin<Box<A>>>, Pin<Box<B>>);
    impl<A, B> Unpin for Chain<A, B> {}
    impl<A: Stream, B: Stream<Item = A::Item>> Stream for Chain<A, B> {
        type Item = A::Item;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<A::Item>> {
            if let Some(a) = &mut self.0 {
                match a.as_mut().poll_next(cx) {
                    Poll::Ready(None) => self.0 = None,
                    o => return o,
                }
            }
            self.1.as_mut().poll_next(cx)
        }
    }
    pub struct Enumerate<S>(Pin<Box<S>>, usize);
    impl<S> Unpin for Enumerate<S> {}
    impl<S: Stream> Stream for Enumerate<S> {
        type Item = (usize, S::Item);
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            match self.0.as_mut().poll_next(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(None) => Poll::Ready(None),
                Poll::Ready(Some(x)) => {
                    let i = self.1;
                    self.1 += 1;
                    Poll::Ready(Some((i, x)))
                }
            }
        }
    }
    pub struct Then<S, F, Fut>(Pin<Box<S>>, F, Option<Pin<Box<Fut>>>);
    impl<S, F, Fut> Unpin for Then<S, F, Fut> {}
    impl<S: Stream, F: FnMut(S::Item) -> Fut, Fut: Future> Stream for Then<S, F, Fut> {
        type Item = Fut::Output;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            let this = &mut *self;
            loop {
                if let Some(f) = &mut this.2 {
                    return match f.as_mut().poll(cx) {
                        Poll::Pending => Poll::Pending,
                        Poll::Ready(v) => {
                            this.2 = None;
                            Poll::Ready(Some(v))
                        }
                    };
                }
                match this.0.as_mut().poll_next(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(None) => return Poll::Ready(None),
                    Poll::Ready(Some(x)) => this.2 = Some(Box::pin((this.1)(x))),
                }
            }
        }
    }
    pub struct NextFuture<'a, S: ?Sized>(&'a mut S);
    impl<S: Stream + Unpin + ?Sized> Future for NextFuture<'_, S> {
        type Output = Option<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut *self.0).poll_next(cx)
        }
    }
    type Flow = core::ops::ControlFlow<(), bool>;
    pub trait StreamExt: Stream {
        fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>
        where
            Self: Unpin,
        {
            Stream::poll_next(Pin::new(self), cx)
        }
        fn next(&mut self) -> NextFuture<'_, Self>
        where
            Self: Unpin,
        {
            NextFuture(self)
        }
        fn try_next<T, E>(&mut self) -> impl Future<Output = Result<Option<T>, E>>
        where
            Self: Stream<Item = Result<T, E>> + Unpin,
        {
            async move { self.next().await.transpose() }
        }
        fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Self, F>
        where
            Self: Sized,
        {
            Map(Box::pin(self), f)
        }
        fn filter<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Filter<Self, F>
        where
            Self: Sized,
        {
            Filter(Box::pin(self), f)
        }
        fn filter_map<T, F: FnMut(Self::Item) -> Option<T>>(self, f: F) -> FilterMap<Self, F>
        where
            Self: Sized,
        {
            FilterMap(Box::pin(self), f)
        }
        fn then<F: FnMut(Self::Item) -> Fut, Fut: Future>(self, f: F) -> Then<Self, F, Fut>
        where
            Self: Sized,
        {
            Then(Box::pin(self), f, None)
        }
        fn enumerate(self) -> Enumerate<Self>
        where
            Self: Sized,
        {
            Enumerate(Box::pin(self), 0)
        }
        fn inspect<F: FnMut(&Self::Item)>(self, mut f: F) -> Map<Self, impl FnMut(Self::Item) -> Self::Item>
        where
            Self: Sized,
        {
            Map(Box::pin(self), move |x| {
                f(&x);
                x
            })
        }
        fn chain<U: Stream<Item = Self::Item>>(self, o: U) -> Chain<Self, U>
        where
            Self: Sized,
        {
            Chain(Some(Box::pin(self)), Box::pin(o))
        }
        fn fuse(self) -> Bounded<Self, impl FnMut(&Self::Item) -> Flow>
        where
            Self: Sized,
        {
            Bounded { s: Some(Box::pin(self)), p: |_: &Self::Item| Flow::Continue(true) }
        }
        fn take_while<P: FnMut(&Self::Item) -> bool>(self, mut f: P) -> Bounded<Self, impl FnMut(&Self::Item) -> Flow>
        where
            Self: Sized,
        {
            Bounded { s: Some(Box::pin(self)), p: move |x: &Self::Item| if f(x) { Flow::Continue(true) } else { Flow::Break(()) } }
        }
        fn skip_while<P: FnMut(&Self::Item) -> bool>(self, mut f: P) -> Bounded<Self, impl FnMut(&Self::Item) -> Flow>
        where
            Self: Sized,
        {
            let mut done = false;
            Bounded {
                s: Some(Box::pin(self)),
                p: move |x: &Self::Item| {
                    done = done || !f(x);
                    Flow::Continue(done)
                },
            }
        }
        fn take(self, n: usize) -> Take<Self>
        where
            Self: Sized,
        {
            Take { s: Box::pin(self), n }
        }
        fn skip(self, n: usize) -> Bounded<Self, impl FnMut(&Self::Item) -> Flow>
        where
            Self: Sized,
        {
            let mut left = n;
            Bounded {
                s: Some(Box::pin(self)),
                p: move |_: &Self::Item| {
                    if left == 0 {
                        return Flow::Continue(true);
                    }
                    left -= 1;
                    Flow::Continue(false)
                },
            }
        }
        fn collect<C: Default + Extend<Self::Item>>(self) -> impl Future<Output = C>
        where
            Self: Sized,
        {
            async move {
                let mut s = Box::pin(self);
                let mut c = C::default();
                while let Some(x) = s.next().await {
                    c.extend(Some(x));
                }
                c
            }
        }
        fn try_collect<T, E, C: Default + Extend<T>>(self) -> impl Future<Output = Result<C, E>>
        where
            Self: Stream<Item = Result<T, E>> + Sized,
        {
            async move {
                let mut s = Box::pin(self);
                let mut c = C::default();
                while let Some(x) = s.next().await {
                    c.extend(Some(x?));
                }
                Ok(c)
            }
        }
        fn fold<A, F: FnMut(A, Self::Item) -> A>(self, init: A, mut f: F) -> impl Future<Output = A>
        where
            Self: Sized,
        {
            async move {
                let mut s = Box::pin(self);
                let mut a = init;
                while let Some(x) = s.next().await {
                    a = f(a, x);
                }
                a
            }
        }
        fn for_each<F: FnMut(Self::Item)>(self, mut f: F) -> impl Future<Output = ()>
        where
            Self: Sized,
        {
            async move {
                let mut s = Box::pin(self);
                while let Some(x) = s.next().await {
                    f(x);
                }
            }
        }
        fn count(self) -> impl Future<Output = usize>
        where
            Self: Sized,
        {
            self.fold(0, |n, _| n + 1)
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + Send + 'a>>
        where
            Self: Sized + Send + 'a,
        {
            Box::pin(self)
        }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + 'a>>
        where
            Self: Sized + 'a,
        {
            Box::pin(self)
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}
