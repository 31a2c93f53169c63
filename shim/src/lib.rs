//! A stand-in for rayon in which the order of the parallel tasks is an explicit choice
//! (`irse_sched`), so that the symbolic executor can explore every order. Tasks run to
//! completion one after another; results are combined exactly as rayon documents it.
#![allow(clippy::all)]
extern "C" {
    fn irse_sched(n: u32) -> u32;
}
fn sched(n: usize) -> usize {
    if n < 2 {
        0
    } else {
        unsafe { irse_sched(n as u32) as usize }
    }
}
/// an order in which n independent tasks are run
fn order(n: usize) -> Vec<usize> {
    let mut idx: Vec<usize> = (0..n).collect();
    if n < 2 {
        return idx;
    }
    if n <= 3 {
        let mut r = Vec::with_capacity(n);
        while !idx.is_empty() {
            let k = sched(idx.len());
            r.push(idx.remove(k));
        }
        return r;
    }
    match sched(3) {
        0 => {}
        1 => idx.reverse(),
        _ => idx.rotate_left(n / 2),
    }
    idx
}
fn run_all<T, U>(items: Vec<T>, mut f: impl FnMut(T) -> U) -> Vec<U> {
    let n = items.len();
    let mut slots: Vec<Option<T>> = items.into_iter().map(Some).collect();
    let mut out: Vec<Option<U>> = Vec::with_capacity(n);
    for _ in 0..n {
        out.push(None);
    }
    for i in order(n) {
        let t = slots[i].take().unwrap();
        out[i] = Some(f(t));
    }
    out.into_iter().map(|x| x.unwrap()).collect()
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if sched(2) == 0 {
        let x = a();
        let y = b();
        (x, y)
    } else {
        let y = b();
        let x = a();
        (x, y)
    }
}
pub fn current_num_threads() -> usize {
    4
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub struct Scope<'s> {
    tasks: std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>,
}
unsafe impl<'s> Send for Scope<'s> {}
unsafe impl<'s> Sync for Scope<'s> {}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.tasks.borrow_mut().push(Box::new(f));
    }
}
pub fn scope<'s, F, R>(f: F) -> R
where
    F: FnOnce(&Scope<'s>) -> R + Send,
    R: Send,
{
    let s = Scope { tasks: Default::default() };
    let r = f(&s);
    loop {
        let n = s.tasks.borrow().len();
        if n == 0 {
            return r;
        }
        let k = sched(n.min(4));
        let t = s.tasks.borrow_mut().remove(k);
        t(&s);
    }
}
pub use scope as in_place_scope;
pub use scope as scope_fifo;
pub use Scope as ScopeFifo;
impl<'s> Scope<'s> {
    pub fn spawn_fifo<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.spawn(f)
    }
}
#[derive(Default)]
pub struct ThreadPoolBuilder;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
pub struct ThreadPool;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl ThreadPool {
    pub fn install<R: Send>(&self, f: impl FnOnce() -> R + Send) -> R {
        f()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'s, F, R>(&self, f: F) -> R
    where
        F: FnOnce(&Scope<'s>) -> R + Send,
        R: Send,
    {
        scope(f)
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        f()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        None
    }
    pub fn current_num_threads(&self) -> usize {
        4
    }
}

pub mod iter {
    use super::*;
    /// the items of a parallel iterator, in index order
    pub struct Par<T> {
        pub(crate) items: Vec<T>,
    }
    pub trait IntoParallelIterator {
        type Item: Send;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<I> IntoParallelIterator for I
    where
        I: IntoIterator,
        I::Item: Send,
    {
        type Item = I::Item;
        type Iter = Par<I::Item>;
        fn into_par_iter(self) -> Par<I::Item> {
            Par { items: self.into_iter().collect() }
        }
    }
    impl<T> IntoIterator for Par<T> {
        type Item = T;
        type IntoIter = std::vec::IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.items.into_iter()
        }
    }
    pub trait IntoParallelRefIterator<'d> {
        type Item: Send + 'd;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn par_iter(&'d self) -> Self::Iter;
    }
    impl<'d, I: 'd + ?Sized> IntoParallelRefIterator<'d> for I
    where
        &'d I: IntoParallelIterator,
    {
        type Item = <&'d I as IntoParallelIterator>::Item;
        type Iter = <&'d I as IntoParallelIterator>::Iter;
        fn par_iter(&'d self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait IntoParallelRefMutIterator<'d> {
        type Item: Send + 'd;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn par_iter_mut(&'d mut self) -> Self::Iter;
    }
    impl<'d, I: 'd + ?Sized> IntoParallelRefMutIterator<'d> for I
    where
        &'d mut I: IntoParallelIterator,
    {
        type Item = <&'d mut I as IntoParallelIterator>::Item;
        type Iter = <&'d mut I as IntoParallelIterator>::Iter;
        fn par_iter_mut(&'d mut self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait FromParallelIterator<T> {
        fn from_vec(v: Vec<T>) -> Self;
    }
    impl<T, C: std::iter::FromIterator<T>> FromParallelIterator<T> for C {
        fn from_vec(v: Vec<T>) -> C {
            v.into_iter().collect()
        }
    }
    pub trait ParallelExtend<T> {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I)
        where
            T: Send;
    }
    impl<T, C: Extend<T>> ParallelExtend<T> for C {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I)
        where
            T: Send,
        {
            self.extend(i.into_par_iter().items())
        }
    }
    /// a state is shared by the consecutive items [0, k), another one by [k, n)
    fn with_state<T, S, U>(items: Vec<T>, init: &impl Fn() -> S, f: &impl Fn(&mut S, T) -> U) -> Vec<U> {
        let n = items.len();
        let k = if n >= 2 { sched(n.min(4)) } else { 0 };
        let mut out = Vec::with_capacity(n);
        let mut s = init();
        for (i, x) in items.into_iter().enumerate() {
            if i > 0 && i == k {
                s = init();
            }
            out.push(f(&mut s, x));
        }
        out
    }
    /// a sequential iterator whose items are handed out in an unspecified order
    pub trait ParallelBridge: Sized {
        type Item: Send;
        fn par_bridge(self) -> Par<Self::Item>;
    }
    impl<T: Iterator + Send> ParallelBridge for T
    where
        T::Item: Send,
    {
        type Item = T::Item;
        fn par_bridge(self) -> Par<T::Item> {
            let mut v: Vec<Option<T::Item>> = self.map(Some).collect();
            let o = order(v.len());
            Par { items: o.into_iter().map(|i| v[i].take().unwrap()).collect() }
        }
    }
    pub trait ParallelDrainRange<R = std::ops::RangeFull> {
        type Item: Send;
        fn par_drain(self, r: R) -> Par<Self::Item>;
    }
    impl<'a, T: Send, R: std::ops::RangeBounds<usize>> ParallelDrainRange<R> for &'a mut Vec<T> {
        type Item = T;
        fn par_drain(self, r: R) -> Par<T> {
            Par { items: self.drain(r).collect() }
        }
    }
    /// one way of associating a reduction: fold the parts [0, k) and [k, n) and combine them
    fn fold_parts<T>(items: Vec<T>, id: &impl Fn() -> T, op: &impl Fn(T, T) -> T) -> T {
        let n = items.len();
        let k = if n >= 2 { sched(n.min(4)) } else { 0 };
        if k == 0 {
            return items.into_iter().fold(id(), |a, b| op(a, b));
        }
        let mut left = items;
        let right = left.split_off(k);
        let l = left.into_iter().fold(id(), |a, b| op(a, b));
        let r = right.into_iter().fold(id(), |a, b| op(a, b));
        op(l, r)
    }
    pub trait ParallelIterator: Sized {
        type Item: Send;
        fn items(self) -> Vec<Self::Item>;

        fn map<U: Send, F: Fn(Self::Item) -> U + Sync + Send>(self, f: F) -> Par<U> {
            Par { items: run_all(self.items(), |x| f(x)) }
        }
        fn map_with<S: Clone + Send, U: Send, F: Fn(&mut S, Self::Item) -> U + Sync + Send>(self, s: S, f: F) -> Par<U> {
            Par { items: with_state(self.items(), &|| s.clone(), &f) }
        }
        fn map_init<S, I: Fn() -> S + Sync + Send, U: Send, F: Fn(&mut S, Self::Item) -> U + Sync + Send>(self, i: I, f: F) -> Par<U> {
            Par { items: with_state(self.items(), &i, &f) }
        }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            run_all(self.items(), |x| f(x));
        }
        fn for_each_with<S: Clone + Send, F: Fn(&mut S, Self::Item) + Sync + Send>(self, s: S, f: F) {
            with_state(self.items(), &|| s.clone(), &f);
        }
        fn for_each_init<S, I: Fn() -> S + Sync + Send, F: Fn(&mut S, Self::Item) + Sync + Send>(self, i: I, f: F) {
            with_state(self.items(), &i, &f);
        }
        fn try_for_each<E: Send, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
            for r in run_all(self.items(), |x| f(x)) {
                r?;
            }
            Ok(())
        }
        fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
            Par {
                items: run_all(self.items(), |x| {
                    f(&x);
                    x
                }),
            }
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<Self::Item> {
            Par { items: run_all(self.items(), |x| if f(&x) { Some(x) } else { None }).into_iter().flatten().collect() }
        }
        fn filter_map<U: Send, F: Fn(Self::Item) -> Option<U> + Sync + Send>(self, f: F) -> Par<U> {
            Par { items: run_all(self.items(), |x| f(x)).into_iter().flatten().collect() }
        }
        fn flat_map<P: IntoParallelIterator, F: Fn(Self::Item) -> P + Sync + Send>(self, f: F) -> Par<P::Item> {
            Par { items: run_all(self.items(), |x| f(x).into_par_iter().items()).into_iter().flatten().collect() }
        }
        fn flat_map_iter<P: IntoIterator, F: Fn(Self::Item) -> P + Sync + Send>(self, f: F) -> Par<P::Item>
        where
            P::Item: Send,
        {
            Par { items: run_all(self.items(), |x| f(x).into_iter().collect::<Vec<_>>()).into_iter().flatten().collect() }
        }
        fn flatten(self) -> Par<<Self::Item as IntoParallelIterator>::Item>
        where
            Self::Item: IntoParallelIterator,
        {
            Par { items: self.items().into_iter().flat_map(|x| x.into_par_iter().items()).collect() }
        }
        fn flatten_iter(self) -> Par<<Self::Item as IntoIterator>::Item>
        where
            Self::Item: IntoIterator,
            <Self::Item as IntoIterator>::Item: Send,
        {
            Par { items: self.items().into_iter().flatten().collect() }
        }
        fn cloned<'a, T: 'a + Clone + Send + Sync>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Par { items: self.items().into_iter().cloned().collect() }
        }
        fn copied<'a, T: 'a + Copy + Send + Sync>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Par { items: self.items().into_iter().copied().collect() }
        }
        fn chain<C: IntoParallelIterator<Item = Self::Item>>(self, c: C) -> Par<Self::Item> {
            let mut v = self.items();
            v.extend(c.into_par_iter().items());
            Par { items: v }
        }
        fn reduce<I: Fn() -> Self::Item + Sync + Send, O: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, id: I, op: O) -> Self::Item {
            fold_parts(self.items(), &id, &op)
        }
        fn reduce_with<O: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, op: O) -> Option<Self::Item> {
            let v = self.items();
            let n = v.len();
            if n == 0 {
                return None;
            }
            let k = if n >= 2 { sched(n.min(4)) } else { 0 };
            let mut v = v;
            if k == 0 {
                return v.into_iter().reduce(|a, b| op(a, b));
            }
            let r = v.split_off(k);
            let l = v.into_iter().reduce(|a, b| op(a, b)).unwrap();
            let r = r.into_iter().reduce(|a, b| op(a, b)).unwrap();
            Some(op(l, r))
        }
        fn fold<T: Send, I: Fn() -> T + Sync + Send, F: Fn(T, Self::Item) -> T + Sync + Send>(self, id: I, f: F) -> Par<T> {
            let v = self.items();
            let n = v.len();
            let k = if n >= 2 { sched(n.min(4)) } else { 0 };
            let mut v = v;
            if k == 0 {
                return Par { items: vec![v.into_iter().fold(id(), |a, b| f(a, b))] };
            }
            let r = v.split_off(k);
            Par { items: vec![v.into_iter().fold(id(), |a, b| f(a, b)), r.into_iter().fold(id(), |a, b| f(a, b))] }
        }
        fn fold_with<T: Send + Clone, F: Fn(T, Self::Item) -> T + Sync + Send>(self, id: T, f: F) -> Par<T> {
            let mut v = self.items();
            let n = v.len();
            let k = if n >= 2 { sched(n.min(4)) } else { 0 };
            if k == 0 {
                return Par { items: vec![v.into_iter().fold(id, |a, b| f(a, b))] };
            }
            let r = v.split_off(k);
            Par { items: vec![v.into_iter().fold(id.clone(), |a, b| f(a, b)), r.into_iter().fold(id, |a, b| f(a, b))] }
        }
        fn sum<S: Send + std::iter::Sum<Self::Item> + std::iter::Sum<S>>(self) -> S {
            let mut v = self.items();
            let n = v.len();
            let k = if n >= 2 { sched(n.min(4)) } else { 0 };
            if k == 0 {
                return v.into_iter().sum();
            }
            let r = v.split_off(k);
            let a: S = v.into_iter().sum();
            let b: S = r.into_iter().sum();
            vec![a, b].into_iter().sum()
        }
        fn product<S: Send + std::iter::Product<Self::Item> + std::iter::Product<S>>(self) -> S {
            self.items().into_iter().product()
        }
        fn count(self) -> usize {
            self.items().len()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.items().into_iter().min()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.items().into_iter().max()
        }
        fn min_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.items().into_iter().min_by(|a, b| f(a, b))
        }
        fn max_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.items().into_iter().max_by(|a, b| f(a, b))
        }
        fn min_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.items().into_iter().min_by_key(|a| f(a))
        }
        fn max_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.items().into_iter().max_by_key(|a| f(a))
        }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.items().into_iter().any(|x| f(x))
        }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            self.items().into_iter().all(|x| f(x))
        }
        fn find_any<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
            let mut m: Vec<Self::Item> = self.items().into_iter().filter(|x| f(x)).collect();
            if m.is_empty() {
                return None;
            }
            let k = sched(m.len().min(4));
            Some(m.swap_remove(k))
        }
        fn find_first<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.items().into_iter().find(|x| f(x))
        }
        fn find_last<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.items().into_iter().rev().find(|x| f(x))
        }
        fn find_map_first<U: Send, F: Fn(Self::Item) -> Option<U> + Sync + Send>(self, f: F) -> Option<U> {
            self.items().into_iter().find_map(|x| f(x))
        }
        fn find_map_any<U: Send, F: Fn(Self::Item) -> Option<U> + Sync + Send>(self, f: F) -> Option<U> {
            let mut m: Vec<U> = self.items().into_iter().filter_map(|x| f(x)).collect();
            if m.is_empty() {
                return None;
            }
            let k = sched(m.len().min(4));
            Some(m.swap_remove(k))
        }
        fn partition<A, B, F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> (A, B)
        where
            A: Default + Extend<Self::Item>,
            B: Default + Extend<Self::Item>,
        {
            let (mut a, mut b) = (A::default(), B::default());
            for x in self.items() {
                if f(&x) {
                    a.extend(Some(x))
                } else {
                    b.extend(Some(x))
                }
            }
            (a, b)
        }
        fn unzip<A, B, FA, FB>(self) -> (FA, FB)
        where
            Self: ParallelIterator<Item = (A, B)>,
            FA: Default + Extend<A>,
            FB: Default + Extend<B>,
        {
            self.items().into_iter().unzip()
        }
        fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
            C::from_vec(self.items())
        }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
            *v = self.items();
        }
        fn opt_len(&self) -> Option<usize> {
            None
        }
        fn update<F: Fn(&mut Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
            Par {
                items: run_all(self.items(), |mut x| {
                    f(&mut x);
                    x
                }),
            }
        }
        fn try_reduce<T: Send, E: Send, I: Fn() -> T + Sync + Send, O: Fn(T, T) -> Result<T, E> + Sync + Send>(self, id: I, op: O) -> Result<T, E>
        where
            Self: ParallelIterator<Item = Result<T, E>>,
        {
            let mut a = id();
            for x in self.items() {
                a = op(a, x?)?;
            }
            Ok(a)
        }
        fn while_some<T: Send>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = Option<T>>,
        {
            Par { items: self.items().into_iter().map_while(|x| x).collect() }
        }
        fn panic_fuse(self) -> Self {
            self
        }
    }
    impl<T: Send> ParallelIterator for Par<T> {
        type Item = T;
        fn items(self) -> Vec<T> {
            self.items
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn enumerate(self) -> Par<(usize, Self::Item)> {
            Par { items: self.items().into_iter().enumerate().collect() }
        }
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            Par { items: self.items().into_iter().zip(z.into_par_iter().items()).collect() }
        }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
            let (a, b) = (self.items(), z.into_par_iter().items());
            assert_eq!(a.len(), b.len());
            Par { items: a.into_iter().zip(b).collect() }
        }
        fn rev(self) -> Par<Self::Item> {
            Par { items: self.items().into_iter().rev().collect() }
        }
        fn take(self, n: usize) -> Par<Self::Item> {
            Par { items: self.items().into_iter().take(n).collect() }
        }
        fn skip(self, n: usize) -> Par<Self::Item> {
            Par { items: self.items().into_iter().skip(n).collect() }
        }
        fn step_by(self, n: usize) -> Par<Self::Item> {
            Par { items: self.items().into_iter().step_by(n).collect() }
        }
        fn chunks(self, n: usize) -> Par<Vec<Self::Item>> {
            let mut out = vec![];
            let mut cur = vec![];
            for x in self.items() {
                cur.push(x);
                if cur.len() == n {
                    out.push(std::mem::take(&mut cur));
                }
            }
            if !cur.is_empty() {
                out.push(cur);
            }
            Par { items: out }
        }
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn with_max_len(self, _: usize) -> Self {
            self
        }
        fn interleave<Z: IntoParallelIterator<Item = Self::Item>>(self, z: Z) -> Par<Self::Item> {
            let (mut a, mut b) = (self.items().into_iter(), z.into_par_iter().items().into_iter());
            let mut out = vec![];
            loop {
                let (x, y) = (a.next(), b.next());
                if x.is_none() && y.is_none() {
                    return Par { items: out };
                }
                out.extend(x);
                out.extend(y);
            }
        }
        fn position_last<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<usize> {
            let v: Vec<bool> = self.items().into_iter().map(|x| f(x)).collect();
            v.into_iter().rposition(|x| x)
        }
        fn position_any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<usize> {
            let m: Vec<usize> = self.items().into_iter().enumerate().filter_map(|(i, x)| if f(x) { Some(i) } else { None }).collect();
            if m.is_empty() {
                return None;
            }
            Some(m[sched(m.len().min(4))])
        }
        fn position_first<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<usize> {
            self.items().into_iter().position(|x| f(x))
        }
    }
    impl<T: Send> IndexedParallelIterator for Par<T> {}
    impl<T: Send> Par<T> {
        pub fn len(&self) -> usize {
            self.items.len()
        }
    }
}
pub mod slice {
    use super::iter::Par;
    pub trait ParallelSlice<T: Sync> {
        fn as_par(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Par<&[T]> {
            Par { items: self.as_par().chunks(n).collect() }
        }
        fn par_chunks_exact(&self, n: usize) -> Par<&[T]> {
            Par { items: self.as_par().chunks_exact(n).collect() }
        }
        fn par_rchunks(&self, n: usize) -> Par<&[T]> {
            Par { items: self.as_par().rchunks(n).collect() }
        }
        fn par_split<P: Fn(&T) -> bool + Sync + Send>(&self, p: P) -> Par<&[T]> {
            Par { items: self.as_par().split(|x| p(x)).collect() }
        }
        fn par_windows(&self, n: usize) -> Par<&[T]> {
            Par { items: self.as_par().windows(n).collect() }
        }
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn as_par(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T: Send> {
        fn as_par_mut(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par { items: self.as_par_mut().chunks_mut(n).collect() }
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par { items: self.as_par_mut().chunks_exact_mut(n).collect() }
        }
        fn par_rchunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par { items: self.as_par_mut().rchunks_mut(n).collect() }
        }
        fn par_sort_by_cached_key<K: Ord + Send + Sync, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
            self.as_par_mut().sort_by_cached_key(|a| f(a))
        }
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.as_par_mut().sort()
        }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
            self.as_par_mut().sort_by(|a, b| f(a, b))
        }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
            self.as_par_mut().sort_by_key(|a| f(a))
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.as_par_mut().sort_unstable()
        }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
            self.as_par_mut().sort_unstable_by(|a, b| f(a, b))
        }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
            self.as_par_mut().sort_unstable_by_key(|a| f(a))
        }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn as_par_mut(&mut self) -> &mut [T] {
            self
        }
    }
}
pub mod prelude {
    pub use crate::iter::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge,
        ParallelDrainRange, ParallelExtend, ParallelIterator,
    };
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}
