//! `std` for sources compiled under the schedule explorer: locks, atomics and threads hand control to shuttle's scheduler before
//! each operation. Sequentially consistent. Outside an exploration (`ACTIVE` unset) nothing is scheduled.
pub use std::*;

/// `eprintln!`, unheard.
#[macro_export]
macro_rules! quiet {
    ($($t:tt)*) => {{ let _ = format!($($t)*); }};
}

pub mod sched {
    use std::{
        cell::Cell,
        sync::atomic::{AtomicU64, Ordering::Relaxed},
    };
    thread_local! { pub static ACTIVE: Cell<bool> = const { Cell::new(false) }; }
    /// Counts executions; a static lock returns to its first state when it is first used in a new one.
    pub static EPOCH: AtomicU64 = AtomicU64::new(1);
    pub static POINTS: AtomicU64 = AtomicU64::new(0);

    pub fn active() -> bool {
        ACTIVE.with(|a| a.get())
    }
    /// A place where another thread may run.
    pub fn point() {
        if active() && !std::thread::panicking() {
            POINTS.fetch_add(1, Relaxed);
            shuttle_engine::runtime::thread::switch();
        }
    }
    pub fn begin() {
        EPOCH.fetch_add(1, Relaxed);
        ACTIVE.with(|a| a.set(true));
    }
    pub fn end() {
        ACTIVE.with(|a| a.set(false));
    }
}

pub mod lock {
    //! One readers-writer lock serves both kinds.
    use super::sched;
    use std::{
        cell::UnsafeCell,
        fmt,
        mem::MaybeUninit,
        ops::{Deref, DerefMut},
        ptr,
        sync::atomic::Ordering::Relaxed,
    };

    struct Waiters {
        epoch: u64,
        writer: bool,
        readers: usize,
        parked: Vec<shuttle::thread::Thread>,
    }
    pub struct Raw<T> {
        // only ever touched by the running thread of one exploration, or under `gate`
        gate: std::sync::Mutex<Waiters>,
        first: UnsafeCell<MaybeUninit<T>>,
        value: UnsafeCell<T>,
    }
    unsafe impl<T: Send> Send for Raw<T> {}
    unsafe impl<T: Send> Sync for Raw<T> {}
    impl<T> Raw<T> {
        pub const fn new(value: T) -> Self {
            Self {
                gate: std::sync::Mutex::new(Waiters { epoch: 0, writer: false, readers: 0, parked: Vec::new() }),
                first: UnsafeCell::new(MaybeUninit::uninit()),
                value: UnsafeCell::new(value),
            }
        }
        fn gate(&self) -> std::sync::MutexGuard<'_, Waiters> {
            let mut g = self.gate.lock().unwrap_or_else(|e| e.into_inner());
            let now = sched::EPOCH.load(Relaxed);
            if sched::active() && g.epoch != now {
                // a static: its first state holds no heap memory that a later execution could free
                unsafe {
                    if g.epoch == 0 {
                        ptr::copy_nonoverlapping(self.value.get(), (*self.first.get()).as_mut_ptr(), 1);
                    } else {
                        ptr::copy_nonoverlapping((*self.first.get()).as_ptr(), self.value.get(), 1);
                    }
                }
                *g = Waiters { epoch: now, writer: false, readers: 0, parked: Vec::new() };
            }
            g
        }
        fn try_get(&self, write: bool) -> bool {
            let mut g = self.gate();
            if g.writer || (write && g.readers > 0) {
                return false;
            }
            if write {
                g.writer = true;
            } else {
                g.readers += 1;
            }
            true
        }
        pub fn get(&self, write: bool) -> Guard<'_, T> {
            sched::point();
            while !self.try_get(write) {
                if !sched::active() {
                    panic!("deadlock: a lock is taken twice by one thread");
                }
                self.gate().parked.push(shuttle::thread::current());
                shuttle::thread::park();
            }
            Guard { raw: self, write }
        }
        pub fn try_lock(&self, write: bool) -> Option<Guard<'_, T>> {
            sched::point();
            self.try_get(write).then_some(Guard { raw: self, write })
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.value.get_mut()
        }
        pub fn into_inner(self) -> T {
            self.value.into_inner()
        }
    }
    impl<T> fmt::Debug for Raw<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("lock")
        }
    }
    pub struct Guard<'a, T> {
        raw: &'a Raw<T>,
        write: bool,
    }
    impl<T> Deref for Guard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.raw.value.get() }
        }
    }
    impl<T> DerefMut for Guard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            assert!(self.write);
            unsafe { &mut *self.raw.value.get() }
        }
    }
    impl<T: fmt::Debug> fmt::Debug for Guard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T> Drop for Guard<'_, T> {
        fn drop(&mut self) {
            let parked = {
                let mut g = self.raw.gate();
                if self.write {
                    g.writer = false;
                } else {
                    g.readers = g.readers.saturating_sub(1);
                }
                std::mem::take(&mut g.parked)
            };
            if sched::active() && !std::thread::panicking() {
                parked.into_iter().for_each(|t| t.unpark());
            }
        }
    }
}

pub mod thread {
    pub use shuttle::thread::*;
}

pub mod sync {
    pub use std::sync::*;
    pub type MutexGuard<'a, T> = super::lock::Guard<'a, T>;
    pub type RwLockReadGuard<'a, T> = super::lock::Guard<'a, T>;
    pub type RwLockWriteGuard<'a, T> = super::lock::Guard<'a, T>;
    #[derive(Debug)]
    pub struct Mutex<T>(super::lock::Raw<T>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Self(super::lock::Raw::new(t))
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            Ok(self.0.get(true))
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.0.into_inner())
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    #[derive(Debug)]
    pub struct RwLock<T>(super::lock::Raw<T>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            Self(super::lock::Raw::new(t))
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            Ok(self.0.get(false))
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            Ok(self.0.get(true))
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }

    /// A static one is empty again in every execution.
    #[derive(Debug)]
    pub struct OnceLock<T>(super::lock::Raw<Option<T>>);
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            Self(super::lock::Raw::new(None))
        }
        pub fn get(&self) -> Option<&T> {
            let g = self.0.get(false);
            let v: *const Option<T> = &*g;
            // set once, then never changed while it can be reached
            unsafe { (*v).as_ref() }
        }
        pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
            if self.get().is_none() {
                let mut g = self.0.get(true);
                if g.is_none() {
                    *g = Some(f());
                }
            }
            self.get().expect("set")
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            let mut g = self.0.get(true);
            if g.is_some() {
                return Err(t);
            }
            *g = Some(t);
            Ok(())
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }

    pub mod atomic {
        use crate::sched::point;
        pub use std::sync::atomic::Ordering;
        macro_rules! atomic {
            ($n:ident, $t:ty) => {
                #[derive(Debug, Default)]
                pub struct $n(std::sync::atomic::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        Self(std::sync::atomic::$n::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        point();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        point();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        point();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, o, p)
                    }
                    pub fn fetch_update(&self, o: Ordering, p: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                        point();
                        self.0.fetch_update(o, p, f)
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                }
            };
        }
        macro_rules! number {
            ($($n:ident $t:ty),*) => { $(
                atomic!($n, $t);
                impl $n {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_sub(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_min(v, o) }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_and(v, o) }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_or(v, o) }
                }
            )* };
        }
        number!(AtomicUsize usize, AtomicU64 u64, AtomicU32 u32, AtomicI64 i64);
        atomic!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
                point();
                self.0.fetch_or(v, o)
            }
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
                point();
                self.0.fetch_and(v, o)
            }
        }
    }
}

pub mod net {
    //! Sockets of a small machine: `bind` of port 0 gives each of a few ports several times over, of another port succeeds unless it is bound.
    pub use std::net::*;
    use std::{
        io::{Error, ErrorKind, Result},
        sync::Mutex,
    };
    pub struct Kernel {
        pub bound: Vec<u16>,
        pub calls: u16,
        pub first: u16,
        pub repeat: u16,
        pub refuse: Vec<u16>,
    }
    pub static KERNEL: Mutex<Kernel> = Mutex::new(Kernel { bound: vec![], calls: 0, first: 40000, repeat: 3, refuse: vec![] });
    fn bind(port: u16) -> Result<u16> {
        if KERNEL.lock().unwrap().refuse.contains(&port) {
            return Err(Error::from(ErrorKind::AddrInUse));
        }
        crate::sched::point();
        let mut k = KERNEL.lock().unwrap();
        let port = if port == 0 {
            let mut p = k.first + k.calls / k.repeat;
            k.calls += 1;
            while k.bound.contains(&p) {
                p += 1;
            }
            p
        } else {
            port
        };
        if k.bound.contains(&port) {
            return Err(Error::from(ErrorKind::AddrInUse));
        }
        k.bound.push(port);
        Ok(port)
    }
    macro_rules! socket {
        ($n:ident) => {
            #[derive(Debug)]
            pub struct $n(u16);
            impl $n {
                pub fn bind<A: ToSocketAddrs>(a: A) -> Result<Self> {
                    let a = a.to_socket_addrs()?.next().ok_or(Error::from(ErrorKind::InvalidInput))?;
                    bind(a.port()).map(Self)
                }
                pub fn local_addr(&self) -> Result<SocketAddr> {
                    Ok(SocketAddr::from(([127, 0, 0, 1], self.0)))
                }
            }
            impl Drop for $n {
                fn drop(&mut self) {
                    KERNEL.lock().unwrap_or_else(|e| e.into_inner()).bound.retain(|p| *p != self.0);
                }
            }
        };
    }
    socket!(TcpListener);
    socket!(UdpSocket);
}
