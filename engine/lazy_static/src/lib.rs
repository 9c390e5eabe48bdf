//! Stand-in for lazy_static: every explored path starts with uninitialised statics, as a fresh
//! process does, so that what one path leaves in a cache is not seen by another.
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
#[doc(hidden)]
pub use core::ops::Deref as __Deref;
#[doc(hidden)]
pub use std::sync::atomic::AtomicU8 as __Key;

struct State {
    epoch: u64,
    values: HashMap<usize, Box<dyn Any>>,
}
thread_local! {
    static STATE: RefCell<State> = RefCell::new(State { epoch: 0, values: HashMap::new() });
}

#[doc(hidden)]
pub fn __get<T: Any>(key: &'static __Key, init: fn() -> T) -> &'static T {
    let key = key as *const __Key as usize;
    let now = symrt::path_number();
    let find = || {
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            if s.epoch != now {
                s.epoch = now;
                let old = std::mem::take(&mut s.values);
                drop(s);
                drop(old);
                return None;
            }
            s.values.get(&key).map(|v| v.downcast_ref::<T>().unwrap() as *const T)
        })
    };
    let p = match find() {
        Some(p) => p,
        None => {
            let v = Box::new(init());
            let p = &*v as *const T;
            STATE.with(|s| s.borrow_mut().values.insert(key, v));
            p
        }
    };
    // the box is not moved out of and lives until this thread starts another path
    unsafe { &*p }
}

pub trait LazyStatic {
    #[doc(hidden)]
    fn initialize(lazy: &Self);
}
pub fn initialize<T: LazyStatic>(lazy: &T) {
    LazyStatic::initialize(lazy);
}

#[macro_export]
macro_rules! lazy_static {
    ($(#[$attr:meta])* static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $crate::__lazy_static_one!($(#[$attr])* () static ref $N : $T = $e);
        $crate::lazy_static!($($t)*);
    };
    ($(#[$attr:meta])* pub static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $crate::__lazy_static_one!($(#[$attr])* (pub) static ref $N : $T = $e);
        $crate::lazy_static!($($t)*);
    };
    ($(#[$attr:meta])* pub ($($vis:tt)+) static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $crate::__lazy_static_one!($(#[$attr])* (pub ($($vis)+)) static ref $N : $T = $e);
        $crate::lazy_static!($($t)*);
    };
    () => ()
}
#[doc(hidden)]
#[macro_export]
macro_rules! __lazy_static_one {
    ($(#[$attr:meta])* ($($vis:tt)*) static ref $N:ident : $T:ty = $e:expr) => {
        #[allow(missing_copy_implementations)]
        #[allow(non_camel_case_types)]
        #[allow(dead_code)]
        $(#[$attr])*
        $($vis)* struct $N { __private_field: () }
        #[doc(hidden)]
        $($vis)* static $N: $N = $N { __private_field: () };
        impl $crate::__Deref for $N {
            type Target = $T;
            fn deref(&self) -> &$T {
                fn __static_ref_initialize() -> $T { $e }
                static KEY: $crate::__Key = $crate::__Key::new(0);
                $crate::__get::<$T>(&KEY, __static_ref_initialize)
            }
        }
        impl $crate::LazyStatic for $N {
            fn initialize(lazy: &Self) {
                let _ = &**lazy;
            }
        }
    };
}
