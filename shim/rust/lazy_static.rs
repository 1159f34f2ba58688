#[macro_export]
macro_rules! lazy_static {
    () => {};
    (pub static ref $n:ident : $t:ty = $e:expr; $($r:tt)*) => { #[allow(non_camel_case_types)] pub struct $n { _p: () } pub static $n: $n = $n { _p: () };
        impl ::std::ops::Deref for $n { type Target = $t; fn deref(&self) -> &$t { static L: ::std::sync::OnceLock<$t> = ::std::sync::OnceLock::new(); L.get_or_init(|| $e) } } $crate::lazy_static!($($r)*); };
    (static ref $n:ident : $t:ty = $e:expr; $($r:tt)*) => { #[allow(non_camel_case_types)] struct $n { _p: () } static $n: $n = $n { _p: () };
        impl ::std::ops::Deref for $n { type Target = $t; fn deref(&self) -> &$t { static L: ::std::sync::OnceLock<$t> = ::std::sync::OnceLock::new(); L.get_or_init(|| $e) } } $crate::lazy_static!($($r)*); };
}
