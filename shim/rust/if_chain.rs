#[macro_export]
macro_rules! if_chain {
    (@i $b:block ; then $t:block) => { $t };
    (if $c:expr; $($r:tt)*) => { if $c { $crate::if_chain!($($r)*) } };
    (then $t:block) => { $t };
}
