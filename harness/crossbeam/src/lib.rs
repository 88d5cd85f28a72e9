//! crossbeam's channel interface on the controlled scheduler's channels.
pub mod channel {
    pub use crate::select;
    pub use mcstd::sched::chan::*;
}

/// `recv` arms and `default`, as in crossbeam.
#[macro_export]
macro_rules! select {
    (@arms [$(($r:expr, $p:pat, $b:expr))*] [$($d:expr)?]) => {
        {
            #[allow(unused_assignments, unused_mut)]
            let mut with_default = false;
            $( $crate::select!(@yes with_default $d); )?
            let chosen = $crate::channel::select(&[$(&$r as &dyn $crate::channel::Ready),*], with_default);
            $crate::select!(@pick chosen 0usize; [$(($r, $p, $b))*] [$($d)?])
        }
    };
    (@yes $w:ident $d:expr) => { $w = true };
    (@pick $c:ident $n:expr; [] [$d:expr]) => { $d };
    (@pick $c:ident $n:expr; [] []) => { unreachable!() };
    (@pick $c:ident $n:expr; [($r:expr, $p:pat, $b:expr) $($rest:tt)*] [$($d:expr)?]) => {
        if $c == Some($n) {
            let $p = $r.take();
            $b
        } else {
            $crate::select!(@pick $c ($n + 1usize); [$($rest)*] [$($d)?])
        }
    };
    (@parse [$($a:tt)*] [$($d:tt)*]) => { $crate::select!(@arms [$($a)*] [$($d)*]) };
    (@parse [$($a:tt)*] [$($d:tt)*] , $($rest:tt)*) => { $crate::select!(@parse [$($a)*] [$($d)*] $($rest)*) };
    (@parse [$($a:tt)*] [$($d:tt)*] recv($r:expr) -> $p:pat => $b:block $($rest:tt)*) => {
        $crate::select!(@parse [$($a)* ($r, $p, $b)] [$($d)*] $($rest)*)
    };
    (@parse [$($a:tt)*] [$($d:tt)*] recv($r:expr) -> $p:pat => $b:expr, $($rest:tt)*) => {
        $crate::select!(@parse [$($a)* ($r, $p, $b)] [$($d)*] $($rest)*)
    };
    (@parse [$($a:tt)*] [$($d:tt)*] recv($r:expr) -> $p:pat => $b:expr) => {
        $crate::select!(@parse [$($a)* ($r, $p, $b)] [$($d)*])
    };
    (@parse [$($a:tt)*] [] default => $b:block $($rest:tt)*) => { $crate::select!(@parse [$($a)*] [$b] $($rest)*) };
    (@parse [$($a:tt)*] [] default => $b:expr, $($rest:tt)*) => { $crate::select!(@parse [$($a)*] [$b] $($rest)*) };
    (@parse [$($a:tt)*] [] default => $b:expr) => { $crate::select!(@parse [$($a)*] [$b]) };
    (recv $($rest:tt)*) => { $crate::select!(@parse [] [] recv $($rest)*) };
    (default $($rest:tt)*) => { $crate::select!(@parse [] [] default $($rest)*) };
}
