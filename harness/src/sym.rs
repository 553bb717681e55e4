//! Symbolic inputs. Under Kani each value is a fresh solver variable; natively (replay) the values
//! of a solver assignment are read back in the same order from the file `$VERIF_VALUES`.

/// A primitive that can be drawn from the solver (or from a recorded assignment).
pub trait Sym: Sized {
    fn sym() -> Self;
}

#[cfg(kani)]
macro_rules! prim {
    ($($t:ty),*) => { $(impl Sym for $t { #[inline] fn sym() -> Self { kani::any() } })* };
}

#[cfg(not(kani))]
mod native {
    use std::{cell::RefCell, collections::VecDeque};
    std::thread_local! {
        pub static VALUES: RefCell<VecDeque<Vec<u8>>> = RefCell::new(load());
    }
    fn load() -> VecDeque<Vec<u8>> {
        let path = std::env::var("VERIF_VALUES").expect("VERIF_VALUES");
        let text = std::fs::read_to_string(path).expect("values file");
        text.lines()
            .filter(|l| !l.is_empty())
            .map(|l| l.split(',').map(|b| b.trim().parse().unwrap()).collect())
            .collect()
    }
    pub fn next<const N: usize>() -> [u8; N] {
        let v = VALUES.with(|q| q.borrow_mut().pop_front()).unwrap_or_else(|| vec![0; N]);
        if v.len() != N {
            println!("REPLAY-DESYNC expected {} bytes, recorded {}", N, v.len());
            std::process::exit(4);
        }
        v.try_into().unwrap()
    }
}

#[cfg(not(kani))]
macro_rules! prim {
    ($($t:ty),*) => { $(impl Sym for $t {
        fn sym() -> Self { <$t>::from_le_bytes(native::next()) }
    })* };
}
prim!(u8, u16, u32, u64, u128, usize, i64);

impl Sym for bool {
    #[inline]
    fn sym() -> Self {
        let b = u8::sym();
        assume(b < 2);
        b == 1
    }
}

/// A fresh symbolic value.
#[inline]
pub fn any<T: Sym>() -> T {
    T::sym()
}

/// A fresh symbolic value in `0..=max`.
#[inline]
pub fn upto(max: u64) -> u64 {
    let v: u64 = any();
    assume(v <= max);
    v
}

/// Restricts the inputs considered from here on.
#[inline]
pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c {
        println!("REPLAY-ASSUME-FAILED");
        std::process::exit(3);
    }
}

/// Reachability witness: a check whose witness is unreachable is vacuous and is reported as an
/// error.
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        if $c {
            println!("REPLAY-WITNESS {}", $m);
        }
    }};
}
