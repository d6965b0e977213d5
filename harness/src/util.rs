//! Shared helpers: the check primitives and independent little-endian bit extraction used by the oracles.
extern "C" {
    fn vp_check(c: bool, id: u32);
    fn vp_assume(c: bool);
    fn vp_cover(id: u32);
}

#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { vp_check(c, id) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { vp_cover(id) }
}

/// the condition must hold on every path that reaches this point
#[macro_export]
macro_rules! ck {
    ($c:expr, $n:expr) => {{
        let c: bool = $c;
        #[cfg(feature = "replay")]
        if !c {
            $crate::say(format!("{}:{}: {} does not hold: {}", file!(), line!(), $n, stringify!($c)));
        }
        $crate::util::check(c, line!());
    }};
}

/// both sides must be equal on every path that reaches this point
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $n:expr) => {{
        let (a, b) = (&$a, &$b);
        let c: bool = *a == *b;
        #[cfg(feature = "replay")]
        if !c {
            $crate::say(format!("{}:{}: {}: got {:?}, expected {:?}", file!(), line!(), $n, a, b));
        }
        $crate::util::check(c, line!());
    }};
}

/// some input must reach this point (vacuity guard)
#[macro_export]
macro_rules! reach {
    () => {
        $crate::util::cover(line!())
    };
}

pub trait Bits {
    fn of(x: u64) -> Self;
}
impl Bits for bool {
    #[inline(always)]
    fn of(x: u64) -> Self {
        x & 1 != 0
    }
}
impl Bits for u8 {
    #[inline(always)]
    fn of(x: u64) -> Self {
        x as u8
    }
}
impl Bits for u16 {
    #[inline(always)]
    fn of(x: u64) -> Self {
        x as u16
    }
}
impl Bits for u32 {
    #[inline(always)]
    fn of(x: u64) -> Self {
        x as u32
    }
}
impl Bits for u64 {
    #[inline(always)]
    fn of(x: u64) -> Self {
        x
    }
}

/// little-endian register of n bytes at byte offset o
#[inline(always)]
fn le(s: &[u8], o: usize, n: usize) -> u64 {
    let mut r = 0;
    let mut i = 0;
    while i < n {
        r |= (s[o + i] as u64) << (8 * i);
        i += 1;
    }
    r
}
#[inline(always)]
pub fn r8(s: &[u8], o: usize) -> u64 {
    le(s, o, 1)
}
#[inline(always)]
pub fn r16(s: &[u8], o: usize) -> u64 {
    le(s, o, 2)
}
#[inline(always)]
pub fn r24(s: &[u8], o: usize) -> u64 {
    le(s, o, 3)
}
#[inline(always)]
pub fn r32(s: &[u8], o: usize) -> u64 {
    le(s, o, 4)
}
#[inline(always)]
pub fn r64(s: &[u8], o: usize) -> u64 {
    le(s, o, 8)
}
/// bits lo .. lo+n of register value w
#[inline(always)]
pub fn f<T: Bits>(w: u64, lo: u32, n: u32) -> T {
    T::of((w >> lo) & (((1u128 << n) - 1) as u64))
}
/// single bit
#[inline(always)]
pub fn bit(w: u64, lo: u32) -> bool {
    (w >> lo) & 1 == 1
}

/// the same bytes of the input (a borrowed result must point at them)
#[inline(always)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (a.is_empty() || a.as_ptr() == b.as_ptr())
}

/// harness: `<ty>::try_from(bytes)` succeeds exactly when n bytes are present and then equals the oracle's value
#[macro_export]
macro_rules! decodes {
    ($h:ident, $ty:ty, $n:expr, $oracle:path) => {
        #[no_mangle]
        pub fn $h(s: &[u8]) {
            #[inline(never)]
            fn real(s: &[u8]) -> Option<$ty> {
                <$ty>::try_from(s).ok()
            }
            let r = real(s);
            eq!(r.is_some(), s.len() >= $n, "decodes exactly when all its registers are present");
            if let Some(v) = r {
                reach!();
                eq!(v, $oracle(&s[..$n]), "decoded value");
            }
        }
    };
}

/// oracle for one register: `regs!(w, T { a@3, b@4:2, c@6:3 => conv })` - bool at bit 3, integer of 2 bits at 4, conv(3 bits at 6)
#[macro_export]
macro_rules! regs {
    (@v $w:expr, $lo:literal) => { $crate::util::bit($w, $lo) };
    (@v $w:expr, $lo:literal, $n:literal) => { $crate::util::f($w, $lo, $n) };
    (@v $w:expr, $lo:literal, $n:literal, $c:expr) => { ($c)($crate::util::f($w, $lo, $n)) };
    ($w:expr, $t:ident { $($x:ident @ $lo:literal $(: $n:literal $(=> $c:expr)?)?),* $(,)? }) => {{
        let w: u64 = $w;
        $t { $($x: regs!(@v w, $lo $(, $n $(, $c)?)?)),* }
    }};
}

/// oracle for an encoded field: table from code to variant
#[macro_export]
macro_rules! table {
    ($n:ident -> $t:ident { $($b:tt)* }) => {
        pub fn $n(v: u8) -> $t {
            #[allow(unused_imports)]
            use $t::*;
            match v { $($b)* }
        }
    };
}
/// `T::from(code)` is the table's variant and encodes back to the same code, for every code of a field of n bits
#[macro_export]
macro_rules! codes {
    ($s:expr; $($t:ident, $n:literal, $x:path);* $(;)?) => {
        if let Some(&b) = $s.first() {
            $( {
                #[inline(never)]
                fn dec(v: u8) -> $t {
                    $t::from(v)
                }
                #[inline(never)]
                fn enc(v: $t) -> u8 {
                    u8::from(v)
                }
                let v = b & ((1u16 << $n) - 1) as u8;
                eq!(dec(v), $x(v), concat!(stringify!($t), " code"));
                eq!(enc(dec(v)), v, concat!(stringify!($t), " round trip"));
            } )*
            reach!();
        }
    };
}
