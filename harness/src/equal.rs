//! Equality of values that carry iterators: what compares equal has the same entries left, whatever has been taken already, and
//! equal bytes give equal values.
use pcics::capabilities::enhanced_allocation::EnhancedAllocationEntries;
use pcics::extended_capabilities::*;
use access_control_services::EgressControlVectors;
use multifunction_virtual_channel::FunctionArbitrationTable;
use protocol_multiplexing::PmuxProtocolArray;
use resizable_bar::ResizableBar;
use root_complex_link_declaration::LinkEntries;
use virtual_channel::{PortArbitrationTable, VcArbitrationTable};

/// a, b: fresh; taken: entries taken from each before the comparison; most: upper bound of the number of entries
#[inline(always)]
fn agree<I>(a: &I, b: &I, taken: (usize, usize), most: usize, same_bytes: bool)
where
    I: Iterator + Clone + PartialEq,
    I::Item: PartialEq,
{
    let (mut x, mut y) = (a.clone(), b.clone());
    ck!(!same_bytes || x == y, "equal bytes give equal values");
    let mut i = 0;
    while i < taken.0 {
        x.next();
        i += 1;
    }
    let mut i = 0;
    while i < taken.1 {
        y.next();
        i += 1;
    }
    let e = x == y;
    ck!(e == (y == x), "equality is symmetric");
    ck!(x == x.clone(), "a copy is equal");
    if e {
        reach!();
    } else {
        reach!();
    }
    let mut i = 0;
    while i <= most {
        let (p, q) = (x.next(), y.next());
        ck!(!e || p == q, "what compares equal has the same entries");
        if p.is_none() && q.is_none() {
            break;
        }
        i += 1;
    }
}

/// s = entries taken from the one and the other, then two runs of bytes of the same length
#[inline(always)]
fn halves(s: &[u8], least: usize) -> Option<((usize, usize), &[u8], &[u8])> {
    let (&k, d) = s.split_first()?;
    if d.len() % 2 != 0 || d.len() < 2 * least {
        return None;
    }
    let (a, b) = d.split_at(d.len() / 2);
    Some((((k & 3) as usize, (k >> 4 & 3) as usize), a, b))
}
#[inline(always)]
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < a.len() {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}

#[no_mangle]
pub fn h_eq_port(s: &[u8]) {
    let Some((k, a, b)) = halves(s, 1) else { return };
    let w = 1 << (s[0] >> 2 & 3);
    agree(&PortArbitrationTable::new(a, w), &PortArbitrationTable::new(b, w), k, a.len() * 8, same(a, b));
}
#[no_mangle]
pub fn h_eq_function(s: &[u8]) {
    let Some((k, a, b)) = halves(s, 1) else { return };
    let w = 1 << (s[0] >> 2 & 3);
    agree(&FunctionArbitrationTable::new(a, w), &FunctionArbitrationTable::new(b, w), k, a.len() * 8, same(a, b));
}
#[no_mangle]
pub fn h_eq_vc(s: &[u8]) {
    let Some((k, a, b)) = halves(s, 1) else { return };
    agree(&VcArbitrationTable::new(a), &VcArbitrationTable::new(b), k, a.len() * 2, same(a, b));
}
#[no_mangle]
pub fn h_eq_egress(s: &[u8]) {
    let Some((k, a, b)) = halves(s, 2) else { return };
    let (n, m) = ((a[0] & 7) as usize, (b[0] & 7) as usize);
    agree(&EgressControlVectors::new(&a[1..], n), &EgressControlVectors::new(&b[1..], m), k, 8, same(a, b));
}
#[no_mangle]
pub fn h_eq_rebar(s: &[u8]) {
    let Some((k, a, b)) = halves(s, 12) else { return };
    let (Ok(x), Ok(y)) = (ResizableBar::try_from(a), ResizableBar::try_from(b)) else { return };
    agree(&x, &y, k, 6, same(a, b));
}
#[no_mangle]
pub fn h_eq_pmux(s: &[u8]) {
    let Some((k, a, b)) = halves(s, 1) else { return };
    agree(&PmuxProtocolArray::new(a), &PmuxProtocolArray::new(b), k, a.len() / 4 + 1, same(a, b));
}
#[no_mangle]
pub fn h_eq_links(s: &[u8]) {
    let Some((k, a, b)) = halves(s, 2) else { return };
    agree(&LinkEntries::new(&a[1..], a[0] & 3), &LinkEntries::new(&b[1..], b[0] & 3), k, 3, same(a, b));
}
#[no_mangle]
pub fn h_eq_ea(s: &[u8]) {
    let Some((k, a, b)) = halves(s, 2) else { return };
    agree(&EnhancedAllocationEntries::new(&a[1..], a[0] & 3), &EnhancedAllocationEntries::new(&b[1..], b[0] & 3), k, 4, same(a, b));
}
