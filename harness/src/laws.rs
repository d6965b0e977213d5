//! Entries come out the same whichever way they are taken: one by one, by position, skipped, counted, or all at once
use crate::util::*;
use access_control_services::EgressControlVectors;
use multifunction_virtual_channel as mf;
use pcics::capabilities::enhanced_allocation::EnhancedAllocationEntries;
use pcics::extended_capabilities::*;
use pcics::header::BaseAddresses;
use pcics::{Capabilities, ExtendedCapabilities, Header};
use protocol_multiplexing::PmuxProtocolArray;
use resizable_bar::ResizableBar;
use root_complex_link_declaration::LinkEntries;
use secondary_pci_express::EqualizationControlLanes;
use virtual_channel as vc;

/// M: more than the greatest number of entries; fresh: the iterator; by: the positions asked for; taken: entries taken before; key: what identifies an entry
#[inline(always)]
fn laws<I, K, const M: usize>(fresh: impl Fn() -> I, copy: impl Fn(&I) -> I, by: usize, taken: usize, key: impl Fn(I::Item) -> K + Copy)
where
    I: Iterator,
    K: PartialEq + core::fmt::Debug,
{
    let make = || {
        let mut it = fresh();
        if taken > 0 {
            it.next();
        }
        it
    };
    let mut got: [Option<K>; M] = [const { None }; M];
    let mut n = 0;
    let mut all = make();
    while n < M {
        match all.next() {
            Some(v) => got[n] = Some(key(v)),
            None => break,
        }
        n += 1;
    }
    assume(n < M);
    reach!();
    let (least, most) = make().size_hint();
    ck!(least <= n && (most.is_none() || most >= Some(n)), "the announced number of entries");
    eq!(make().count(), n, "number of entries");
    let last = make().last().map(key);
    ck!(if n == 0 { last.is_none() } else { last == got[n - 1] }, "last entry");
    let mut k = 0;
    while k < by && k + 1 < M {
        let mut x = make();
        ck!(x.nth(k).map(key) == got[k], "entry by position");
        ck!(x.next().map(key) == got[k + 1], "entry after one by position");
        k += 1;
    }
    if by > 3 {
        ck!(make().nth(usize::MAX).is_none() && make().nth(n).is_none(), "no entry beyond the last");
    }
    let mut k = 0;
    let same = make().fold(true, |ok, v| {
        let r = ok && k < M && got[k] == Some(key(v));
        k += 1;
        r
    });
    ck!(same && k == n, "entries all at once");
    let orig = make();
    let mut twin = copy(&orig);
    let mut k = 0;
    while k < M {
        let e = twin.next().map(key);
        ck!(e == got[k], "entries of a copy");
        if e.is_none() {
            break;
        }
        k += 1;
    }
    if M > 2 {
        let mut k = 0;
        let found = make().find_map(|v| {
            k += 1;
            (k == 2).then(|| key(v))
        });
        ck!(found == got[1], "entry by search");
    }
}

/// s[0]: an entry taken before or not, and a parameter
#[inline(always)]
fn split(s: &[u8]) -> Option<(usize, usize, &[u8])> {
    let (&k, d) = s.split_first()?;
    Some(((k & 1) as usize, (k >> 1) as usize, d))
}

#[no_mangle]
pub fn h_laws_port(s: &[u8]) {
    let Some((k, p, d)) = split(s) else { return };
    laws::<_, _, 18>(|| vc::PortArbitrationTable::new(d, 1 << (p & 3)), |i| i.clone(), 99, k, |e| e);
}
#[no_mangle]
pub fn h_laws_function(s: &[u8]) {
    let Some((k, p, d)) = split(s) else { return };
    laws::<_, _, 18>(|| mf::FunctionArbitrationTable::new(d, 1 << (p & 3)), |i| i.clone(), 99, k, |e| e);
}
#[no_mangle]
pub fn h_laws_vc(s: &[u8]) {
    let Some((k, _, d)) = split(s) else { return };
    laws::<_, _, 10>(|| vc::VcArbitrationTable::new(d), |i| i.clone(), 99, k, |e| e);
}
#[no_mangle]
pub fn h_laws_channels(s: &[u8]) {
    let Some((k, p, d)) = split(s) else { return };
    laws::<_, _, 5>(|| vc::ExtendedVirtualChannels::new(d, (p & 3) as u8), |i| i.clone(), 99, k, |e| e.ok().map(|e| e.vc_resource_control));
}
#[no_mangle]
pub fn h_laws_mf_channels(s: &[u8]) {
    let Some((k, p, d)) = split(s) else { return };
    laws::<_, _, 5>(|| mf::ExtendedVirtualChannels::new(d, (p & 3) as u8, 1), |i| i.clone(), 99, k, |e| e.vc_resource_control);
}
#[no_mangle]
pub fn h_laws_egress(s: &[u8]) {
    let Some((k, p, d)) = split(s) else { return };
    if p > 9 {
        return;
    }
    laws::<_, _, 11>(|| EgressControlVectors::new(d, p), |i| i.clone(), 99, k, |e| e);
}
#[no_mangle]
pub fn h_laws_rebar(s: &[u8]) {
    let Some((k, _, d)) = split(s) else { return };
    let Ok(r) = ResizableBar::try_from(d) else { return };
    laws::<_, _, 7>(|| r.clone(), |i| i.clone(), 99, k, |e| e);
}
#[no_mangle]
pub fn h_laws_pmux(s: &[u8]) {
    let Some((k, _, d)) = split(s) else { return };
    laws::<_, _, 6>(|| PmuxProtocolArray::new(d), |i| i.clone(), 99, k, |e| e);
}
#[no_mangle]
pub fn h_laws_lanes(s: &[u8]) {
    let Some((k, _, d)) = split(s) else { return };
    // the lane iterator cannot be copied
    laws::<_, _, 8>(|| EqualizationControlLanes::new(d), |_| EqualizationControlLanes::new(d.get(2 * k..).unwrap_or(&[])), 99, k, |e| e);
}
#[no_mangle]
pub fn h_laws_links(s: &[u8]) {
    let Some((k, p, d)) = split(s) else { return };
    laws::<_, _, 4>(|| LinkEntries::new(d, (p & 3) as u8), |i| i.clone(), 99, k, |e| e);
}
#[no_mangle]
pub fn h_laws_ea(s: &[u8]) {
    let Some((k, p, d)) = split(s) else { return };
    laws::<_, _, 4>(|| EnhancedAllocationEntries::new(d, (p & 3) as u8), |i| i.clone(), 99, k, |e| e);
}
#[no_mangle]
pub fn h_laws_bars(s: &[u8]) {
    let Some((k, _, d)) = split(s) else { return };
    if d.len() < 12 {
        return;
    }
    laws::<_, _, 4>(|| BaseAddresses::new([r32(d, 0) as u32, r32(d, 4) as u32, r32(d, 8) as u32]), |i| i.clone(), 99, k, |e| e);
}
/// structures that decode whatever their length (and ones that are truncated)
#[no_mangle]
pub fn h_laws_caps(s: &[u8]) {
    let Some((k, _, d)) = split(s) else { return };
    let mut p = 0;
    for _ in 0..4 {
        if d.len() < 2 || p > d.len() - 2 {
            break;
        }
        assume(d[p] == 0 || d[p] == 9);
        match (d[p + 1] as usize).checked_sub(0x40) {
            Some(q) => p = q,
            None => break,
        }
    }
    let mut hb = [0u8; 64];
    hb[0x34] = 0x40;
    let h: Header = hb.into();
    laws::<_, _, 7>(|| Capabilities::new(d, &h), |i| i.clone(), 3, k, |e| e.map(|c| c.pointer).map_err(|_| ()));
}
#[no_mangle]
pub fn h_laws_ecaps(s: &[u8]) {
    let Some((k, _, d)) = split(s) else { return };
    let mut p = 0;
    for _ in 0..4 {
        if d.len() < 4 || p > d.len() - 4 {
            break;
        }
        assume(d[p + 1] == 0 && d[p] <= 1);
        match (r16(d, p + 2) as usize >> 4).checked_sub(0x100) {
            Some(q) => p = q,
            None => break,
        }
    }
    laws::<_, _, 5>(|| ExtendedCapabilities::new(d), |i| i.clone(), 3, k, |e| e.map(|c| c.offset).map_err(|_| ()));
}
