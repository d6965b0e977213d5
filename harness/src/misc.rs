//! Conversions and accessors that no structure decoder reaches
use crate::util::*;
use pcics::capabilities::vendor_specific::*;
use pcics::extended_capabilities::access_control_services::*;
use pcics::extended_capabilities::power_budgeting as pb;
use pcics::extended_capabilities::protocol_multiplexing::*;
use pcics::extended_capabilities::root_complex_link_declaration as rc;
use pcics::extended_capabilities::ExtendedCapabilityHeader;
use pcics::header::*;

/// expansion ROM register, both ways
#[no_mangle]
pub fn h_rom(s: &[u8]) {
    if s.len() < 4 {
        return;
    }
    let w = r32(s, 0) as u32;
    let r = ExpansionRom::from(w);
    eq!(r.address, w & 0xffff_f800, "ROM address");
    eq!(r.is_enabled, w & 1 == 1, "ROM enable");
    eq!(r.reserved as u32, (w >> 1) & 0x3ff, "ROM reserved bits");
    eq!(u64::from(r.clone()), w as u64, "64-bit image");
    eq!(u32::from(r), w, "register image");
}

/// a virtio structure on its own
#[no_mangle]
pub fn h_virtio(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<Virtio> {
        Virtio::try_from(s).ok()
    }
    let r = real(s);
    eq!(r.is_some(), s.len() >= 13, "decodes exactly when all its registers are present");
    let Some(v) = r else { return };
    let (bar, offset, size) = (s[1], r32(s, 5) as u32, r32(s, 9) as u32);
    let want = match s[0] {
        1 => Virtio::CommonCfg { bar, offset, size },
        2 => {
            let multiplier = if s.len() >= 17 {
                reach!();
                Some(r32(s, 13) as u32)
            } else {
                None
            };
            Virtio::Notify { bar, offset, size, multiplier }
        }
        3 => Virtio::Isr { bar, offset, size },
        4 => Virtio::DeviceCfg { bar, offset, size },
        _ => Virtio::Unknown { bar, offset, size },
    };
    eq!(v, want, "virtio structure");
}

/// extended capability header dword
#[no_mangle]
pub fn h_ech(s: &[u8]) {
    if s.len() < 4 {
        return;
    }
    let w = r32(s, 0);
    let h = ExtendedCapabilityHeader::from(w as u32);
    eq!(h.extended_capability_id as u64, w & 0xffff, "id");
    eq!(h.capability_version as u64, (w >> 16) & 15, "version");
    eq!(h.next_capability_offset as u64, w >> 20, "next");
}

/// serial number as the link declaration module has it
#[no_mangle]
pub fn h_rc_serial(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<rc::DeviceSerialNumber> {
        rc::DeviceSerialNumber::try_from(s).ok()
    }
    let r = real(s);
    eq!(r.is_some(), s.len() >= 8, "decodes exactly when all its registers are present");
    if let Some(v) = r {
        eq!(v.lower_dword, r32(s, 0) as u32, "first dword");
        eq!(v.upper_dword, r32(s, 4) as u32, "second dword");
    }
}

/// protocol array entry, decoded and encoded
#[no_mangle]
pub fn h_pmux_entry(s: &[u8]) {
    if s.len() != 4 {
        return;
    }
    let Some(e) = PmuxProtocolArray::new(s).next() else {
        ck!(false, "a complete entry decodes");
        return;
    };
    let b: [u8; 4] = e.into();
    let mut i = 0;
    while i < 4 {
        eq!(b[i], s[i], "entry image");
        i += 1;
    }
}

#[no_mangle]
pub fn h_power_scale(s: &[u8]) {
    if s.is_empty() {
        return;
    }
    let c = s[0] & 3;
    let m = pb::DataScale::from(c).multiplier();
    eq!(m, match c { 0 => 1.0, 1 => 0.1, 2 => 0.01, _ => 0.001 }, "scale of the base power");
}

/// egress control bits made from any data and any announced size; equality of two of them
#[no_mangle]
pub fn h_egress(s: &[u8]) {
    #[inline(never)]
    fn next(i: &mut EgressControlVectors<'_>) -> Option<bool> {
        i.next()
    }
    if s.len() < 1 {
        return;
    }
    let d = &s[1..];
    let size = s[0] as usize;
    let bits = 32 * ((d.len() + 3) / 4);
    let n = if size < bits { size } else { bits };
    let mut it = EgressControlVectors::new(d, size);
    let mut i = 0;
    while i < n {
        let want = i / 8 < d.len() && (d[i / 8] >> (i % 8)) & 1 == 1;
        eq!(next(&mut it), Some(want), "egress control bit");
        i += 1;
    }
    eq!(next(&mut it), None, "as many bits as announced and present");
    eq!(next(&mut it), None, "ended for good");
    if n < size {
        reach!();
    }
}
