//! Root complex structures: link declaration, internal link control, event collector, register block header; VSEC, CAC, DSN
use crate::pcie::{aspm, l0s_exit, l1_exit, speed, width, speeds};
use crate::util::*;
use pcics::extended_capabilities::root_complex_internal_link_control::*;
use pcics::extended_capabilities::root_complex_link_declaration as rcld;
use pcics::extended_capabilities::root_complex_register_block_header::*;
use pcics::extended_capabilities::vendor_specific_extended_capability::*;
use pcics::extended_capabilities::{ConfigurationAccessCorrelation, DeviceSerialNumber, RootComplexEventCollectorEndpointAssociation};
use rcld::{ElementSelfDescription, ElementType, LinkAddress, LinkDescription, LinkEntriesState, LinkEntry,
    RootComplexLinkDeclaration, RootComplexLinkDeclarationError};

fn dsn(s: &[u8]) -> DeviceSerialNumber {
    DeviceSerialNumber { lower_dword: r32(s, 0) as u32, upper_dword: r32(s, 4) as u32 }
}
decodes!(h_dsn, DeviceSerialNumber, 8, dsn);
fn rcec(s: &[u8]) -> RootComplexEventCollectorEndpointAssociation {
    RootComplexEventCollectorEndpointAssociation { association_bitmap_for_rcieps: r32(s, 0) as u32 }
}
decodes!(h_rcec, RootComplexEventCollectorEndpointAssociation, 4, rcec);
fn cac(s: &[u8]) -> ConfigurationAccessCorrelation {
    ConfigurationAccessCorrelation { device_correlation: r32(s, 4) as u32 }
}
decodes!(h_cac, ConfigurationAccessCorrelation, 8, cac);
fn rcrb(s: &[u8]) -> RootComplexRegisterBlockHeader {
    RootComplexRegisterBlockHeader {
        vendor_id: r16(s, 4) as u16,
        device_id: r16(s, 6) as u16,
        rcrb_capabilities: RcrbCapabilities { crs_software_visibility: bit(r32(s, 8), 0) },
        rcrb_control: RcrbControl { crs_software_visibility_enable: bit(r32(s, 12), 0) },
    }
}
decodes!(h_rcrb, RootComplexRegisterBlockHeader, 0x14, rcrb);
fn rcil(s: &[u8]) -> RootComplexInternalLinkControl {
    let (w, c, t) = (r32(s, 0), r16(s, 4), r16(s, 6));
    RootComplexInternalLinkControl {
        root_complex_link_capabilities: regs!(w, RootComplexLinkCapabilities {
            max_link_speed@0:4 => speed, maximum_link_width@4:6 => width, active_state_power_management_support@10:2 => aspm,
            l0s_exit_latency@12:3 => l0s_exit, l1_exit_latency@15:3 => l1_exit, supported_link_speeds_vector@18:7 => speeds,
        }),
        root_complex_link_control: regs!(c, RootComplexLinkControl { active_state_power_management_control@0:2 => aspm, extended_synch@7 }),
        root_complex_link_status: regs!(t, RootComplexLinkStatus { current_link_speed@0:4 => speed, negotiated_link_width@4:6 => width }),
    }
}
decodes!(h_rcil, RootComplexInternalLinkControl, 8, rcil);

#[no_mangle]
pub fn h_vsec(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<VendorSpecificExtendedCapability<'_>> {
        VendorSpecificExtendedCapability::try_from(s).ok()
    }
    let r = real(s);
    eq!(r.is_some(), s.len() >= 4, "decodes exactly when its header is present");
    let Some(v) = r else { return };
    let w = r32(s, 0);
    eq!(v.header, regs!(w, VsecHeader { vsec_id@0:16, vsec_rev@16:4, vsec_length@20:12 }), "header");
    let n: usize = f::<u16>(w, 20, 12) as usize;
    let tail = &s[4..];
    match v.registers {
        VsecRegisters::Valid(d) => {
            ck!(n >= 8 && n - 8 <= tail.len(), "valid only when all bytes are present");
            if n >= 8 && n - 8 <= tail.len() {
                ck!(same(d, &tail[..n - 8]), "registers");
            }
            reach!();
        }
        VsecRegisters::InvalidLength(l) => {
            ck!(n < 8, "invalid length only below 8");
            eq!(l as usize, n, "length");
            reach!();
        }
        VsecRegisters::Incomplete(d) => {
            ck!(n >= 8 && n - 8 > tail.len(), "incomplete only when bytes are missing");
            ck!(same(d, tail), "registers");
            reach!();
        }
    }
}

fn element(v: u8) -> ElementType {
    match v {
        0 => ElementType::ConfigurationSpaceElement,
        1 => ElementType::SystemEgressPortOrInternalSink,
        2 => ElementType::InternalRootComplexLink,
        v => ElementType::Reserved(v),
    }
}
fn esd(w: u64) -> ElementSelfDescription {
    regs!(w, ElementSelfDescription { element_type@0:4 => element, reserved@4:4, number_of_link_entries@8:8, component_id@16:8, port_number@24:8 })
}
fn entry(s: &[u8]) -> LinkEntry {
    let (w, lo, hi) = (r32(s, 0), r32(s, 8), r32(s, 12));
    let q = lo | hi << 32;
    LinkEntry {
        link_description: regs!(w, LinkDescription {
            link_valid@0, link_type@1:1, associate_rcrb_header@2, target_component_id@16:8, target_port_number@24:8,
        }),
        link_address: if bit(w, 1) {
            let n = if lo & 7 == 0 { 8 } else { lo & 7 };
            LinkAddress::ConfigurationSpace {
                n: n as u8,
                reserved: f(lo, 3, 9),
                function: f(lo, 12, 3),
                device: f(lo, 15, 5),
                bus: (lo >> 20 & ((1 << n) - 1)) as u8,
                address: q >> (20 + n) << (20 + n),
            }
        } else {
            LinkAddress::MemoryMappedSpace(q)
        },
    }
}
#[no_mangle]
pub fn h_rcld(s: &[u8]) {
    rcld(s, 5)
}
#[no_mangle]
pub fn h_rcld_all(s: &[u8]) {
    rcld(s, 300)
}
#[inline(always)]
fn rcld(s: &[u8], most: usize) {
    use RootComplexLinkDeclarationError as E;
    #[inline(never)]
    fn real(s: &[u8]) -> Result<RootComplexLinkDeclaration<'_>, E> {
        RootComplexLinkDeclaration::try_from(s)
    }
    let r = real(s);
    if s.len() < 4 {
        eq!(r, Err(E::ElementSelfDescription), "description missing");
        return;
    }
    let d = esd(r32(s, 0));
    let n = s[1] as usize;
    if n == 0 {
        eq!(r, Err(E::NumberOfLinkEntries { element_self_description: d }), "no entries announced");
        reach!();
        return;
    }
    if s.len() < 12 {
        eq!(r, Err(E::ReservedSpace { element_self_description: d }), "reserved space missing");
        return;
    }
    if s.len() < 28 {
        eq!(r, Err(E::LinkEntry1 { element_self_description: d }), "first entry missing");
        return;
    }
    let Ok(mut v) = r else {
        ck!(false, "decodes when its first entry is present");
        return;
    };
    eq!(v.element_self_description, d, "element self description");
    let have = s.len() - 12;
    let state = v.link_entries.state.clone();
    if have >= 16 * n {
        ck!(matches!(state, LinkEntriesState::Valid), "all entries present");
    } else if have % 16 == 0 {
        ck!(matches!(state, LinkEntriesState::Incomplete), "entries missing");
    } else {
        ck!(matches!(state, LinkEntriesState::Invalid), "entry truncated");
    }
    let mut i = 0;
    while i < most {
        let e = v.link_entries.next();
        let o = 12 + 16 * i;
        let there = i < n && s.len() >= o + 16;
        eq!(e.is_some(), there, "number of entries");
        if !there {
            ck!(v.link_entries.next().is_none(), "ended for good");
            reach!();
            return;
        }
        eq!(e, Some(entry(&s[o..o + 16])), "entry");
        i += 1;
    }
}
#[no_mangle]
pub fn h_rcld_roundtrip(s: &[u8]) {
    codes!(s; ElementType, 4, element);
    if s.len() < 9 {
        return;
    }
    let (lo, hi) = (r32(s, 0) as u32, r32(s, 4) as u32);
    let t = s[8] & 1;
    eq!(<[u32; 2]>::from(LinkAddress::new(t, lo, hi)), [lo, hi], "link address");
    reach!();
}
