//! A structure that is rejected says which of its parts is missing or wrong, and how much was expected and found.
use crate::ext_vc::phases;
use crate::util::*;
use pcics::capabilities as lc;
use pcics::extended_capabilities as ec;

/// `why!(harness, bytes -> type of the error, decoder => expected error)`: the error of the decoder is the expected one, if any
macro_rules! why {
    ($h:ident, $s:ident -> $E:ty, $real:expr => $want:expr) => {
        #[no_mangle]
        pub fn $h($s: &[u8]) {
            #[inline(never)]
            fn real($s: &[u8]) -> Option<$E> {
                $real.err()
            }
            #[inline(never)]
            fn want($s: &[u8]) -> Option<$E> {
                $want
            }
            let (r, w) = (real($s), want($s));
            if w.is_some() {
                reach!();
            }
            eq!(r, w, "the error names what is missing");
        }
    };
}

fn device(s: &[u8]) -> pcics::Header {
    let mut hb = [0u8; 64];
    hb[..4].copy_from_slice(&s[..4]);
    hb[14] = s[4];
    hb.into()
}

use lc::message_signaled_interrups::MessageSignaledInterrupsError as Msi;
why!(h_why_msi, s -> Msi, lc::MessageSignaledInterrups::try_from(s) => {
    if s.len() < 2 {
        return Some(Msi::MessageControl);
    }
    let c = r16(s, 0);
    let need = 10 + if bit(c, 7) { 4 } else { 0 } + if bit(c, 8) { 8 } else { 0 };
    if s.len() >= need {
        return None;
    }
    Some(match (bit(c, 7), bit(c, 8)) {
        (false, false) => Msi::Size32bit,
        (true, false) => Msi::Size64bit,
        (false, true) => Msi::Size32bitPerVector,
        (true, true) => Msi::Size64bitPerVector,
    })
});

use lc::pci_express::PciExpressError as Pcie;
why!(h_why_pcie, s -> Pcie, lc::PciExpress::try_from(s) => {
    if s.len() < 26 {
        return Some(Pcie::RequiredBytesSlice);
    }
    if matches!(s[0] >> 4, 4 | 10) && s.len() < 34 {
        return Some(Pcie::RootBytesSlice);
    }
    None
});

use lc::pci_x::{PciXBridgeError as XB, PciXError as X};
why!(h_why_pcix, s -> X, lc::PciX::try_from(s) => {
    if s.len() < 6 {
        return Some(X::CommandAndStatus);
    }
    match (s[1] >> 4) & 3 {
        1 if s.len() < 22 => Some(X::EccMode2Only),
        2 if s.len() < 22 => Some(X::EccMode1OrMode2),
        _ => None,
    }
});
why!(h_why_pcix_bridge, s -> XB, lc::PciXBridge::try_from(s) => {
    if s.len() < 14 {
        return Some(XB::Mandatory);
    }
    match (s[1] >> 4) & 3 {
        1 if s.len() < 30 => Some(XB::BridgeEccMode2Only),
        2 if s.len() < 30 => Some(XB::BridgeEccMode1OrMode2),
        _ => None,
    }
});

use lc::hypertransport::HypertransportError as Ht;
why!(h_why_ht, s -> Ht, lc::Hypertransport::try_from(s) => {
    if s.len() < 2 {
        return Some(Ht::CapabilityType);
    }
    match s[1] >> 3 {
        0..=3 if s.len() < 26 => Some(Ht::SlaveOrPrimaryInterface),
        4..=7 if s.len() < 22 => Some(Ht::HostOrSecondaryInterface),
        21 if s.len() < 10 => Some(Ht::MsiMapping),
        _ => None,
    }
});

use lc::vendor_specific::VendorSpecificError as Vs;
// s = vendor and device id, header type, structure; a length of two is left out: no data at all
why!(h_why_vendor, s -> Vs, if s.len() < 5 || s.len() > 5 && s[5] == 2 { Ok(()) } else { lc::VendorSpecific::try_new(&s[5..], &device(s)).map(|_| ()) } => {
    if s.len() < 5 {
        return None;
    }
    let (v, d, n) = (r16(s, 0), r16(s, 2), s.len() - 5);
    if n == 0 {
        return Some(Vs::LengthUnreadable);
    }
    let len = s[5] as usize;
    if len < 2 {
        return Some(Vs::Length { val: s[5] });
    }
    if len == 2 {
        return None;
    }
    if n < len - 2 {
        return Some(Vs::Data { size: len - 2 });
    }
    if v == 0x1af4 && d >= 0x1000 && d <= 0x107f && len < 16 {
        return Some(Vs::Virtio);
    }
    None
});

use lc::enhanced_allocation::EnhancedAllocationError as Ea;
why!(h_why_ea, s -> Ea, if s.len() < 5 { Ok(()) } else { lc::EnhancedAllocation::try_new(&s[5..], &device(s)).map(|_| ()) } => {
    if s.len() < 5 {
        return None;
    }
    let n = s.len() - 5;
    if n < 2 {
        return Some(Ea::NumEntries);
    }
    if s[4] & 0x7f == 1 && n < 6 {
        return Some(Ea::Type1SecondDw);
    }
    None
});

use ec::advanced_error_reporting::AdvancedErrorReportingError as Aer;
why!(h_why_aer, s -> Aer, ec::AdvancedErrorReporting::try_from(s) => {
    if s.len() < 0x28 {
        return Some(Aer::Common);
    }
    if bit(r32(s, 0x14), 11) && s.len() < 0x44 {
        return Some(Aer::TlpPrefixLog);
    }
    None
});

use ec::downstream_port_containment::DownstreamPortContainmentError as Dpc;
why!(h_why_dpc, s -> Dpc, ec::DownstreamPortContainment::try_from(s) => {
    if s.len() < 8 {
        return Some(Dpc::Mandatory);
    }
    let (w, n) = (r16(s, 0), s.len());
    if !bit(w, 5) {
        return None;
    }
    let logs = ((w >> 8) & 15) as usize;
    if n < 44 {
        return Some(Dpc::RpExtensions);
    }
    if logs >= 5 && n < 48 {
        return Some(Dpc::RpPioImpspecLog);
    }
    let words = if logs > 9 { 4 } else if logs > 5 { logs - 5 } else { 0 };
    if words > 0 && n < 48 + 4 * words {
        return Some(Dpc::RpPioTlpPrefixLog { number: (n - 48) / 4 });
    }
    None
});

use ec::multifunction_virtual_channel::MultifunctionVirtualChannelError as Mf;
// capability header included
why!(h_why_mfvc, s -> Mf, ec::MultifunctionVirtualChannel::try_from(s) => {
    if s.len() < 16 {
        return Some(Mf::PortVcData);
    }
    let off = s[11] as usize * 16;
    let len = phases(f(r16(s, 12), 1, 3)) / 2;
    if off == 0 {
        return None;
    }
    if off == 16 {
        return Some(Mf::VcArbitrationTableOffset);
    }
    if off > s.len() {
        return Some(Mf::VcArbitrationTableData);
    }
    if s.len() - off < len {
        return Some(Mf::VcArbitrationTableLength { expected: len, real: s.len() - off });
    }
    None
});

use ec::root_complex_link_declaration::{ElementSelfDescription, RootComplexLinkDeclaration, RootComplexLinkDeclarationError as Ld};
why!(h_why_rcld, s -> Ld, RootComplexLinkDeclaration::try_from(s) => {
    if s.len() < 4 {
        return Some(Ld::ElementSelfDescription);
    }
    let element_self_description: ElementSelfDescription = (r32(s, 0) as u32).into();
    if s[1] == 0 {
        return Some(Ld::NumberOfLinkEntries { element_self_description });
    }
    if s.len() < 12 {
        return Some(Ld::ReservedSpace { element_self_description });
    }
    if s.len() < 28 {
        return Some(Ld::LinkEntry1 { element_self_description });
    }
    None
});

use ec::resizable_bar::ResizableBarError as Rb;
// capability header included
why!(h_why_rebar, s -> Rb, ec::ResizableBar::try_from(s) => {
    if s.len() < 12 {
        return Some(Rb::FirstEntry);
    }
    let n = (s[8] >> 5) as usize;
    if n == 0 || n == 7 {
        return Some(Rb::NumberOfResizableBars { value: n });
    }
    if s.len() < 4 + 8 * n {
        return Some(Rb::ShortData);
    }
    None
});

use ec::dynamic_power_allocation::DynamicPowerAllocationError as Dpa;
// capability header included
why!(h_why_dpa, s -> Dpa, ec::DynamicPowerAllocation::try_from(s) => {
    if s.len() < 16 {
        return Some(Dpa::Mandatory);
    }
    let (expected, found) = ((s[4] & 31) as usize + 1, s.len() - 16);
    if found < expected {
        return Some(Dpa::DpaAllocationArray { expected, found });
    }
    None
});

use ec::protocol_multiplexing::ProtocolMultiplexingError as Pm;
// capability header included
why!(h_why_pmux, s -> Pm, ec::ProtocolMultiplexing::try_from(s) => {
    if s.len() < 16 {
        return Some(Pm::Mandatory);
    }
    let (expected, found) = ((s[4] & 63) as usize * 4, s.len() - 16);
    if found < expected {
        return Some(Pm::PmuxProtocolArray { expected, found });
    }
    None
});

use ec::designated_vendor_specific_extended_capability as dv;
use dv::DesignatedVendorSpecificExtendedCapabilityError as Dv;
// capability header included
why!(h_why_dvsec, s -> Dv, ec::DesignatedVendorSpecificExtendedCapability::try_from(s) => {
    if s.len() < 10 {
        return Some(Dv::Mandatory);
    }
    let w = r32(s, 4);
    let (vendor, rev, len, id) = (f::<u16>(w, 0, 16), f::<u8>(w, 16, 4), f::<u16>(w, 20, 12), r16(s, 8) as u16);
    if len < 10 || s.len() < len as usize {
        return Some(Dv::VendorSpecificRegisters { dvsec_vendor_id: vendor, dvsec_revision: rev, dvsec_length: len, dvsec_id: id, real: s.len() });
    }
    if vendor == 0x1e98 && id == 0 && len < 56 {
        return Some(Dv::ComputeExpressLink { source: dv::compute_express_link::ComputeExpressLinkError::PcieDvsecForCxlDevice });
    }
    None
});
