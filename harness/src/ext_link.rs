//! Secondary PCIe, protocol multiplexing, PCIe over M-PHY
use crate::pcie::{speeds, width};
use crate::util::*;
use pcics::capabilities::pci_express::{ReceiverPresetHint, TransmitterPreset};
use pcics::extended_capabilities::pci_express_over_m_phy::*;
use pcics::extended_capabilities::protocol_multiplexing::*;
use pcics::extended_capabilities::secondary_pci_express::*;

#[no_mangle]
pub fn h_secpcie(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<SecondaryPciExpress<'_>> {
        SecondaryPciExpress::try_from(s).ok()
    }
    let r = real(s);
    eq!(r.is_some(), s.len() >= 8, "decodes exactly when its registers are present");
    let Some(v) = r else { return };
    let w = r32(s, 0);
    eq!(v.link_control_3, regs!(w, LinkControl3 {
        perform_equalization@0, link_equalization_request_interrupt_enable@1, lower_skp_os_generation_vector@9:7 => speeds,
    }), "link control 3");
    eq!(v.lane_error_status.0, r32(s, 4) as u32, "lane error status");
    reach!();
}
/// lane equalization entries: for a link of `width` lanes, one per lane as far as bytes are present
#[no_mangle]
pub fn h_secpcie_lanes(s: &[u8]) {
    #[inline(never)]
    fn lanes<'a>(s: &'a [u8], w: u8) -> Option<EqualizationControlLanes<'a>> {
        Some(SecondaryPciExpress::try_from(s).ok()?.equalization_control_lanes(width(w)))
    }
    #[inline(never)]
    fn next(i: &mut EqualizationControlLanes<'_>) -> Option<LaneEqualizationControl> {
        i.next()
    }
    let Some((&w, s)) = s.split_first() else { return };
    if ![1, 2, 4, 8, 12, 16, 32].contains(&w) {
        return;
    }
    let Some(mut it) = lanes(s, w) else { return };
    let n = (s.len() - 8).min(2 * w as usize) / 2;
    let mut i = 0;
    while i < n {
        let x = next(&mut it);
        ck!(x.is_some(), "an entry for each lane present");
        let Some(x) = x else { return };
        ck!(x == LaneEqualizationControl::from(r16(s, 8 + 2 * i) as u16), "entry of this lane");
        i += 1;
    }
    ck!(next(&mut it).is_none(), "no more entries than lanes");
    ck!(next(&mut it).is_none(), "ended for good");
    if n == 4 {
        reach!();
    }
}

/// capability header included
#[no_mangle]
pub fn h_pmux(s: &[u8]) {
    use ProtocolMultiplexingError as E;
    #[inline(never)]
    fn real(s: &[u8]) -> Result<ProtocolMultiplexing<'_>, E> {
        ProtocolMultiplexing::try_from(s)
    }
    #[inline(never)]
    fn next(i: &mut PmuxProtocolArray<'_>) -> Option<PmuxProtocolArrayEntry> {
        i.next()
    }
    let r = real(s);
    if s.len() < 16 {
        ck!(matches!(r, Err(E::Mandatory)), "mandatory registers missing");
        return;
    }
    let (w, c, t) = (r32(s, 4), r32(s, 8), r32(s, 12));
    let n = (w & 63) as usize;
    if s.len() < 16 + 4 * n {
        ck!(matches!(r, Err(E::PmuxProtocolArray { expected, found }) if expected == 4 * n && found == s.len() - 16), "array missing");
        reach!();
        return;
    }
    let Ok(v) = r else {
        ck!(false, "decodes when all its registers are present");
        return;
    };
    let p = &v.pmux_capability;
    eq!(p.pmux_protocol_array_size, n as u8, "array size");
    eq!(p.pmux_supported_link_speeds, regs!(w, PmuxSupportedLinkSpeeds {
        speed_2_5_gtps@8, speed_5_0_gtps@9, speed_8_0_gtps@10, speed_16_0_gtps@11,
    }), "speeds");
    eq!(v.pmux_control, regs!(c, PmuxControl {
        pmux_channel_0_assignment@0:6, pmux_channel_1_assignment@8:6, pmux_channel_2_assignment@16:6, pmux_channel_3_assignment@24:6,
    }), "control");
    eq!(v.pmux_status, regs!(t, PmuxStatus {
        pmux_channel_0_disabled_link_speed@0, pmux_channel_0_disabled_link_width@1, pmux_channel_0_disabled_link_protocol_specific@2,
        pmux_channel_1_disabled_link_speed@8, pmux_channel_1_disabled_link_width@9, pmux_channel_1_disabled_link_protocol_specific@10,
        pmux_channel_2_disabled_link_speed@16, pmux_channel_2_disabled_link_width@17, pmux_channel_2_disabled_link_protocol_specific@18,
        pmux_channel_3_disabled_link_speed@24, pmux_channel_3_disabled_link_width@25, pmux_channel_3_disabled_link_protocol_specific@26,
    }), "status");
    let mut it = v.pmux_protocol_array;
    let mut i = 0;
    while i < n {
        let x = next(&mut it);
        ck!(x.is_some(), "as many entries as announced");
        let Some(x) = x else { return };
        let w = r32(s, 16 + 4 * i);
        eq!(x, regs!(w, PmuxProtocolArrayEntry { protocol_id@0:16, authority_id@16:16 }), "array entry");
        i += 1;
    }
    ck!(next(&mut it).is_none(), "no more entries than announced");
    ck!(next(&mut it).is_none(), "ended for good");
    if n == 2 {
        reach!();
    }
    if n == 0 {
        reach!();
    }
}

fn mspeed(w: u8) -> MpcieLinkSpeed {
    regs!(w as u64, MpcieLinkSpeed { hs_g1@0, hs_g2@1 })
}
fn widths(w: u8) -> LaneWidthSupported {
    regs!(w as u64, LaneWidthSupported { x1@0, x2@1, x4@2, x8@3, x12@4, x16@5, x32@6 })
}
table!(lane_width -> LaneWidthStatus { 1 => X1, 2 => X2, 4 => X4, 8 => X8, 12 => X12, 16 => X16, 32 => X32, v => Reserved(v) });
table!(phy -> PhyLocation { 0 => LocalPhy, 1 => RemotePhy, v => Reserved(v) });
/// capability header included
fn mphy(s: &[u8]) -> PciExpressOverMphy {
    let (w, c, t, a, d) = (r32(s, 4), r32(s, 8), r32(s, 12), r32(s, 20), r32(s, 24));
    PciExpressOverMphy {
        mpcie_capabilities: regs!(w, MpcieCapabilities {
            mpcie_link_speed_capability@0:4 => mspeed, configuration_software_supported@15,
            maximum_tx_lane_width_capability@16:8 => widths, maximum_rx_lane_width_capability@24:8 => widths,
        }),
        mpcie_control: regs!(c, MpcieControl { mpcie_target_link_speed_control@0:4 => mspeed }),
        mpcie_status: regs!(t, MpcieStatus {
            mpcie_current_link_speed_status@0:4 => mspeed, mpcie_configuration_software_status@15,
            tx_lane_width_status@16:8 => lane_width, rx_lane_width_status@24:8 => lane_width,
        }),
        mpcie_lane_error_status: r32(s, 16) as u32,
        mpcie_phy_control_address: MpciePhyControlAddress {
            lower_addr: f(a, 0, 8),
            upper_addr: f::<u8>(a, 16, 5) | f::<u8>(a, 24, 1) << 5,
            phy_location: phy(f(a, 25, 3)),
            read: bit(a, 30),
            config: bit(a, 31),
        },
        mpcie_phy_control_data: regs!(d, MpciePhyControlData {
            phy_register_data@0:8, phy_control_error@29, rrap_abort_a@30, phy_control_pending@31,
        }),
    }
}
decodes!(h_mphy, PciExpressOverMphy, 0x1c, mphy);
table!(preset -> TransmitterPreset { 0 => P0, 1 => P1, 2 => P2, 3 => P3, 4 => P4, 5 => P5, 6 => P6, 7 => P7, 8 => P8, 9 => P9, 10 => P10, v => Reserved(v) });
table!(hint -> ReceiverPresetHint { 0 => Minus6dB, 1 => Minus7dB, 2 => Minus8dB, 3 => Minus9dB, 4 => Minus10dB, 5 => Minus11dB, 6 => Minus12dB, _ => Reserved });

/// the presets and hints themselves, and which bits of the control word hold them
#[no_mangle]
pub fn h_secpcie_fields(s: &[u8]) {
    #[inline(never)]
    fn dec(w: u16) -> LaneEqualizationControl {
        w.into()
    }
    #[inline(never)]
    fn dec_preset(b: u8) -> TransmitterPreset {
        b.into()
    }
    #[inline(never)]
    fn dec_hint(b: u8) -> ReceiverPresetHint {
        b.into()
    }
    if s.len() < 2 {
        return;
    }
    let w = r16(s, 0);
    eq!(dec_preset(f(w, 0, 4)), preset(f(w, 0, 4)), "transmitter preset code");
    eq!(dec_hint(f(w, 4, 3)), hint(f(w, 4, 3)), "receiver preset hint code");
    let v = dec(w as u16);
    let (dp, dh, up, uh) = v.verif_fields();
    eq!(*dp, preset(f(w, 0, 4)), "downstream port transmitter preset");
    eq!(*dh, hint(f(w, 4, 3)), "downstream port receiver preset hint");
    eq!(*up, preset(f(w, 8, 4)), "upstream port transmitter preset");
    eq!(*uh, hint(f(w, 12, 3)), "upstream port receiver preset hint");
    reach!();
}

/// a lane's equalization word keeps all of its fields: words decode alike only when those fields are alike
#[no_mangle]
pub fn h_secpcie_lane(s: &[u8]) {
    #[inline(never)]
    fn dec(w: u16) -> LaneEqualizationControl {
        w.into()
    }
    if s.len() < 4 {
        return;
    }
    let (a, b) = (r16(s, 0), r16(s, 2));
    let alike = dec(a as u16) == dec(b as u16);
    // transmitter presets 11..15 are one reserved value each
    let norm = |w: u64| w & 0x7f7f;
    if norm(a) == norm(b) {
        ck!(alike, "equal fields decode alike");
        reach!();
    } else if alike {
        let p = |w: u64, o: u32| (w >> o) & 15;
        ck!((a ^ b) & 0x7070 == 0, "receiver preset hints kept");
        ck!(p(a, 0) == p(b, 0) || p(a, 0) > 10 && p(b, 0) > 10, "downstream transmitter preset kept");
        ck!(p(a, 8) == p(b, 8) || p(a, 8) > 10 && p(b, 8) > 10, "upstream transmitter preset kept");
    }
}
