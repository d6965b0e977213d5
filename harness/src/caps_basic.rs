use crate::util::*;
use pcics::capabilities::*;

// ------------------------------------------------------------------ power management
fn x_pm(s: &[u8]) -> PowerManagementInterface {
    use pcics::capabilities::power_management_interface::*;
    let c = r16(s, 0);
    let k = r16(s, 2);
    let b = r8(s, 4);
    PowerManagementInterface {
        capabilities: Capabilities {
            version: f(c, 0, 3),
            pme_clock: bit(c, 3),
            immediate_readiness_on_return_to_d0: bit(c, 4),
            device_specific_initialization: bit(c, 5),
            aux_current: match f::<u8>(c, 6, 3) {
                0 => AuxCurrent::SelfPowered,
                1 => AuxCurrent::MaxCurrent55mA,
                2 => AuxCurrent::MaxCurrent100mA,
                3 => AuxCurrent::MaxCurrent160mA,
                4 => AuxCurrent::MaxCurrent220mA,
                5 => AuxCurrent::MaxCurrent270mA,
                6 => AuxCurrent::MaxCurrent320mA,
                _ => AuxCurrent::MaxCurrent375mA,
            },
            d1_support: bit(c, 9),
            d2_support: bit(c, 10),
            pme_support: PmeSupport {
                d0: bit(c, 11),
                d1: bit(c, 12),
                d2: bit(c, 13),
                d3_hot: bit(c, 14),
                d3_cold: bit(c, 15),
            },
        },
        control: Control {
            power_state: match f::<u8>(k, 0, 2) {
                0 => PowerState::D0,
                1 => PowerState::D1,
                2 => PowerState::D2,
                _ => PowerState::D3Hot,
            },
            no_soft_reset: bit(k, 3),
            pme_enabled: bit(k, 8),
            data_select: x_select(f(k, 9, 4)),
            data_scale: match f::<u8>(k, 13, 2) {
                0 => DataScale::Unknown,
                1 => DataScale::Tenth,
                2 => DataScale::Hundredth,
                _ => DataScale::Thousandth,
            },
            pme_status: bit(k, 15),
        },
        bridge: Bridge { reserved: f(b, 0, 6), b2_b3: bit(b, 6), bpcc_enabled: bit(b, 7) },
        data: s[5],
    }
}
fn x_select(v: u8) -> power_management_interface::DataSelect {
    use power_management_interface::DataSelect::*;
    match v {
        0 => PowerConsumedD0,
        1 => PowerConsumedD1,
        2 => PowerConsumedD2,
        3 => PowerConsumedD3,
        4 => PowerDissipatedD0,
        5 => PowerDissipatedD1,
        6 => PowerDissipatedD2,
        7 => PowerDissipatedD3,
        8 => CommonLogic,
        v => Reserved(v),
    }
}
decodes!(h_pm, PowerManagementInterface, 6, x_pm);

#[no_mangle]
pub fn h_pm_data(s: &[u8]) {
    use power_management_interface::*;
    if let Ok(p) = PowerManagementInterface::try_from(s) {
        match p.data() {
            None => ck!(s[5] == 0, "data absent only when the register is zero"),
            Some(d) => {
                reach!();
                ck!(s[5] != 0, "data present");
                eq!(d.value, s[5], "data value");
                eq!(d.select, x_select(f(r16(s, 2), 9, 4)), "data select");
                eq!(d.scale, p.control.data_scale, "data scale");
            }
        }
    }
    if let Some(b) = s.first() {
        eq!(u8::from(DataSelect::from(*b)), *b, "data select code round trip");
        eq!(DataSelect::from(*b), x_select(*b), "data select code");
    }
}

// ------------------------------------------------------------------ small ones
fn x_vpd(s: &[u8]) -> VitalProductData {
    VitalProductData { vpd_address: f(r16(s, 0), 0, 15), transfer_completed: bit(r16(s, 0), 15), vpd_data: r32(s, 2) as u32 }
}
decodes!(h_vpd, VitalProductData, 6, x_vpd);

fn x_slot(s: &[u8]) -> SlotIdentification {
    SlotIdentification {
        expansion_slot: slot_identification::ExpansionSlot {
            expansion_slots_provided: s[0] & 31,
            first_in_chassis: bit(r8(s, 0), 5),
        },
        chassis_number: s[1],
    }
}
decodes!(h_slot, SlotIdentification, 2, x_slot);

fn x_af(s: &[u8]) -> AdvancedFeatures {
    AdvancedFeatures {
        length: s[0],
        capabilities: advanced_features::Capabilities { transactions_pending: bit(r8(s, 1), 0), function_level_reset: bit(r8(s, 1), 1) },
        control: advanced_features::Control { initiate_flr: bit(r8(s, 2), 0) },
        status: advanced_features::Status { transactions_pending: bit(r8(s, 3), 0) },
    }
}
decodes!(h_af, AdvancedFeatures, 4, x_af);

fn x_sata(s: &[u8]) -> Sata {
    use sata::*;
    let w = r32(s, 2);
    Sata {
        revision: Revision { minor: s[0] & 15, major: s[0] >> 4 },
        bar_offset: BarOffset(f(w, 4, 20)),
        bar_location: match f::<u8>(w, 0, 4) {
            4 => BarLocation::Bar0,
            5 => BarLocation::Bar1,
            6 => BarLocation::Bar2,
            7 => BarLocation::Bar3,
            8 => BarLocation::Bar4,
            9 => BarLocation::Bar5,
            15 => BarLocation::SataCapability1,
            v => BarLocation::Reserved(v),
        },
    }
}
decodes!(h_sata, Sata, 6, x_sata);
#[no_mangle]
pub fn h_sata_offset(s: &[u8]) {
    if let Ok(v) = Sata::try_from(s) {
        reach!();
        eq!(v.bar_offset.value(), f::<u32>(r32(s, 2), 4, 20) * 4, "SATA BAR offset in bytes");
    }
}

fn x_debug(s: &[u8]) -> DebugPort {
    DebugPort { offset: f(r16(s, 0), 0, 13), bar_number: f(r16(s, 0), 13, 3) }
}
decodes!(h_debug, DebugPort, 2, x_debug);

fn x_ssvid(s: &[u8]) -> BridgeSubsystemVendorId {
    BridgeSubsystemVendorId { reserved: r16(s, 0) as u16, subsystem_vendor_id: r16(s, 2) as u16, subsystem_id: r16(s, 4) as u16 }
}
decodes!(h_ssvid, BridgeSubsystemVendorId, 6, x_ssvid);

// ------------------------------------------------------------------ MSI / MSI-X
#[no_mangle]
pub fn h_msi(s: &[u8]) {
    use message_signaled_interrups::*;
    let r = MessageSignaledInterrups::try_from(s);
    if s.len() < 2 {
        ck!(matches!(r, Err(MessageSignaledInterrupsError::MessageControl)), "message control missing");
        return;
    }
    let c = r16(s, 0);
    let (wide, masked) = (bit(c, 7), bit(c, 8));
    let data = if wide { 10 } else { 6 };
    let need = data + 4 + if masked { 8 } else { 0 };
    if s.len() < need {
        let e = match (wide, masked) {
            (false, false) => MessageSignaledInterrupsError::Size32bit,
            (true, false) => MessageSignaledInterrupsError::Size64bit,
            (false, true) => MessageSignaledInterrupsError::Size32bitPerVector,
            (true, true) => MessageSignaledInterrupsError::Size64bitPerVector,
        };
        eq!(r, Err(e), "truncated MSI capability");
        return;
    }
    match r {
        Err(_) => ck!(false, "complete MSI capability decodes"),
        Ok(m) => {
            reach!();
            let k = &m.message_control;
            eq!(k.msi_enable, bit(c, 0), "enable");
            eq!(k.multiple_message_capable, MultipleMessage(f(c, 1, 3)), "multiple message capable");
            eq!(k.multiple_message_enable, MultipleMessage(f(c, 4, 3)), "multiple message enable");
            eq!(k.multiple_message_capable.number_of_vectors() as u32, 1u32 << f::<u32>(c, 1, 3), "vectors requested");
            eq!(k.multiple_message_enable.number_of_vectors() as u32, 1u32 << f::<u32>(c, 4, 3), "vectors enabled");
            eq!(k.a_64_bit_address_capable, wide, "64 bit capable");
            eq!(k.per_vector_masking_capable, masked, "per-vector masking");
            eq!(k.extended_message_data_capable, bit(c, 9), "extended data capable");
            eq!(k.extended_message_data_enable, bit(c, 10), "extended data enable");
            let a = if wide { MessageAddress::Qword(r64(s, 2)) } else { MessageAddress::Dword(r32(s, 2) as u32) };
            eq!(m.message_address, a, "message address");
            eq!(m.message_data, r16(s, data) as u16, "message data");
            eq!(m.extended_message_data, r16(s, data + 2) as u16, "extended message data");
            eq!(m.mask_bits, if masked { Some(r32(s, data + 4) as u32) } else { None }, "mask bits");
            eq!(m.pending_bits, if masked { Some(r32(s, data + 8) as u32) } else { None }, "pending bits");
        }
    }
}

fn x_bir(v: u8) -> msi_x::Bir {
    use msi_x::Bir::*;
    match v {
        0 => Bar10h,
        1 => Bar14h,
        2 => Bar18h,
        3 => Bar1Ch,
        4 => Bar20h,
        5 => Bar24h,
        v => Reserved(v),
    }
}
fn x_msix(s: &[u8]) -> MsiX {
    use msi_x::*;
    let (c, t, p) = (r16(s, 0), r32(s, 2), r32(s, 6));
    MsiX {
        message_control: MessageControl { table_size: f(c, 0, 11), function_mask: bit(c, 14), msi_x_enable: bit(c, 15) },
        table: Table { bir: x_bir(f(t, 0, 3)), offset: t as u32 & !7 },
        pending_bit_array: PendingBitArray { bir: x_bir(f(p, 0, 3)), offset: p as u32 & !7 },
    }
}
decodes!(h_msix, MsiX, 10, x_msix);

// ------------------------------------------------------------------ AGP
fn x_cal(v: u8) -> accelerated_graphics_port::CalCycle {
    use accelerated_graphics_port::CalCycle::*;
    match v {
        0 => Period4ms,
        1 => Period16ms,
        2 => Period64ms,
        3 => Period256ms,
        7 => CalibrationCycleNotNeeded,
        v => Reserved(v),
    }
}
fn x_rates(v: u8) -> accelerated_graphics_port::DataRateSupport {
    use accelerated_graphics_port::DataRateSupport::*;
    match v {
        1 => Speed4x,
        2 => Speed8x,
        3 => Speed4xAnd8x,
        v => Reserved(v),
    }
}
fn x_ratee(v: u8) -> accelerated_graphics_port::DataRateEnabled {
    use accelerated_graphics_port::DataRateEnabled::*;
    match v {
        1 => Speed4x,
        2 => Speed8x,
        v => Reserved(v),
    }
}
#[no_mangle]
pub fn h_agp(s: &[u8]) {
    use accelerated_graphics_port::*;
    let r = AcceleratedGraphicsPort::try_from(s);
    eq!(r.is_ok(), s.len() >= 10, "AGP decodes exactly when its mandatory registers are present");
    let v = match r {
        Ok(v) => v,
        Err(_) => return,
    };
    let (st, cm) = (r32(s, 2), r32(s, 6));
    eq!(v.identifier, Identifier { minor: s[0] & 15, major: s[0] >> 4 }, "identifier");
    eq!(
        v.status,
        Status {
            rq: f(st, 24, 8),
            isoch_support: bit(st, 17),
            reserved: bit(st, 16),
            arqsz: f(st, 13, 3),
            cal_cycle: x_cal(f(st, 10, 3)),
            sba: bit(st, 9),
            ita_coh: bit(st, 8),
            gart64b: bit(st, 7),
            htrans: bit(st, 6),
            over4g: bit(st, 5),
            fw: bit(st, 4),
            agp_3_0_mode: bit(st, 3),
            rate: x_rates(f(st, 0, 3)),
        },
        "status"
    );
    eq!(
        v.command,
        Command {
            prq: f(cm, 24, 8),
            parqsz: f(cm, 13, 3),
            pcal_cycle: x_cal(f(cm, 10, 3)),
            sba_enable: bit(cm, 9),
            agp_enable: bit(cm, 8),
            gart64b: bit(cm, 7),
            over4g: bit(cm, 5),
            fw_enable: bit(cm, 4),
            drate: x_ratee(f(cm, 0, 3)),
        },
        "command"
    );
    let n = s.len();
    let isoch = bit(st, 17);
    eq!(v.isochronous_status.is_some(), isoch && n >= 14, "isochronous status presence");
    if let Some(x) = v.isochronous_status {
        reach!();
        let w = r32(s, 10);
        let want = IsochronousStatus {
            maxbw: f(w, 16, 8),
            isoch_n: f(w, 8, 8),
            isoch_y: IsochY(f(w, 6, 2)),
            isoch_l: f(w, 3, 3),
            isoch_error_code: IsochErrorCode(f(w, 0, 2)),
        };
        eq!(x, want, "isochronous status");
    }
    eq!(v.control.is_some(), n >= 18, "control presence");
    if let Some(x) = v.control {
        let w = r32(s, 14);
        eq!(x, Control { cal_cycle_dis: bit(w, 9), aperenb: bit(w, 8), gtlben: bit(w, 7) }, "control");
    }
    eq!(v.aperture_size, if n >= 20 { Some(ApertureSize(r16(s, 18) as u16)) } else { None }, "aperture size");
    eq!(
        v.enabled_aperture_page_size,
        if n >= 22 { Some(EnabledAperturePageSize(r16(s, 20) as u16)) } else { None },
        "aperture page size"
    );
    eq!(v.gart_pointer.is_some(), n >= 26, "GART pointer presence");
    if let Some(x) = v.gart_pointer {
        let hi = if n >= 30 { r32(s, 26) as u32 } else { 0 };
        eq!(x, GartPointer { gartlo: r32(s, 22) as u32, garthi: hi }, "GART pointer");
    }
    eq!(v.isochronous_command.is_some(), isoch && n >= 32, "isochronous command presence");
    if let Some(x) = v.isochronous_command {
        reach!();
        let w = r16(s, 30);
        eq!(x, IsochronousCommand { pisoch_n: f(w, 8, 8), pisoch_y: f(w, 6, 2) }, "isochronous command");
    }
}
#[no_mangle]
pub fn h_agp_codes(s: &[u8]) {
    use accelerated_graphics_port::*;
    if let Some(&b) = s.first() {
        reach!();
        eq!(u8::from(CalCycle::from(b)), b, "calibration cycle round trip");
        eq!(u8::from(DataRateSupport::from(b)), b, "data rate support round trip");
        eq!(u8::from(DataRateEnabled::from(b)), b, "data rate enabled round trip");
        eq!(CalCycle::from(b), x_cal(b), "calibration cycle");
        eq!(DataRateSupport::from(b), x_rates(b), "data rate support");
        eq!(DataRateEnabled::from(b), x_ratee(b), "data rate enabled");
    }
}

// ------------------------------------------------------------------ vendor specific / virtio
#[inline(always)]
pub fn any_header(s: &[u8]) -> pcics::Header {
    let mut a = [0u8; 64];
    a.copy_from_slice(&s[..64]);
    a.into()
}

/// s = vendor id, device id, capability bytes behind id/next
#[no_mangle]
pub fn h_vendor(s: &[u8]) {
    use vendor_specific::*;
    if s.len() < 4 {
        return;
    }
    let mut hb = [0u8; 64];
    hb[..4].copy_from_slice(&s[..4]);
    let h: pcics::Header = hb.into();
    let d = &s[4..];
    let r = VendorSpecific::try_new(d, &h);
    let virtio = r16(s, 0) == 0x1af4 && r16(s, 2) >= 0x1000 && r16(s, 2) <= 0x107f;
    if d.is_empty() {
        ck!(matches!(r, Err(VendorSpecificError::LengthUnreadable)), "length byte missing");
        return;
    }
    // the length byte counts the whole capability: id, next, length, data
    let len = d[0] as usize;
    if len < 3 || d.len() < len - 2 {
        ck!(r.is_err(), "impossible or truncated length is an error");
        if len < 2 {
            ck!(matches!(r, Err(VendorSpecificError::Length { val }) if val == d[0]), "impossible length");
        } else if len > 2 {
            ck!(matches!(r, Err(VendorSpecificError::Data { size }) if size == len - 2), "truncated data");
        }
        return;
    }
    let data = &d[1..len - 2];
    match r {
        Err(e) => {
            ck!(virtio && data.len() < 13, "complete vendor capability decodes");
            ck!(matches!(e, VendorSpecificError::Virtio), "short virtio capability");
        }
        Ok(VendorSpecific::Unspecified(x)) => {
            reach!();
            ck!(!virtio, "virtio devices decode to virtio");
            eq!(x.len(), data.len(), "vendor data length");
            ck!(x.as_ptr() == data.as_ptr(), "vendor data is the bytes after the length byte");
        }
        Ok(VendorSpecific::Virtio(x)) => {
            reach!();
            ck!(virtio && data.len() >= 13, "virtio only for virtio devices");
            let (bar, offset, size) = (data[1], r32(data, 5) as u32, r32(data, 9) as u32);
            let want = match data[0] {
                1 => Virtio::CommonCfg { bar, offset, size },
                2 => Virtio::Notify {
                    bar,
                    offset,
                    size,
                    multiplier: if data.len() >= 17 { Some(r32(data, 13) as u32) } else { None },
                },
                3 => Virtio::Isr { bar, offset, size },
                4 => Virtio::DeviceCfg { bar, offset, size },
                _ => Virtio::Unknown { bar, offset, size },
            };
            eq!(x, want, "virtio structure");
        }
    }
}

// ------------------------------------------------------------------ enhanced allocation
fn x_bei(v: u8) -> enhanced_allocation::BarEquivalentIndicator {
    use enhanced_allocation::BarEquivalentIndicator::*;
    match v {
        0 => Location10h,
        1 => Location14h,
        2 => Location18h,
        3 => Location1Ch,
        4 => Location20h,
        5 => Location24h,
        6 => BehindType1Function,
        7 => EquivalentNotIndicated,
        8 => ExpansionRomBaseAddress,
        9 => VfBar0,
        10 => VfBar1,
        11 => VfBar2,
        12 => VfBar3,
        13 => VfBar4,
        14 => VfBar5,
        _ => Reserved,
    }
}
fn x_prop(v: u8) -> enhanced_allocation::ResourceDefinition {
    use enhanced_allocation::ResourceDefinition::*;
    match v {
        0 => MemorySpaceNonPrefetchable,
        1 => MemorySpacePrefetchable,
        2 => IoSpace,
        3 => PfForVfMemorySpacePrefetchable,
        4 => PfForVfMemorySpaceNonPrefetchable,
        5 => Type1ForAbbMemoryNonPrefetchable,
        6 => Type1ForAbbMemoryPrefetchable,
        7 => Type1ForAbbIoSpace,
        0xfd => UnavailableMemorySpace,
        0xfe => UnavailableIoSpace,
        0xff => Unavailable,
        v => Reserved(v),
    }
}
/// an entry needs its first dword, base and max offset, plus one dword per 64-bit value
#[inline(never)]
fn x_ea_entry(d: &[u8]) -> Option<(enhanced_allocation::EnhancedAllocationEntry, usize)> {
    use enhanced_allocation::*;
    if d.len() < 12 {
        return None;
    }
    let (w, b, m) = (r32(d, 0), r32(d, 4), r32(d, 8));
    let mut at = 12;
    let base = if bit(b, 1) {
        if d.len() < at + 4 {
            return None;
        }
        let h = r32(d, at);
        at += 4;
        ResourceRangeAddress::U64(h << 32 | (b & 0xffff_fffc))
    } else {
        ResourceRangeAddress::U32(b as u32 & 0xffff_fffc)
    };
    let max_offset = if bit(m, 1) {
        if d.len() < at + 4 {
            return None;
        }
        let h = r32(d, at);
        at += 4;
        ResourceRangeAddress::U64(h << 32 | m | 3)
    } else {
        ResourceRangeAddress::U32(m as u32 | 3)
    };
    let next = if cfg!(feature = "ea_real") { at } else { 4 * (f::<u8>(w, 0, 3) as usize) + 4 };
    if next > d.len() {
        return None;
    }
    Some((
        EnhancedAllocationEntry {
            entry_size: f(w, 0, 3),
            bar_equivalent_indicator: x_bei(f(w, 4, 4)),
            primary_properties: x_prop(f(w, 8, 8)),
            secondary_properties: x_prop(f(w, 16, 8)),
            writable: bit(w, 30),
            enable: bit(w, 31),
            base,
            max_offset,
        },
        next,
    ))
}
/// s = header type byte, capability bytes behind id/next
#[no_mangle]
pub fn h_ea(s: &[u8]) {
    use enhanced_allocation::*;
    if s.is_empty() {
        return;
    }
    let mut hb = [0u8; 64];
    hb[14] = s[0];
    let h: pcics::Header = hb.into();
    let bridge = s[0] & 0x7f == 1;
    let d = &s[1..];
    let r = EnhancedAllocation::try_new(d, &h);
    if d.len() < 2 {
        ck!(matches!(r, Err(EnhancedAllocationError::NumEntries)), "number of entries missing");
        return;
    }
    if bridge && d.len() < 6 {
        ck!(matches!(r, Err(EnhancedAllocationError::Type1SecondDw)), "second dword of a bridge missing");
        return;
    }
    let v = match r {
        Ok(v) => v,
        Err(_) => return ck!(false, "enhanced allocation decodes"),
    };
    reach!();
    eq!(v.num_entries, d[0] & 0x3f, "number of entries");
    let want = if bridge {
        Some(Type1SecondDw { fixed_secondary_bus_number: d[2], fixed_subordinate_bus_number: d[3] })
    } else {
        None
    };
    eq!(v.type_1_second_dw, want, "fixed bus numbers");
    let mut rest = if bridge { &d[6..] } else { &d[2..] };
    let mut left = d[0] & 0x3f;
    let mut it = v.entries;
    loop {
        let g = it.next();
        let w = if left == 0 { None } else { x_ea_entry(rest) };
        match (g, w) {
            (None, None) => {
                ck!(it.next().is_none(), "ended for good");
                break;
            }
            (Some(g), Some((w, n))) => {
                reach!();
                eq!(g, w, "allocation entry");
                rest = &rest[n..];
                left -= 1;
            }
            _ => {
                ck!(false, "number of allocation entries");
                break;
            }
        }
    }
}

// ------------------------------------------------------------------ flattening portal bridge
#[no_mangle]
pub fn h_fpb(s: &[u8]) {
    use flattening_portal_bridge::*;
    let r = FlatteningPortalBridge::try_from(s);
    eq!(r.is_ok(), s.len() >= 34, "FPB decodes exactly when all its registers are present");
    let v = match r {
        Ok(v) => v,
        Err(_) => return,
    };
    reach!();
    eq!(v.reserved, r16(s, 0) as u16, "reserved");
    let c = r32(s, 2);
    eq!(
        v.fpb_capabilities,
        FpbCapabilities {
            fpb_rid_decode_mechanism_supported: bit(c, 0),
            fpb_mem_low_decode_mechanism_supported: bit(c, 1),
            fpb_mem_high_decode_mechanism_supported: bit(c, 2),
            fpb_num_sec_dev: f(c, 3, 5),
            fpb_rid_vector_size_supported: match f::<u8>(c, 8, 3) {
                0 => FpbRidVectorSizeSupported::Size256bits,
                2 => FpbRidVectorSizeSupported::Size1Kbits,
                5 => FpbRidVectorSizeSupported::Size8kbits,
                v => FpbRidVectorSizeSupported::Reserved(v),
            },
            fpb_mem_low_vector_size_supported: match f::<u8>(c, 16, 3) {
                0 => FpbMemLowVectorSizeSupported::Size256bits,
                1 => FpbMemLowVectorSizeSupported::Size512bits,
                2 => FpbMemLowVectorSizeSupported::Size1Kbits,
                3 => FpbMemLowVectorSizeSupported::Size2Kbits,
                4 => FpbMemLowVectorSizeSupported::Size4Kbits,
                v => FpbMemLowVectorSizeSupported::Reserved(v),
            },
            fpb_mem_high_vector_size_supported: match f::<u8>(c, 24, 3) {
                0 => FpbMemHighVectorSizeSupported::Size256bits,
                1 => FpbMemHighVectorSizeSupported::Size512bits,
                2 => FpbMemHighVectorSizeSupported::Size1Kbits,
                3 => FpbMemHighVectorSizeSupported::Size2Kbits,
                4 => FpbMemHighVectorSizeSupported::Size4Kbits,
                5 => FpbMemHighVectorSizeSupported::Size8Kbits,
                v => FpbMemHighVectorSizeSupported::Reserved(v),
            },
        },
        "FPB capabilities"
    );
    let (a, b) = (r32(s, 6), r32(s, 10));
    let k = &v.fpb_rid_vector_control;
    eq!(k.fpb_rid_decode_mechanism_enable, bit(a, 0), "RID decode enable");
    let (g, al) = match f::<u8>(a, 4, 4) {
        0 => (FpbRidVectorGranularity::Granularity8RIDs, 8u32),
        3 => (FpbRidVectorGranularity::Granularity64RIDs, 64),
        5 => (FpbRidVectorGranularity::Granularity256RIDs, 256),
        v => (FpbRidVectorGranularity::Reserved(v), 0),
    };
    eq!(k.fpb_rid_vector_granularity, g, "RID granularity");
    if al != 0 {
        let st = f::<u32>(a, 19, 13) * 8;
        eq!(k.fpb_rid_vector_start as u32, st & !(al - 1), "RID vector start aligned to its granularity");
    }
    eq!(k.rid_secondary_start, f::<u16>(b, 3, 13), "RID secondary start");
    let a = r32(s, 14);
    let k = &v.fpb_mem_low_vector_control;
    eq!(k.fpb_mem_low_decode_mechanism_enable, bit(a, 0), "MEM low decode enable");
    let (g, mb) = match f::<u8>(a, 4, 4) {
        0 => (FpbMemLowVectorGranularity::Granularity1MB, 1u32),
        1 => (FpbMemLowVectorGranularity::Granularity2MB, 2),
        2 => (FpbMemLowVectorGranularity::Granularity4MB, 4),
        3 => (FpbMemLowVectorGranularity::Granularity8MB, 8),
        4 => (FpbMemLowVectorGranularity::Granularity16MB, 16),
        v => (FpbMemLowVectorGranularity::Reserved(v), 0),
    };
    eq!(k.fpb_mem_low_vector_granularity, g, "MEM low granularity");
    if mb != 0 {
        eq!(k.fpb_mem_low_vector_start, (f::<u32>(a, 20, 12) & !(mb - 1)) << 20, "MEM low vector start");
    }
    let (a, b) = (r32(s, 18), r32(s, 22));
    let k = &v.fpb_mem_high_vector_control;
    eq!(k.fpb_mem_high_decode_mechanism_enable, bit(a, 0), "MEM high decode enable");
    let (g, un) = match f::<u8>(a, 4, 4) {
        0 => (FpbMemHighVectorGranularity::Granularity256MB, 1u64),
        1 => (FpbMemHighVectorGranularity::Granularity512MB, 2),
        2 => (FpbMemHighVectorGranularity::Granularity1GB, 4),
        3 => (FpbMemHighVectorGranularity::Granularity2GB, 8),
        4 => (FpbMemHighVectorGranularity::Granularity4GB, 16),
        5 => (FpbMemHighVectorGranularity::Granularity8GB, 32),
        6 => (FpbMemHighVectorGranularity::Granularity16GB, 64),
        7 => (FpbMemHighVectorGranularity::Granularity32GB, 128),
        v => (FpbMemHighVectorGranularity::Reserved(v), 0),
    };
    eq!(k.fpb_mem_high_vector_granularity, g, "MEM high granularity");
    if un != 0 {
        let start = b << 32 | f::<u64>(a, 28, 4) << 28;
        eq!(k.fpb_mem_high_vector_start, start & !(un * 0x1000_0000 - 1), "MEM high vector start");
    }
    let a = r32(s, 26);
    eq!(
        v.fpb_vector_access_control,
        FpbVectorAccessControl {
            fpb_vector_access_offset: f(a, 0, 8),
            fpb_vector_select: match f::<u8>(a, 14, 2) {
                0 => FpbVectorSelect::Rid,
                1 => FpbVectorSelect::MemLow,
                2 => FpbVectorSelect::MemHigh,
                _ => FpbVectorSelect::Reserved,
            },
        },
        "vector access control"
    );
    eq!(v.fpb_vector_access_data, r32(s, 30) as u32, "vector access data");
}
