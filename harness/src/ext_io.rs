//! Power budgeting, ACS, ARI, ATS, PRI, PASID, TPH, LTR, Multicast, SR-IOV, (VF) Resizable BAR
use crate::util::*;
use pcics::extended_capabilities::access_control_services::*;
use pcics::extended_capabilities::address_translation_services::*;
use pcics::extended_capabilities::alternative_routing_id_interpolation::*;
use pcics::extended_capabilities::latency_tolerance_reporting::*;
use pcics::extended_capabilities::multicast::*;
use pcics::extended_capabilities::page_request_interface::*;
use pcics::extended_capabilities::process_address_space_id::*;
use pcics::extended_capabilities::resizable_bar::*;
use pcics::extended_capabilities::single_root_io_virtualization::*;
use pcics::extended_capabilities::tph_requester::*;
use pcics::header::BaseAddresses;

#[no_mangle]
pub fn h_acs(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<AccessControlServices<'_>> {
        AccessControlServices::try_from(s).ok()
    }
    let r = real(s);
    eq!(r.is_some(), s.len() >= 4, "decodes exactly when its registers are present");
    let Some(v) = r else { return };
    let (w, c) = (r16(s, 0), r16(s, 2));
    eq!(v.acs_capability, regs!(w, AcsCapability {
        acs_source_validation@0, acs_translation_blocking@1, acs_p2p_request_redirect@2, acs_p2p_completion_redirect@3,
        acs_upstream_forwarding@4, acs_p2p_egress_control@5, acs_direct_translated_p2p@6, egress_control_vector_size@8:8,
    }), "capability");
    eq!(v.acs_control, regs!(c, AcsControl {
        acs_source_validation_enable@0, acs_translation_blocking_enable@1, acs_p2p_request_redirect_enable@2,
        acs_p2p_completion_redirect_enable@3, acs_upstream_forwarding_enable@4, acs_p2p_egress_control_enable@5,
        acs_direct_translated_p2p_enable@6,
    }), "control");
    reach!();
}
/// the egress control vector: `size` bits, present when all its dwords are
#[no_mangle]
pub fn h_acs_vector(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<AccessControlServices<'_>> {
        AccessControlServices::try_from(s).ok()
    }
    let Some(v) = real(s) else { return };
    let size = s[1] as usize;
    let bytes = (size + 31) / 32 * 4;
    let n = if s.len() >= 4 + bytes { size } else { 0 };
    let mut it = v.egress_control_vectors();
    let mut i = 0;
    while i < n {
        let x = it.next();
        eq!(x, Some((s[4 + i / 8] >> (i % 8)) & 1 == 1), "egress control bit");
        if x.is_none() {
            return;
        }
        i += 1;
    }
    eq!(it.next(), None, "as many bits as announced");
    eq!(it.next(), None, "ended for good");
    if n > 32 {
        reach!();
    }
    if n == 0 && size > 0 {
        reach!();
    }
}

fn ari(s: &[u8]) -> AlternativeRoutingIdInterpretation {
    let (w, c) = (r16(s, 0), r16(s, 2));
    AlternativeRoutingIdInterpretation {
        ari_capability: regs!(w, AriCapability {
            mfvc_function_groups_capability@0, acs_function_groups_capability@1, next_function_number@8:8,
        }),
        ari_control: regs!(c, AriControl { mfvc_function_groups_enable@0, acs_function_groups_enable@1, function_group@4:3 }),
    }
}
decodes!(h_ari, AlternativeRoutingIdInterpretation, 4, ari);
fn ats(s: &[u8]) -> AddressTranslationServices {
    let (w, c) = (r16(s, 0), r16(s, 2));
    AddressTranslationServices {
        ats_capability: regs!(w, AtsCapability { invalidate_queue_depth@0:5, page_aligned_request@5, global_invalidate_supported@6 }),
        ats_control: regs!(c, AtsControl { smallest_translation_unit@0:5, enable@15 }),
    }
}
decodes!(h_ats, AddressTranslationServices, 4, ats);
fn pri(s: &[u8]) -> PageRequestInterface {
    let (c, t) = (r16(s, 0), r16(s, 2));
    PageRequestInterface {
        page_request_control: regs!(c, PageRequestControl { enable@0, reset@1 }),
        page_request_status: regs!(t, PageRequestStatus {
            response_failure@0, unexpected_page_request_group_index@1, stopped@8, prg_response_pasid_required@15,
        }),
        outstanding_page_request_capacity: r32(s, 4) as u32,
        outstanding_page_request_allocation: r32(s, 8) as u32,
    }
}
decodes!(h_pri, PageRequestInterface, 12, pri);
fn pasid(s: &[u8]) -> ProcessAddressSpaceId {
    let (w, c) = (r16(s, 0), r16(s, 2));
    ProcessAddressSpaceId {
        pacid_capability: regs!(w, PacidCapability { execute_permission_supported@1, privileged_mode_supported@2, max_pasid_width@8:5 }),
        pacid_control: regs!(c, PacidControl { pasid_enable@0, execute_permission_enable@1, privileged_mode_enable@2 }),
    }
}
decodes!(h_pasid, ProcessAddressSpaceId, 4, pasid);

table!(st_mode -> StModeSelect { 0 => NoStMode, 1 => InterruptVectorMode, 2 => DeviceSpecificMode, v => Reserved(v) });
table!(tph_enable -> TphRequesterEnable { 0 => NotPermitted, 1 => TphPermitted, 2 => Reserved, _ => TphAndExtendedTphPermitted });
#[no_mangle]
pub fn h_tph(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<TphRequester<'_>> {
        TphRequester::try_from(s).ok()
    }
    let r = real(s);
    eq!(r.is_some(), s.len() >= 8, "decodes exactly when its registers are present");
    let Some(v) = r else { return };
    let (w, c) = (r32(s, 0), r32(s, 4));
    let p = &v.tph_requester_capability;
    eq!(p.no_st_mode_supported, bit(w, 0), "no ST mode");
    eq!(p.interrupt_vector_mode_supported, bit(w, 1), "interrupt vector mode");
    eq!(p.device_specific_mode_supported, bit(w, 2), "device specific mode");
    eq!(p.extended_tph_requester_supported, bit(w, 8), "extended TPH");
    let n = f::<u16>(w, 16, 11);
    let tail = &s[8..];
    let (loc, end) = ((w >> 9) & 3, 2 * (n as usize + 1));
    match p.st_table {
        StTable::NotPresent => {
            eq!(loc, 0, "not present");
            reach!();
        }
        StTable::Valid { size, data } => {
            ck!(loc == 1 && n < 64 && end <= tail.len(), "valid only when the whole table is here");
            eq!(size, n, "size");
            ck!(end <= tail.len() && same(data, &tail[..end]), "table");
            reach!();
        }
        StTable::Invalid { size, data } => {
            ck!(loc == 1 && (n >= 64 || end > tail.len()), "invalid only when oversized or truncated");
            eq!(size, n, "size");
            ck!(same(data, tail), "table");
            reach!();
        }
        StTable::MsiXTable { size } => {
            eq!(loc, 2, "in the MSI-X table");
            eq!(size, n, "size");
            reach!();
        }
        StTable::Reserved => eq!(loc, 3, "reserved"),
    }
    eq!(v.tph_requester_control, regs!(c, TphRequesterControl { st_mode_select@0:3 => st_mode, tph_requester_enable@8:2 => tph_enable }), "control");
}

fn latency(w: u64) -> MaxLatency {
    MaxLatency { value: f(w, 0, 10), scale: f(w, 10, 3) }
}
fn ltr(s: &[u8]) -> LatencyToleranceReporting {
    LatencyToleranceReporting { max_snoop_latency: latency(r16(s, 0)), max_no_snoop_latency: latency(r16(s, 2)) }
}
decodes!(h_ltr, LatencyToleranceReporting, 4, ltr);
#[no_mangle]
pub fn h_ltr_value(s: &[u8]) {
    #[inline(never)]
    fn dec(w: u16) -> MaxLatency {
        MaxLatency::from(w)
    }
    #[inline(never)]
    fn ns(l: &MaxLatency) -> usize {
        l.value()
    }
    #[inline(never)]
    fn enc(l: MaxLatency) -> u16 {
        l.into()
    }
    if s.len() < 2 {
        return;
    }
    let w = r16(s, 0);
    let l = dec(w as u16);
    let (v, e) = ((w & 0x3ff) as usize, (w >> 10) & 7);
    let mut x = v;
    for _ in 0..5.min(e) {
        x *= 32;
    }
    eq!(ns(&l), if e > 5 { 0 } else { x }, "latency in ns");
    eq!(enc(l), (w & 0x1fff) as u16, "round trip");
    reach!();
}

#[no_mangle]
pub fn h_multicast(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<Multicast> {
        Multicast::try_from(s).ok()
    }
    let r = real(s);
    eq!(r.is_some(), s.len() >= 0x28, "decodes exactly when its registers are present");
    let Some(v) = r else { return };
    let (w, c, b) = (r16(s, 4), r16(s, 6), r64(s, 8));
    eq!(v.multicast_capability, regs!(w, MulticastCapability {
        mc_max_group@0:6, mc_window_size_requested@8:6, mc_ecrc_regeneration_supported@15,
    }), "capability");
    eq!(v.multicast_control, regs!(c, MulticastControl { mc_num_group@0:6, mc_enable@15 }), "control");
    eq!(v.mc_base_address, McBaseAddress { mc_index_position: f(b, 0, 6), mc_base_address: b & !0xfff }, "base address");
    eq!(v.mc_receive, r64(s, 0x10), "receive");
    eq!(v.mc_block_all, r64(s, 0x18), "block all");
    eq!(v.mc_block_untranslated, r64(s, 0x20), "block untranslated");
    eq!(v.mc_overlay_bar.is_some(), s.len() >= 0x30, "overlay BAR present");
    if let Some(o) = v.mc_overlay_bar {
        let b = r64(s, 0x28);
        eq!(o, McOverlayBar { mc_overlay_size: f(b, 0, 6), mc_overlay_bar: b & !0x3f }, "overlay BAR");
        reach!();
    } else {
        reach!();
    }
}

fn sriov(s: &[u8]) -> SingleRootIoVirtualization {
    let (w, c, t) = (r32(s, 0), r16(s, 4), r16(s, 6));
    let mut bars = [0u32; 6];
    for i in 0..6 {
        bars[i] = r32(s, 32 + 4 * i) as u32;
    }
    SingleRootIoVirtualization {
        sriov_capabilities: regs!(w, SriovCapabilities {
            vf_migration_capable@0, ari_capable_hierarchy_preserved@1, vf_10bit_tag_requester_supported@2,
            vf_migration_interrupt_message_number@21:11,
        }),
        sriov_control: regs!(c, SriovControl {
            vf_enable@0, vf_migration_enable@1, vf_migration_interrupt_enable@2, vf_mse@3, ari_capable_hierarchy@4,
            vf_10bit_tag_requester_enable@5,
        }),
        sriov_status: SriovStatus { vf_migration_status: bit(t, 0) },
        initial_vfs: r16(s, 8) as u16,
        total_vfs: r16(s, 10) as u16,
        num_vfs: r16(s, 12) as u16,
        function_dependency_link: s[14],
        first_vf_offset: r16(s, 16) as u16,
        vf_stride: r16(s, 18) as u16,
        vf_device_id: r16(s, 22) as u16,
        page_sizes: PageSizes { supported: r32(s, 24) as u32, system: r32(s, 28) as u32 },
        base_addresses: BaseAddresses::new(bars),
        vf_migration_state_array_offset: r32(s, 56) as u32,
    }
}
#[no_mangle]
pub fn h_sriov(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<SingleRootIoVirtualization> {
        SingleRootIoVirtualization::try_from(s).ok()
    }
    let r = real(s);
    eq!(r.is_some(), s.len() >= 60, "decodes exactly when its registers are present");
    let Some(v) = r else { return };
    let x = sriov(s);
    eq!(v.sriov_capabilities, x.sriov_capabilities, "capabilities");
    eq!(v.sriov_control, x.sriov_control, "control");
    eq!(v.sriov_status, x.sriov_status, "status");
    eq!(v.initial_vfs, x.initial_vfs, "initial VFs");
    eq!(v.total_vfs, x.total_vfs, "total VFs");
    eq!(v.num_vfs, x.num_vfs, "number of VFs");
    eq!(v.function_dependency_link, x.function_dependency_link, "dependency link");
    eq!(v.first_vf_offset, x.first_vf_offset, "first VF offset");
    eq!(v.vf_stride, x.vf_stride, "VF stride");
    eq!(v.vf_device_id, x.vf_device_id, "VF device id");
    eq!(v.page_sizes, x.page_sizes, "page sizes");
    eq!(v.vf_migration_state_array_offset, x.vf_migration_state_array_offset, "migration state array offset");
    ck!(v.base_addresses.orig() == x.base_addresses.orig(), "VF BARs");
    reach!();
}

/// (VF) Resizable BAR, capability header included
#[no_mangle]
pub fn h_rebar(s: &[u8]) {
    use ResizableBarError as E;
    #[inline(never)]
    fn real(s: &[u8]) -> Result<ResizableBar<'_>, E> {
        ResizableBar::try_from(s)
    }
    #[inline(never)]
    fn next(i: &mut ResizableBar<'_>) -> Option<ResizableBarEntry> {
        i.next()
    }
    let r = real(s);
    if s.len() < 12 {
        ck!(matches!(r, Err(E::FirstEntry)), "no entry");
        return;
    }
    let n = (s[8] >> 5) as usize;
    if n == 0 || n == 7 {
        ck!(matches!(r, Err(E::NumberOfResizableBars { value }) if value == n), "number of entries out of range");
        reach!();
        return;
    }
    if s.len() < 4 + 8 * n {
        ck!(matches!(r, Err(E::ShortData)), "entries missing");
        reach!();
        return;
    }
    let Ok(mut it) = r else {
        ck!(false, "decodes when all entries are present");
        return;
    };
    let mut i = 0;
    while i < n {
        let o = 4 + 8 * i;
        let x = next(&mut it);
        ck!(x.is_some(), "as many entries as announced");
        let Some(x) = x else { return };
        let c = r32(s, o + 4);
        eq!(x.capability.support_map_from_1mb_to_128tb, r32(s, o) as u32, "capability");
        eq!(x.control, regs!(c, ResizableBarControl {
            bar_index@0:3, number_of_resizable_bars@5:3, bar_size@8:6, support_map_from_256tb_to_8eb@16:16,
        }), "control");
        i += 1;
    }
    ck!(next(&mut it).is_none(), "no more entries than announced");
    ck!(next(&mut it).is_none(), "ended for good");
    if n == 6 {
        reach!();
    }
}
#[no_mangle]
pub fn h_rebar_sizes(s: &[u8]) {
    #[inline(never)]
    fn supports(e: &ResizableBarEntry, p: usize) -> bool {
        e.is_function_supports_power_of_two(p)
    }
    if s.len() < 9 {
        return;
    }
    let e = ResizableBarEntry {
        capability: ResizableBarCapability::from(r32(s, 0) as u32),
        control: ResizableBarControl::from(r32(s, 4) as u32),
    };
    let p = s[8] as u64;
    let want = if p < 20 || p > 63 {
        false
    } else if p < 48 {
        bit(r32(s, 0), (p - 16) as u32)
    } else {
        bit(r32(s, 4), (p - 48 + 16) as u32)
    };
    eq!(supports(&e, p as usize), want, "supported size");
    if want {
        reach!();
    }
}
