//! Designated vendor specific capability and the CXL device DVSEC
use crate::util::*;
use pcics::extended_capabilities::designated_vendor_specific_extended_capability::*;
use compute_express_link::pcie_dvsec_for_cxl_device::*;
use compute_express_link::ComputeExpressLinkError;

/// capability header included
#[no_mangle]
pub fn h_dvsec(s: &[u8]) {
    use DesignatedVendorSpecificExtendedCapabilityError as E;
    use ComputeExpressLink as C;
    #[inline(never)]
    fn real(s: &[u8]) -> Result<DesignatedVendorSpecificExtendedCapability<'_>, E> {
        DesignatedVendorSpecificExtendedCapability::try_from(s)
    }
    let r = real(s);
    if s.len() < 10 {
        ck!(matches!(r, Err(E::Mandatory)), "mandatory registers missing");
        return;
    }
    let w = r32(s, 4);
    let (vendor, rev, len, id) = (f::<u16>(w, 0, 16), f::<u8>(w, 16, 4), f::<u16>(w, 20, 12), r16(s, 8) as u16);
    if (len as usize) < 10 || s.len() < len as usize {
        eq!(r, Err(E::VendorSpecificRegisters {
            dvsec_vendor_id: vendor, dvsec_revision: rev, dvsec_length: len, dvsec_id: id, real: s.len(),
        }), "registers missing");
        reach!();
        return;
    }
    let regs = &s[10..len as usize];
    if vendor == 0x1e98 && id == 0 && regs.len() < 46 {
        eq!(r, Err(E::ComputeExpressLink { source: ComputeExpressLinkError::PcieDvsecForCxlDevice }), "CXL device registers missing");
        reach!();
        return;
    }
    let Ok(v) = r else {
        ck!(false, "decodes when all its registers are present");
        return;
    };
    eq!(v.dvsec_vendor_id, vendor, "vendor");
    eq!(v.dvsec_revision, rev, "revision");
    eq!(v.dvsec_length, len, "length");
    eq!(v.dvsec_id, id, "id");
    match v.dvsec_type {
        DvsecType::Unspecified(d) => {
            ck!(vendor != 0x1e98, "not CXL");
            ck!(same(d, regs), "registers");
            reach!();
        }
        DvsecType::ComputeExpressLink(c) => {
            eq!(vendor, 0x1e98, "CXL");
            ck!(match c {
                C::PcieDvsecForCxlDevice(_) => id == 0,
                C::NonCxlFunctionMapDvsec(_) => id == 2,
                C::Cxl20ExtensionsDvsecForPorts(_) => id == 3,
                C::GpfDvsecForCxlPorts(_) => id == 4,
                C::GpfDvsecForCxlDevices(_) => id == 5,
                C::PcieDvsecForFlexBusPort(_) => id == 7,
                C::RegisterLocatorDvsec(_) => id == 8,
                C::MldDvsec(_) => id == 9,
                C::PcieDvsecForTestCapability(_) => id == 10,
                C::Undefined(i) => i == id && (id == 1 || id == 6 || id > 10),
            }, "kind of CXL DVSEC");
            reach!();
        }
    }
}

table!(hdm -> HdmCount { 0 => ZeroRanges, 1 => OneHdmRange, 2 => TwoHdmRanges, _ => Reserved });
table!(reset -> CxlResetTimeout { 0 => MaxTime10ms, 1 => MaxTime100ms, 2 => MaxTime1s, 3 => MaxTime10s, 4 => MaxTime100s, v => Reserved(v) });
table!(gran -> CacheSfGranularity {
    0 => Tracking64B, 1 => Tracking128B, 2 => Tracking256B, 3 => Tracking512B, 4 => Tracking1KB, 5 => Tracking2KB, 6 => Tracking4KB,
    _ => Reserved,
});
fn coverage(v: u8) -> CacheSfCoverage {
    if v == 0 {
        CacheSfCoverage::NoSnoopFilter
    } else {
        CacheSfCoverage::SnoopFilter(0x8000 << v)
    }
}
table!(clean -> CacheCleanEviction { 0 => Needed, _ => NotNeeded });
table!(unit -> CacheSizeUnit { 0 => NotReported, 1 => Unit64K, 2 => Unit1MB, v => Reserved(v) });
table!(media -> MediaType { 0 => Volatile, 1 => NonVolatile, 2 => Cdat, v => Reserved(v) });
table!(class -> MemoryClass { 0 => Memory, 1 => Storage, 2 => Cdat, v => Reserved(v) });
table!(leave -> DesiredInterleave {
    0 => NoInterleave, 1 => Granularity256B, 2 => Granularity4KB, 3 => Granularity512B, 4 => Granularity1KB, 5 => Granularity2KB,
    6 => Granularity8KB, 7 => Granularity16KB, v => Reserved(v),
});
table!(active -> MemoryActiveTimeout {
    0 => MaxTime1s, 1 => MaxTime4s, 2 => MaxTime16s, 3 => MaxTime64s, 4 => MaxTime256s, v => Reserved(v),
});
fn range(s: &[u8], o: usize) -> CxlRangeSize {
    let (hi, lo) = (r32(s, o), r32(s, o + 4));
    CxlRangeSize {
        memory_info_valid: bit(lo, 0),
        memory_active: bit(lo, 1),
        media_type: media(f(lo, 2, 3)),
        memory_class: class(f(lo, 5, 3)),
        desired_interleave: leave(f(lo, 8, 5)),
        memory_active_timeout: active(f(lo, 13, 3)),
        memory_size: (lo & 0xf000_0000) | hi << 32,
    }
}
fn base(s: &[u8], o: usize) -> u64 {
    (r32(s, o + 4) & 0xf000_0000) | r32(s, o) << 32
}
/// CXL device DVSEC: offsets are those of the DVSEC structure
#[no_mangle]
pub fn h_cxl(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<PcieDvsecForCxlDevice> {
        match ComputeExpressLink::try_new(s, 0) {
            Ok(ComputeExpressLink::PcieDvsecForCxlDevice(d)) => Some(d),
            _ => None,
        }
    }
    let r = real(s);
    eq!(r.is_some(), s.len() >= 46, "decodes exactly when its registers are present");
    let Some(v) = r else { return };
    let (w, c, t, c2, t2, l, p2) = (r16(s, 0), r16(s, 2), r16(s, 4), r16(s, 6), r16(s, 8), r16(s, 10), r16(s, 12));
    eq!(v.cxl_capability, regs!(w, CxlCapability {
        cache_capable@0, io_capable@1, mem_capable@2, mem_hwinit_mode@3, hdm_count@4:2 => hdm, cache_writeback_and_invalidate_capable@6,
        cxl_reset_capable@7, cxl_reset_timeout@8:3 => reset, cxl_reset_mem_clr_capable@11, multiple_logical_device@13, viral_capable@14,
        pm_init_completion_reporting_capable@15,
    }), "capability");
    eq!(v.cxl_control, regs!(c, CxlControl {
        cache_enable@0, io_enable@1, mem_enable@2, cache_sf_coverage@3:5 => coverage, cache_sf_granularity@8:3 => gran,
        cache_clean_eviction@11:1 => clean, viral_enable@14,
    }), "control");
    eq!(v.cxl_status, regs!(t, CxlStatus { viral_status@14 }), "status");
    eq!(v.cxl_control2, regs!(c2, CxlControl2 {
        disable_caching@0, initiate_cache_write_back_and_invalidation@1, initiate_cxl_reset@2, cxl_reset_mem_clr_enable@3,
    }), "control 2");
    eq!(v.cxl_status2, regs!(t2, CxlStatus2 {
        cache_invalid@0, cxl_reset_complete@1, cxl_reset_error@2, power_management_initialization_complete@15,
    }), "status 2");
    eq!(v.cxl_lock, regs!(l, CxlLock { config_lock@0 }), "lock");
    eq!(v.cxl_capability2, regs!(p2, CxlCapability2 { cache_size_unit@0:4 => unit, cache_size@8:8 }), "capability 2");
    eq!(v.cxl_range_1_size, range(s, 14), "range 1 size");
    eq!(v.cxl_range_1_base.memory_base & !0xfff_ffff, base(s, 22), "range 1 base");
    eq!(v.cxl_range_2_size, range(s, 30), "range 2 size");
    eq!(v.cxl_range_2_base.memory_base & !0xfff_ffff, base(s, 38), "range 2 base");
    #[inline(never)]
    fn enc(x: CacheSfCoverage) -> u8 {
        x.into()
    }
    eq!(enc(v.cxl_control.cache_sf_coverage), f::<u8>(c, 3, 5), "snoop filter coverage round trip");
    reach!();
}
