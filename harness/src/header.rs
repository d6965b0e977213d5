use crate::util::*;
use pcics::header::*;

fn x_status<const T: char>(w: u64) -> Status<T> {
    Status {
        reserved: f(w, 0, 3),
        interrupt_status: bit(w, 3),
        capabilities_list: bit(w, 4),
        is_66mhz_capable: bit(w, 5),
        user_definable_features: bit(w, 6),
        fast_back_to_back_capable: bit(w, 7),
        master_data_parity_error: bit(w, 8),
        devsel_timing: match (bit(w, 10), bit(w, 9)) {
            (false, false) => DevselTiming::Fast,
            (false, true) => DevselTiming::Medium,
            (true, false) => DevselTiming::Slow,
            (true, true) => DevselTiming::Undefined,
        },
        signaled_target_abort: bit(w, 11),
        received_target_abort: bit(w, 12),
        received_master_abort: bit(w, 13),
        system_error: bit(w, 14),
        detected_parity_error: bit(w, 15),
    }
}

fn x_command(w: u64) -> Command {
    Command {
        io_space: bit(w, 0),
        memory_space: bit(w, 1),
        bus_master: bit(w, 2),
        special_cycles: bit(w, 3),
        memory_write_and_invalidate_enable: bit(w, 4),
        vga_palette_snoop: bit(w, 5),
        parity_error_response: bit(w, 6),
        stepping: bit(w, 7),
        serr_enable: bit(w, 8),
        fast_back_to_back_enable: bit(w, 9),
        interrupt_disable: bit(w, 10),
        reserved: f(w, 11, 5),
    }
}

fn x_rom(w: u64) -> ExpansionRom {
    ExpansionRom { address: (w as u32) & 0xffff_f800, reserved: f(w, 1, 10), is_enabled: bit(w, 0) }
}

fn x_pin(b: u8) -> InterruptPin {
    match b {
        0 => InterruptPin::Unused,
        1 => InterruptPin::IntA,
        2 => InterruptPin::IntB,
        3 => InterruptPin::IntC,
        4 => InterruptPin::IntD,
        v => InterruptPin::Reserved(v),
    }
}

fn x_bridge_control(w: u64) -> BridgeControl {
    BridgeControl {
        parity_error_response_enable: bit(w, 0),
        serr_enable: bit(w, 1),
        isa_enable: bit(w, 2),
        vga_enable: bit(w, 3),
        vga_16_enable: bit(w, 4),
        master_abort_mode: bit(w, 5),
        secondary_bus_reset: bit(w, 6),
        fast_back_to_back_enable: bit(w, 7),
        primary_discard_timer: bit(w, 8),
        secondary_discard_timer: bit(w, 9),
        discard_timer_status: bit(w, 10),
        discard_timer_serr_enable: bit(w, 11),
    }
}

fn x_cb_control(w: u64) -> CardbusBridgeControl {
    CardbusBridgeControl {
        parity_error_response_enable: bit(w, 0),
        serr_enable: bit(w, 1),
        isa_enable: bit(w, 2),
        vga_enable: bit(w, 3),
        master_abort_mode: bit(w, 5),
        cardbus_reset: bit(w, 6),
        ireq_int_enable: bit(w, 7),
        memory_0_prefetch_enable: bit(w, 8),
        memory_1_prefetch_enable: bit(w, 9),
        write_posting_enable: bit(w, 10),
    }
}

fn x_io_range(s: &[u8]) -> BridgeIoAddressRange {
    let (b, l) = (s[0x1c], s[0x1d]);
    let (bu, lu) = (r16(s, 0x30) as u32, r16(s, 0x32) as u32);
    if b == 0 && l == 0 {
        return BridgeIoAddressRange::NotImplemented;
    }
    if b & 15 != l & 15 {
        return BridgeIoAddressRange::Malformed { base: b, limit: l };
    }
    match b & 15 {
        0 => BridgeIoAddressRange::IoAddr16 { base: ((b >> 4) as u16) * 0x1000, limit: ((l >> 4) as u16) * 0x1000 },
        1 => BridgeIoAddressRange::IoAddr32 {
            base: bu * 0x10000 + ((b >> 4) as u32) * 0x1000,
            limit: lu * 0x10000 + ((l >> 4) as u32) * 0x1000,
        },
        _ => BridgeIoAddressRange::Reserved { base: b, limit: l },
    }
}

fn x_pref(s: &[u8]) -> BridgePrefetchableMemory {
    let (b, l) = (r16(s, 0x24) as u16, r16(s, 0x26) as u16);
    let (bu, lu) = (r32(s, 0x28), r32(s, 0x2c));
    if b == 0 && l == 0 {
        return BridgePrefetchableMemory::NotImplemented;
    }
    if b & 15 != l & 15 {
        return BridgePrefetchableMemory::Malformed { base: b, limit: l };
    }
    match b & 15 {
        0 => BridgePrefetchableMemory::MemAddr32 {
            base: ((b >> 4) as u32) * 0x10_0000,
            limit: ((l >> 4) as u32) * 0x10_0000,
        },
        1 => BridgePrefetchableMemory::MemAddr64 {
            base: (bu << 32) + ((b >> 4) as u64) * 0x10_0000,
            limit: (lu << 32) + ((l >> 4) as u64) * 0x10_0000,
        },
        _ => BridgePrefetchableMemory::Reserved { base: b, limit: l },
    }
}

fn x_cb_io(s: &[u8], o: usize) -> IoAccessAddressRange {
    let (bl, bu, ll, lu) = (r16(s, o) as u16, r16(s, o + 2) as u16, r16(s, o + 4) as u16, r16(s, o + 6) as u16);
    match bl & 3 {
        0 => IoAccessAddressRange::Addr16Bit { base: bl & 0xfffc, limit: ll & 0xfffc },
        1 => IoAccessAddressRange::Addr32Bit {
            base: (bu as u32) << 16 | (bl & 0xfffc) as u32,
            limit: (lu as u32) << 16 | (ll & 0xfffc) as u32,
        },
        c => IoAccessAddressRange::Unknown {
            io_address_capability: c as u8,
            base_lower: bl & 0xfffc,
            base_upper: bu,
            limit_lower: ll & 0xfffc,
            limit_upper: lu,
        },
    }
}

/// registers shared by all header layouts
fn common(h: &Header, s: &[u8]) {
    eq!(h.vendor_id, r16(s, 0) as u16, "vendor id");
    eq!(h.device_id, r16(s, 2) as u16, "device id");
    eq!(h.command, x_command(r16(s, 4)), "command");
    eq!(h.status, x_status::<'P'>(r16(s, 6)), "status");
    eq!(h.revision_id, s[8], "revision id");
    eq!(h.class_code.interface, s[9], "programming interface");
    eq!(h.class_code.sub, s[10], "sub class");
    eq!(h.class_code.base, s[11], "base class");
    eq!(h.cache_line_size, s[12], "cache line size");
    eq!(h.latency_timer, s[13], "latency timer");
    eq!(h.is_multi_function, bit(s[14] as u64, 7), "multi-function flag");
    eq!(
        h.bist,
        BuiltInSelfTest {
            is_capable: bit(s[15] as u64, 7),
            is_running: bit(s[15] as u64, 6),
            completion_code: s[15] & 15,
        },
        "BIST"
    );
}

#[inline(never)]
fn decode(s: &[u8]) -> Option<Header> {
    Header::try_from(s).ok()
}

/// C02: length handling and the registers every layout shares
#[no_mangle]
pub fn h_header_common(s: &[u8]) {
    let r = decode(s);
    eq!(r.is_some(), s.len() >= 64, "header decodes iff 64 bytes are present");
    if let Some(h) = r {
        reach!();
        common(&h, s);
        let layout = s[14] & 0x7f;
        eq!(u8::from(&h.header_type), layout, "header type code");
        let ok = match h.header_type {
            HeaderType::Normal(_) => layout == 0,
            HeaderType::Bridge(_) => layout == 1,
            HeaderType::Cardbus(_) => layout == 2,
            HeaderType::Reserved(v) => layout > 2 && v == layout,
        };
        ck!(ok, "layout selection");
        eq!(u8::from(h.header_type.clone()), layout, "header type code by value");
        if layout > 2 {
            reach!();
            eq!(h.capabilities_pointer, 0, "reserved layout has no capability list");
            eq!(h.interrupt_line, 0, "reserved layout interrupt line");
            eq!(h.interrupt_pin, InterruptPin::Unused, "reserved layout interrupt pin");
            ck!(h.header_type.expansion_rom().is_none(), "reserved layout expansion rom");
        }
        // the array conversion is the same function
        let mut a = [0u8; 64];
        a.copy_from_slice(&s[..64]);
        let g = Header::from(a);
        eq!(g.vendor_id, h.vendor_id, "array conversion vendor id");
        eq!(u8::from(&g.header_type), layout, "array conversion header type");
        eq!(g.capabilities_pointer, h.capabilities_pointer, "array conversion capability pointer");
        eq!(g.command, h.command, "array conversion command");
        eq!(g.status, h.status, "array conversion status");
        eq!(g.interrupt_pin, h.interrupt_pin, "array conversion interrupt pin");
    }
}

/// C03: type 0
#[no_mangle]
pub fn h_header_normal(s: &[u8]) {
    if s.len() < 64 || s[14] & 0x7f != 0 {
        return;
    }
    let h = match decode(s) {
        Some(h) => h,
        None => return ck!(false, "type 0 header decodes"),
    };
    reach!();
    eq!(h.capabilities_pointer, s[0x34] & 0xfc, "capability pointer");
    eq!(h.interrupt_line, s[0x3c], "interrupt line");
    eq!(h.interrupt_pin, x_pin(s[0x3d]), "interrupt pin");
    eq!(h.header_type.expansion_rom(), Some(x_rom(r32(s, 0x30))), "expansion rom accessor");
    if let HeaderType::Normal(n) = h.header_type {
        let o = n.base_addresses.orig();
        let mut i = 0;
        while i < 6 {
            eq!(o[i], r32(s, 0x10 + 4 * i) as u32, "base address register");
            i += 1;
        }
        eq!(n.cardbus_cis_pointer, r32(s, 0x28) as u32, "CIS pointer");
        eq!(n.sub_vendor_id, r16(s, 0x2c) as u16, "subsystem vendor id");
        eq!(n.sub_device_id, r16(s, 0x2e) as u16, "subsystem id");
        eq!(n.expansion_rom, x_rom(r32(s, 0x30)), "expansion rom");
        eq!(n.min_grant, s[0x3e], "min grant");
        eq!(n.max_latency, s[0x3f], "max latency");
    } else {
        ck!(false, "type 0 layout");
    }
}

/// C03: type 1
#[no_mangle]
pub fn h_header_bridge(s: &[u8]) {
    if s.len() < 64 || s[14] & 0x7f != 1 {
        return;
    }
    let h = match decode(s) {
        Some(h) => h,
        None => return ck!(false, "type 1 header decodes"),
    };
    reach!();
    eq!(h.capabilities_pointer, s[0x34] & 0xfc, "capability pointer");
    eq!(h.interrupt_line, s[0x3c], "interrupt line");
    eq!(h.interrupt_pin, x_pin(s[0x3d]), "interrupt pin");
    eq!(h.header_type.expansion_rom(), Some(x_rom(r32(s, 0x38))), "expansion rom accessor");
    if let HeaderType::Bridge(n) = h.header_type {
        let o = n.base_addresses.orig();
        eq!(o[0], r32(s, 0x10) as u32, "BAR 0");
        eq!(o[1], r32(s, 0x14) as u32, "BAR 1");
        eq!(n.primary_bus_number, s[0x18], "primary bus");
        eq!(n.secondary_bus_number, s[0x19], "secondary bus");
        eq!(n.subordinate_bus_number, s[0x1a], "subordinate bus");
        eq!(n.secondary_latency_timer, s[0x1b], "secondary latency timer");
        eq!(n.io_address_range, x_io_range(s), "I/O window");
        eq!(n.secondary_status, x_status::<'B'>(r16(s, 0x1e)), "secondary status");
        eq!(n.memory_base, r16(s, 0x20) as u16, "memory base");
        eq!(n.memory_limit, r16(s, 0x22) as u16, "memory limit");
        eq!(n.prefetchable_memory, x_pref(s), "prefetchable window");
        eq!(n.expansion_rom, x_rom(r32(s, 0x38)), "expansion rom");
        eq!(n.bridge_control, x_bridge_control(r16(s, 0x3e)), "bridge control");
    } else {
        ck!(false, "type 1 layout");
    }
}

/// C03: type 2
#[no_mangle]
pub fn h_header_cardbus(s: &[u8]) {
    if s.len() < 64 || s[14] & 0x7f != 2 {
        return;
    }
    let h = match decode(s) {
        Some(h) => h,
        None => return ck!(false, "type 2 header decodes"),
    };
    reach!();
    eq!(h.capabilities_pointer, s[0x14] & 0xfc, "capability pointer");
    eq!(h.interrupt_line, s[0x3c], "interrupt line");
    eq!(h.interrupt_pin, x_pin(s[0x3d]), "interrupt pin");
    ck!(h.header_type.expansion_rom().is_none(), "no expansion rom");
    if let HeaderType::Cardbus(mut n) = h.header_type {
        eq!(n.base_addresses.orig()[0], r32(s, 0x10) as u32, "BAR 0");
        eq!(n.secondary_status, x_status::<'C'>(r16(s, 0x16)), "secondary status");
        eq!(n.pci_bus_number, s[0x18], "PCI bus");
        eq!(n.cardbus_bus_number, s[0x19], "CardBus bus");
        eq!(n.subordinate_bus_number, s[0x1a], "subordinate bus");
        eq!(n.cardbus_latency_timer, s[0x1b], "latency timer");
        eq!(n.memory_base_address_0, r32(s, 0x1c) as u32, "memory base 0");
        eq!(n.memory_limit_address_0, r32(s, 0x20) as u32, "memory limit 0");
        eq!(n.memory_base_address_1, r32(s, 0x24) as u32, "memory base 1");
        eq!(n.memory_limit_address_1, r32(s, 0x28) as u32, "memory limit 1");
        eq!(n.io_access_address_range_0, x_cb_io(s, 0x2c), "I/O window 0");
        eq!(n.io_access_address_range_1, x_cb_io(s, 0x34), "I/O window 1");
        eq!(n.bridge_control, x_cb_control(r16(s, 0x3e)), "bridge control");
        ck!(n.subsystem_vendor_id.is_none(), "no optional registers yet");
        ck!(n.subsystem_device_id.is_none(), "no optional registers yet");
        ck!(n.legacy_mode_base_address.is_none(), "no optional registers yet");
        ck!(n.reserved.is_none(), "no optional registers yet");
        let d = &s[64..];
        let r = n.try_set_optional_registers(d);
        eq!(r.is_ok(), d.len() >= 64, "optional registers set iff 64 bytes are present");
        if d.len() >= 64 {
            reach!();
            eq!(n.subsystem_vendor_id, Some(r16(d, 0) as u16), "subsystem vendor id");
            eq!(n.subsystem_device_id, Some(r16(d, 2) as u16), "subsystem id");
            eq!(n.legacy_mode_base_address, Some(r32(d, 4) as u32), "legacy mode base");
            match n.reserved {
                Some(a) => {
                    let mut i = 0;
                    while i < 56 {
                        eq!(a[i], d[8 + i], "reserved area");
                        i += 1;
                    }
                }
                None => ck!(false, "reserved area present"),
            }
        } else {
            ck!(n.subsystem_vendor_id.is_none() && n.subsystem_device_id.is_none(), "failed set leaves registers unset");
            ck!(n.legacy_mode_base_address.is_none() && n.reserved.is_none(), "failed set leaves registers unset");
        }
    } else {
        ck!(false, "type 2 layout");
    }
}

fn x_bar_type(lo: u32, hi: Option<u32>) -> BaseAddressType {
    let prefetchable = lo & 8 == 8;
    if lo & 1 == 1 {
        return BaseAddressType::IoSpace { base_address: lo & 0xffff_fffc };
    }
    let base_address = lo & 0xffff_fff0;
    match (lo >> 1) & 3 {
        0 => BaseAddressType::MemorySpace32 { prefetchable, base_address },
        1 => BaseAddressType::MemorySpaceBelow1M { prefetchable, base_address },
        2 => match hi {
            Some(h) => BaseAddressType::MemorySpace64 { prefetchable, base_address: (h as u64) << 32 | base_address as u64 },
            None => BaseAddressType::MemorySpace64Broken { prefetchable },
        },
        _ => BaseAddressType::MemorySpaceReserved { prefetchable, base_address },
    }
}

#[inline(always)]
fn bars<const N: usize>(s: &[u8]) {
    if s.len() < 4 * N {
        return;
    }
    let mut d = [0u32; N];
    let mut i = 0;
    while i < N {
        d[i] = r32(s, 4 * i) as u32;
        i += 1;
    }
    let b = BaseAddresses::new(d);
    let mut it = b.clone();
    // registers in order; a 64-bit low half consumes the next register; zero registers are skipped
    let mut upper = false;
    let mut back = [0u32; N];
    let mut i = 0;
    while i < N {
        if upper {
            upper = false;
        } else if d[i] != 0 {
            let hi = if i + 1 < N { Some(d[i + 1]) } else { None };
            let t = x_bar_type(d[i], hi);
            match it.next() {
                Some(g) => {
                    reach!();
                    eq!(g.region, i, "region number");
                    eq!(g.base_address_type, t, "base address type");
                }
                None => ck!(false, "missing base address"),
            }
            match t {
                BaseAddressType::MemorySpace64 { .. } => {
                    upper = true;
                    back[i] = d[i];
                    back[i + 1] = d[i + 1];
                }
                BaseAddressType::MemorySpaceReserved { .. } | BaseAddressType::MemorySpace64Broken { .. } => {}
                BaseAddressType::IoSpace { .. } => back[i] = d[i] & !2,
                _ => back[i] = d[i],
            }
        }
        i += 1;
    }
    ck!(it.next().is_none(), "no further base addresses");
    ck!(it.next().is_none(), "iterator stays finished");
    // registers -> base addresses -> registers
    let again: [u32; N] = b.clone().collect();
    let mut i = 0;
    while i < N {
        eq!(again[i], back[i], "register image rebuilt from base addresses");
        eq!(b.orig()[i], d[i], "original registers");
        i += 1;
    }
}

/// C04
#[no_mangle]
pub fn h_bars6(s: &[u8]) {
    bars::<6>(s)
}
#[no_mangle]
pub fn h_bars2(s: &[u8]) {
    bars::<2>(s)
}
#[no_mangle]
pub fn h_bars1(s: &[u8]) {
    bars::<1>(s)
}

/// C04, C27: equality of register sets is equality of what they describe, of those read in part that of what is left
#[inline(always)]
fn bars_eq<const N: usize>(s: &[u8]) {
    let (mut p, mut q) = ([0u32; N], [0u32; N]);
    let mut i = 0;
    while i < N {
        p[i] = r32(s, 4 * i) as u32;
        q[i] = r32(s, 4 * (N + i)) as u32;
        i += 1;
    }
    let (mut a, mut b) = (BaseAddresses::new(p), BaseAddresses::new(q));
    let k = s[8 * N];
    let mut i = 0;
    while i < k & 3 {
        a.next();
        i += 1;
    }
    let mut i = 0;
    while i < k >> 4 & 3 {
        b.next();
        i += 1;
    }
    let (mut x, mut y) = (a.clone(), b.clone());
    let mut same = true;
    let mut i = 0;
    while i < N + 1 {
        same &= x.next() == y.next();
        i += 1;
    }
    eq!(a == b, same, "equality of base address sets");
    ck!(a == a.clone(), "a copy is equal");
    reach!();
}
#[no_mangle]
pub fn h_bars_eq(s: &[u8]) {
    if s.len() >= 17 {
        bars_eq::<2>(s);
    }
}
#[no_mangle]
pub fn h_bars_eq3(s: &[u8]) {
    if s.len() >= 25 {
        bars_eq::<3>(s);
    }
}
#[no_mangle]
pub fn h_bars_eq6(s: &[u8]) {
    if s.len() >= 49 {
        bars_eq::<6>(s);
    }
}

/// C01: collecting into a smaller register array never panics
#[no_mangle]
pub fn h_bars_collect_small(s: &[u8]) {
    if s.len() < 24 {
        return;
    }
    let mut d = [0u32; 6];
    let mut i = 0;
    while i < 6 {
        d[i] = r32(s, 4 * i) as u32;
        i += 1;
    }
    let b = BaseAddresses::new(d);
    let _: [u32; 2] = b.clone().collect();
    let _: [u32; 1] = b.clone().collect();
    reach!();
}

/// C05: register <-> value conversions of the header
#[no_mangle]
pub fn h_header_roundtrip(s: &[u8]) {
    if s.len() < 8 {
        return;
    }
    let b = s[0];
    eq!(u8::from(InterruptPin::from(b)), b, "interrupt pin");
    eq!(InterruptPin::from(b), x_pin(b), "interrupt pin code");
    eq!(u8::from(BuiltInSelfTest::from(b)), b & 0xcf, "BIST");
    let r = [[r16(s, 0) as u16, r16(s, 2) as u16], [r16(s, 4) as u16, r16(s, 6) as u16]];
    let v = IoAccessAddressRange::from(r);
    eq!(v, x_cb_io(s, 0), "CardBus I/O window");
    let back: [[u16; 2]; 2] = v.clone().into();
    reach!();
    eq!(back[0][0], r[0][0], "CardBus I/O base with its address capability");
    eq!(back[1][0] & !3, r[1][0] & !3, "CardBus I/O limit");
    if r[0][0] & 3 != 0 {
        eq!(back[0][1], r[0][1], "CardBus I/O base upper");
        eq!(back[1][1], r[1][1], "CardBus I/O limit upper");
    }
    eq!(IoAccessAddressRange::from(back), v, "CardBus I/O window survives the round trip");
}
