//! Multi-Function Virtual Channel (offsets include the 4 byte header)
use crate::ext_vc::{cap2, ctl, phases, port_phases, st};
use crate::util::*;
use pcics::extended_capabilities::multifunction_virtual_channel::*;

table!(clock -> ReferenceClock { 0 => Rc100ns, v => Reserved(v) });
table!(fsel -> FunctionArbitrationSelect { 0 => HardwareFixedArbitration, 1 => Wrr32phases, 2 => Wrr64phases, 3 => Wrr128phases,
    4 => TimeBasedWrr128phases, 5 => Wrr256phases, v => Reserved(v) });

#[inline(never)]
fn real(s: &[u8]) -> Result<MultifunctionVirtualChannel<'_>, MultifunctionVirtualChannelError> {
    MultifunctionVirtualChannel::try_from(s)
}
fn cap(w: u64) -> VcResourceCapability {
    VcResourceCapability {
        function_arbitration_capability: regs!(w, FunctionArbitrationCapability {
            hardware_fixed_arbitration@0, wrr_32_phases@1, wrr_64_phases@2, wrr_128_phases@3, time_based_wrr_128_phases@4,
            wrr_256_phases@5, reserved@6:2,
        }),
        maximum_time_slots: f(w, 16, 7),
        function_arbitration_table_offset: f(w, 24, 8),
    }
}
fn control(c: u64) -> VcResourceControl {
    regs!(c, VcResourceControl {
        tc_to_vc_map@0:8, load_function_arbitration_table@16, function_arbitration_select@17:3 => fsel, vc_id@24:3, vc_enable@31,
    })
}
fn status(t: u64) -> VcResourceStatus {
    regs!(t, VcResourceStatus { function_arbitration_table_status@0, vc_negotiation_pending@1 })
}

#[no_mangle]
pub fn h_mfvc(s: &[u8]) {
    use MultifunctionVirtualChannelError::*;
    let r = real(s);
    if s.len() < 16 {
        eq!(r, Err(PortVcData), "registers missing");
        return;
    }
    let off = s[11] as usize * 16;
    let len = phases(f(r16(s, 12), 1, 3)) / 2;
    if off == 16 {
        eq!(r, Err(VcArbitrationTableOffset), "table inside the registers");
        return;
    }
    if off > s.len() {
        eq!(r, Err(VcArbitrationTableData), "table outside");
        return;
    }
    if off != 0 && off + len > s.len() {
        eq!(r, Err(VcArbitrationTableLength { expected: len, real: s.len() - off }), "table truncated");
        reach!();
        return;
    }
    let Ok(v) = r else {
        ck!(false, "decodes when all its registers are present");
        return;
    };
    let w = r32(s, 4);
    eq!(v.port_vc_capability_1, regs!(w, PortVcCapability1 {
        extended_vc_count@0:3, low_priority_extended_vc_count@4:3, reference_clock@8:2 => clock,
        function_arbitration_table_entry_size@10:2 => FunctionArbitrationTableEntrySize,
    }), "capability 1");
    eq!(v.port_vc_capability_1.function_arbitration_table_entry_size.bits(), 1usize << f::<u8>(w, 10, 2), "entry size");
    eq!(v.port_vc_capability_2, cap2(r32(s, 8)), "capability 2");
    eq!(v.port_vc_control, ctl(r16(s, 12)), "control");
    eq!(v.port_vc_status, st(r16(s, 14)), "status");
    eq!(v.vc_arbitration_table.is_some(), off != 0, "VC arbitration table present");
    if let Some(t) = v.vc_arbitration_table {
        if off != 0 {
            ck!(t == VcArbitrationTable::new(&s[off..off + len]), "VC arbitration table");
            reach!();
        }
    }
}

#[no_mangle]
pub fn h_mfvc_channels(s: &[u8]) {
    let Ok(v) = real(s) else { return };
    let n = f::<u8>(r32(s, 4), 0, 3) as usize + 1;
    let bits = 1usize << f::<u8>(r32(s, 4), 10, 2);
    let mut it = v.extended_virtual_channels;
    let mut i = 0;
    while i < 9 {
        let r = it.next();
        let o = 16 + 12 * i;
        let there = i < n && s.len() >= o + 12;
        eq!(r.is_some(), there, "number of VC resources");
        if !there {
            ck!(it.next().is_none(), "ended for good");
            return;
        }
        let Some(x) = r else { return };
        eq!(x.vc_resource_capability, cap(r32(s, o)), "VC resource capability");
        eq!(x.vc_resource_control, control(r32(s, o + 4)), "VC resource control");
        eq!(x.vc_resource_status, status(r16(s, o + 10)), "VC resource status");
        let t = s[o + 3] as usize * 16;
        let len = bits * port_phases(f(r32(s, o + 4), 17, 3)) / 8;
        let has = t >= 32 && t + len <= s.len();
        eq!(x.function_arbitration_table.is_some(), has, "function arbitration table present");
        if let Some(t2) = x.function_arbitration_table {
            if has {
                ck!(t2 == FunctionArbitrationTable::new(&s[t..t + len], bits), "function arbitration table");
                if len > 0 {
                    reach!();
                }
            }
        }
        i += 1;
    }
}
/// entries of a function arbitration table: 8/bits per byte, lowest first
#[no_mangle]
pub fn h_mfvc_entries(s: &[u8]) {
    let Some((&k, d)) = s.split_first() else { return };
    if k > 3 {
        return;
    }
    let bits = 1usize << k;
    let mut t = FunctionArbitrationTable::new(d, bits);
    let mut i = 0;
    while i < d.len() * 8 / bits {
        let x = (d[i * bits / 8] >> (i * bits % 8)) & ((1u16 << bits) - 1) as u8;
        eq!(t.next(), FunctionArbitrationTable::new(&[x], 8).next(), "entry");
        if i == 9 {
            reach!();
        }
        i += 1;
    }
    ck!(t.next().is_none(), "ends");
    ck!(t.next().is_none(), "ended for good");
}
/// the encoders are the inverse of the decoders on the defined bits
#[no_mangle]
pub fn h_mfvc_roundtrip(s: &[u8]) {
    codes!(s; FunctionArbitrationSelect, 3, fsel);
    if s.len() < 12 {
        return;
    }
    eq!(fsel(s[0] & 7).function_arbitration_table_length(), port_phases((s[0] & 7) as u64), "phases");
    eq!(FunctionArbitrationTable::new(&s[..1], 8).next() == FunctionArbitrationTable::new(&s[1..2], 8).next(), s[0] == s[1], "entry identity");
    let w = r32(s, 0) as u32;
    eq!(u32::from(VcResourceCapability::from(w)), w & 0xff7f_00ff, "VC resource capability");
    eq!(u32::from(VcResourceControl::from(w)), w & 0x870f_00ff, "VC resource control");
    eq!(u16::from(VcResourceStatus::from(w as u16)), w as u16 & 3, "VC resource status");
    let mut b = [0u8; 12];
    b.copy_from_slice(&s[..12]);
    let x = <[u8; 12]>::from(ExtendedVirtualChannel::from(b));
    let m = [0xff, 0, 0x7f, 0xff, 0xff, 0, 0x0f, 0x87, 0, 0, 3, 0];
    let mut i = 0;
    while i < 12 {
        eq!(x[i], b[i] & m[i], "VC resource bytes");
        i += 1;
    }
    reach!();
}
