//! Virtual Channel
use crate::util::*;
use pcics::extended_capabilities::virtual_channel::*;

table!(clock -> ReferenceClock { 0 => Rc100ns, v => Reserved(v) });
table!(psel -> PortArbitrationSelect { 0 => HardwareFixedArbitration, 1 => Wrr32phases, 2 => Wrr64phases, 3 => Wrr128phases,
    4 => TimeBasedWrr128phases, 5 => Wrr256phases, v => Reserved(v) });
table!(vsel -> VcArbitrationSelect { 0 => HardwareFixedArbitration, 1 => Wrr32phases, 2 => Wrr64phases, 3 => Wrr128phases, v => Reserved(v) });
pub fn cap2(w: u64) -> PortVcCapability2 {
    PortVcCapability2 {
        vc_arbitration_capability: regs!(w, VcArbitrationCapability {
            hardware_fixed_arbitration@0, wrr_32_phases@1, wrr_64_phases@2, wrr_128_phases@3, reserved@4:4,
        }),
        vc_arbitration_table_offset: f(w, 24, 8),
    }
}
pub fn ctl(w: u64) -> PortVcControl {
    regs!(w, PortVcControl { load_vc_arbitration_table@0, vc_arbitration_select@1:3 => vsel })
}
pub fn st(w: u64) -> PortVcStatus {
    regs!(w, PortVcStatus { vc_arbitration_table_status@0 })
}
pub fn phases(v: u64) -> usize {
    match v {
        1 => 32,
        2 => 64,
        3 => 128,
        _ => 0,
    }
}
pub fn port_phases(v: u64) -> usize {
    match v {
        1 => 32,
        2 => 64,
        3 | 4 => 128,
        5 => 256,
        _ => 0,
    }
}
fn channel(s: &[u8]) -> ExtendedVirtualChannel {
    let w = r32(s, 0);
    let c = r32(s, 4);
    let t = r16(s, 10);
    ExtendedVirtualChannel {
        vc_resource_capability: VcResourceCapability {
            port_arbitration_capability: regs!(w, PortArbitrationCapability {
                hardware_fixed_arbitration@0, wrr_32_phases@1, wrr_64_phases@2, wrr_128_phases@3, time_based_wrr_128_phases@4,
                wrr_256_phases@5, reserved@6:2,
            }),
            advanced_packet_switching: bit(w, 14),
            reject_snoop_transactions: bit(w, 15),
            maximum_time_slots: f(w, 16, 7),
            port_arbitration_table_offset: f(w, 24, 8),
        },
        vc_resource_control: regs!(c, VcResourceControl {
            tc_or_vc_map@0:8, load_port_arbitration_table@16, port_arbitration_select@17:3 => psel, vc_id@24:3, vc_enable@31,
        }),
        vc_resource_status: regs!(t, VcResourceStatus { port_arbitration_table_status@0, vc_negotiation_pending@1 }),
    }
}
#[inline(never)]
fn real(s: &[u8]) -> Option<VirtualChannel<'_>> {
    VirtualChannel::try_from(s).ok()
}

/// registers
#[no_mangle]
pub fn h_vc(s: &[u8]) {
    let r = real(s);
    eq!(r.is_some(), s.len() >= 12, "decodes exactly when all its registers are present");
    let Some(v) = r else { return };
    let w = r32(s, 0);
    eq!(v.port_vc_capability_1, regs!(w, PortVcCapability1 {
        extended_vc_count@0:3, low_priority_extended_vc_count@4:3, reference_clock@8:2 => clock,
        port_arbitration_table_entry_size@10:2 => (|x: u8| PortArbitrationTableEntrySize::from(x)),
    }), "capability 1");
    eq!(v.port_vc_capability_1.port_arbitration_table_entry_size.bits(), 1usize << f::<u8>(w, 10, 2), "entry size");
    eq!(v.port_vc_capability_2, cap2(r32(s, 4)), "capability 2");
    eq!(v.port_vc_control, ctl(r16(s, 8)), "control");
    eq!(v.port_vc_status, st(r16(s, 10)), "status");
    reach!();
}

/// VC resources: as many as announced and present, in order
#[no_mangle]
pub fn h_vc_channels(s: &[u8]) {
    let Some(v) = real(s) else { return };
    let n = f::<u8>(r32(s, 0), 0, 3) as usize + 1;
    let mut it = v.extended_virtual_channels();
    let mut i = 0;
    while i < 9 {
        let r = it.next();
        let o = 12 + 12 * i;
        let there = i < n && s.len() >= o + 12;
        eq!(r.is_some(), there, "number of VC resources");
        if !there {
            ck!(it.next().is_none(), "ended for good");
            return;
        }
        eq!(r.and_then(|x| x.ok()), Some(channel(&s[o..o + 12])), "VC resource");
        if i == 7 {
            reach!();
        }
        i += 1;
    }
}

/// the VC arbitration table lies where its offset says and has the selected number of phases
#[no_mangle]
pub fn h_vc_table(s: &[u8]) {
    let Some(v) = real(s) else { return };
    let off = r8(s, 7) as usize * 16;
    let len = phases(f(r16(s, 8), 1, 3)) / 2;
    let mut t = v.vc_arbitration_table();
    if off == 0 || off - 4 + len > s.len() {
        ck!(t.next().is_none() && t.next().is_none(), "absent or truncated table is empty");
        reach!();
        return;
    }
    ck!(t == VcArbitrationTable::new(&s[off - 4..off - 4 + len]), "table bytes");
    if len == 64 {
        reach!();
    }
}
/// entries of a VC arbitration table: two per byte, low nibble first, 3 bits each
#[no_mangle]
pub fn h_vc_table_entries(s: &[u8]) {
    let mut t = VcArbitrationTable::new(s);
    for b in s {
        eq!(t.next(), Some(VcArbitrationTableEntry { vc_id: b & 7 }), "low nibble");
        eq!(t.next(), Some(VcArbitrationTableEntry { vc_id: (b >> 4) & 7 }), "high nibble");
        reach!();
    }
    ck!(t.next().is_none(), "ends");
    ck!(t.next().is_none(), "ended for good");
}

#[no_mangle]
pub fn h_vc_port_table(s: &[u8]) {
    if s.len() < 12 + 12 {
        return;
    }
    let Some(v) = real(&s[12..]) else { return };
    let mut b = [0u8; 12];
    b.copy_from_slice(&s[..12]);
    let evc = ExtendedVirtualChannel::from(b);
    let d = &s[12..];
    let off = s[3] as usize * 16;
    let bits = 1usize << f::<u8>(r32(d, 0), 10, 2);
    let len = bits * port_phases(f(r32(s, 4), 17, 3)) / 8;
    let mut t = v.port_arbitration_table(&evc);
    if off == 0 || off - 4 + len > d.len() {
        ck!(t.next().is_none() && t.next().is_none(), "absent or truncated table is empty");
        reach!();
        return;
    }
    ck!(t == PortArbitrationTable::new(&d[off - 4..off - 4 + len], bits), "table bytes");
    if len == 128 {
        reach!();
    }
}
/// entries of a port arbitration table: 8/bits per byte, lowest first
#[no_mangle]
pub fn h_vc_port_table_entries(s: &[u8]) {
    let Some((&k, d)) = s.split_first() else { return };
    if k > 3 {
        return;
    }
    let bits = 1usize << k;
    let mut t = PortArbitrationTable::new(d, bits);
    let mut i = 0;
    while i < d.len() * 8 / bits {
        let x = (d[i * bits / 8] >> (i * bits % 8)) & ((1u16 << bits) - 1) as u8;
        eq!(t.next(), PortArbitrationTable::new(&[x], 8).next(), "entry");
        if i == 9 {
            reach!();
        }
        i += 1;
    }
    ck!(t.next().is_none(), "ends");
    ck!(t.next().is_none(), "ended for good");
}
#[no_mangle]
pub fn h_vc_codes(s: &[u8]) {
    codes!(s; PortArbitrationSelect, 3, psel);
    if let Some(&b) = s.first() {
        eq!(psel(b & 7).port_arbitration_table_length(), port_phases((b & 7) as u64), "port phases");
        eq!(vsel(b & 7).vc_arbitration_table_length(), phases((b & 7) as u64), "VC phases");
        eq!(VcArbitrationSelect::from(b & 7), vsel(b & 7), "VC arbitration select");
        // an entry keeps all of its bits
        if let Some(&c) = s.get(1) {
            eq!(PortArbitrationTable::new(&[b], 8).next() == PortArbitrationTable::new(&[c], 8).next(), b == c, "entry identity");
        }
    }
}
