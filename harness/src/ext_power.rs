//! Power budgeting, dynamic power allocation, L1 PM substates, readiness time, PTM, FRS, LN requester
use crate::util::*;
use pcics::extended_capabilities::dynamic_power_allocation::*;
use pcics::extended_capabilities::frs_queuing::*;
use pcics::extended_capabilities::l1_pm_substates::*;
use pcics::extended_capabilities::ln_requester::*;
use pcics::extended_capabilities::power_budgeting as pb;
use pcics::extended_capabilities::precision_time_measurement::*;
use pcics::extended_capabilities::readiness_time_reporting::*;
use pb::{BasePower, Data, DataScale, OperationConditionType, PmState, PmSubState, PowerBudgetCapability, PowerBudgeting, PowerRail};

table!(base_power -> BasePower { 0xf0 => Gt239Le250, 0xf1 => Gt250Le275, 0xf2 => Gt275Le300, 0xf3..=0xff => Gt300, v => Value(v) });
table!(data_scale -> DataScale { 0 => One, 1 => Deci, 2 => Centi, _ => Milli });
table!(pm_sub -> PmSubState { 0 => Default, v => Specific(v) });
table!(pm_state -> PmState { 0 => D0, 1 => D1, 2 => D2, _ => D3 });
table!(oper -> OperationConditionType {
    0 => PmeAux, 1 => Auxiliary, 2 => Idle, 3 => Sustained, 4 => SustainedEmergencyPowerReductionState,
    5 => MaximumEmergencyPowerReductionState, 7 => Maximum, v => Reserved(v),
});
table!(rail -> PowerRail { 0 => Power12v, 1 => Power3_3v, 2 => Power1_5vOr1_8v, 3 => Thermal, v => Reserved(v) });
fn budget(s: &[u8]) -> PowerBudgeting {
    let d = r32(s, 4);
    PowerBudgeting {
        data_select: s[0],
        data: regs!(d, Data {
            base_power@0:8 => base_power, data_scale@8:2 => data_scale, pm_sub_state@10:3 => pm_sub, pm_state@13:2 => pm_state,
            operation_condition_type@15:3 => oper, power_rail@18:3 => rail,
        }),
        power_budget_capability: PowerBudgetCapability { system_allocated: bit(r8(s, 8), 0) },
    }
}
decodes!(h_budget, PowerBudgeting, 12, budget);

table!(lat_unit -> TransitionLatencyUnit { 0 => Unit1ms, 1 => Unit10ms, 2 => Unit100ms, _ => Reserved });
table!(alloc_scale -> PowerAllocationScale { 0 => Mul10, 1 => Mul1_0, 2 => Mul0_1, _ => Mul0_01 });
/// capability header included
#[no_mangle]
pub fn h_dpa(s: &[u8]) {
    use DynamicPowerAllocationError as E;
    #[inline(never)]
    fn real(s: &[u8]) -> Result<DynamicPowerAllocation<'_>, E> {
        DynamicPowerAllocation::try_from(s)
    }
    let r = real(s);
    if s.len() < 16 {
        ck!(matches!(r, Err(E::Mandatory)), "mandatory registers missing");
        return;
    }
    let (w, t, c) = (r32(s, 4), r16(s, 12), r16(s, 14));
    let n = (w & 31) as usize + 1;
    if s.len() - 16 < n {
        ck!(matches!(r, Err(E::DpaAllocationArray { expected, found }) if expected == n && found == s.len() - 16), "allocation array missing");
        reach!();
        return;
    }
    let Ok(v) = r else {
        ck!(false, "decodes when all its registers are present");
        return;
    };
    eq!(v.dpa_capability, regs!(w, DpaCapability {
        substate_max@0:5, transition_latency_unit@8:2 => lat_unit, power_allocation_scale@12:2 => alloc_scale,
        transition_latency_value_0@16:8, transition_latency_value_1@24:8,
    }), "capability");
    eq!(v.dpa_latency_indicator, r32(s, 8) as u32, "latency indicator");
    eq!(v.dpa_status, regs!(t, DpaStatus { substate_status@0:5, substate_control_enabled@8 }), "status");
    eq!(v.dpa_control, regs!(c, DpaControl { substate_control@0:5 }), "control");
    ck!(same(v.dpa_power_allocation_array.0, &s[16..16 + n]), "allocation array");
    reach!();
}

table!(on_scale -> PortTPowerOnScale { 0 => Time2us, 1 => Time10us, 2 => Time100us, _ => Reserved });
fn l1(s: &[u8]) -> L1PmSubstates {
    let (w, a, b) = (r32(s, 0), r32(s, 4), r32(s, 8));
    L1PmSubstates {
        l1_pm_substates_capabilities: L1PmSubstatesCapabilities {
            pci_pm_l1_2_supported: bit(w, 0),
            pci_pm_l1_1_supported: bit(w, 1),
            aspm_l1_2_supported: bit(w, 2),
            aspm_l1_1_supported: bit(w, 3),
            l1_pm_substates_supported: bit(w, 4),
            port_common_mode_restore_time: f(w, 8, 8),
            port_t_power_on: PortTPowerOn { value: f(w, 19, 5), scale: on_scale(f(w, 16, 2)) },
        },
        l1_pm_substates_control_1: L1PmSubstatesControl1 {
            pci_pm_l1_2_enable: bit(a, 0),
            pci_pm_l1_1_enable: bit(a, 1),
            aspm_l1_2_enable: bit(a, 2),
            aspm_l1_1_enable: bit(a, 3),
            common_mode_restore_time: f(a, 8, 8),
            ltr_l1_2_threshold: MaxLatency { value: f(a, 16, 10), scale: f(a, 29, 3) },
        },
        l1_pm_substates_control_2: L1PmSubstatesControl2 { t_power_on: PortTPowerOn { value: f(b, 3, 5), scale: on_scale(f(b, 0, 2)) } },
    }
}
decodes!(h_l1pm, L1PmSubstates, 12, l1);
#[no_mangle]
pub fn h_l1pm_roundtrip(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Option<L1PmSubstates> {
        L1PmSubstates::try_from(s).ok()
    }
    #[inline(never)]
    fn us(p: &PortTPowerOn) -> Option<usize> {
        p.value()
    }
    #[inline(never)]
    fn e0(v: L1PmSubstatesCapabilities) -> u32 {
        v.into()
    }
    #[inline(never)]
    fn e1(v: L1PmSubstatesControl1) -> u32 {
        v.into()
    }
    #[inline(never)]
    fn e2(v: L1PmSubstatesControl2) -> u32 {
        v.into()
    }
    let Some(v) = real(s) else { return };
    let (w, a, b) = (r32(s, 0), r32(s, 4), r32(s, 8));
    let t = us(&v.l1_pm_substates_control_2.t_power_on);
    let m = [2, 10, 100, 0][(b & 3) as usize];
    eq!(t, if b & 3 == 3 { None } else { Some((b as usize >> 3 & 31) * m) }, "power on time");
    eq!(e0(v.l1_pm_substates_capabilities), (w & 0x00fb_ff1f) as u32, "capabilities round trip");
    eq!(e1(v.l1_pm_substates_control_1), (a & 0xe3ff_ff0f) as u32, "control 1 round trip");
    eq!(e2(v.l1_pm_substates_control_2), (b & 0xfb) as u32, "control 2 round trip");
    reach!();
}

fn lnr(s: &[u8]) -> LnRequester {
    let (w, c) = (r16(s, 4), r16(s, 6));
    LnRequester {
        lnr_capability: regs!(w, LnrCapability { lnr_64_supported@0, lnr_128_supported@1, lnr_registration_max@8:5 }),
        lnr_control: regs!(c, LnrControl { lnr_enable@0, lnr_cls@1, lnr_registration_limit@8:5 }),
    }
}
decodes!(h_lnr, LnRequester, 8, lnr);
fn frs(s: &[u8]) -> FrsQueuing {
    let (w, t, c, q) = (r32(s, 4), r16(s, 8), r16(s, 10), r32(s, 12));
    FrsQueuing {
        frs_queuing_capability: regs!(w, FrsQueuingCapability { frs_queue_max_depth@0:12, frs_interrupt_message_number@16:5 }),
        frs_queuing_status: regs!(t, FrsQueuingStatus { frs_message_received@0, frs_message_overflow@1 }),
        frs_queuing_control: regs!(c, FrsQueuingControl { frs_interrupt_enable@0 }),
        frs_message_queue: regs!(q, FrsMessageQueue {
            frs_message_queue_function_id@0:16, frs_message_queue_reason@16:4, frs_message_queue_depth@20:12,
        }),
    }
}
decodes!(h_frs, FrsQueuing, 16, frs);
fn ready(w: u64) -> ReadinessTime {
    ReadinessTime { value: f(w, 0, 9), scale: f(w, 9, 3) }
}
fn rtr(s: &[u8]) -> ReadinessTimeReporting {
    let (a, b) = (r32(s, 4), r32(s, 8));
    ReadinessTimeReporting {
        reset_time: ready(a),
        dl_up_time: ready(a >> 12),
        valid: bit(a, 31),
        flr_time: ready(b),
        d3hot_to_d0_time: ready(b >> 12),
    }
}
decodes!(h_rtr, ReadinessTimeReporting, 12, rtr);
#[no_mangle]
pub fn h_rtr_value(s: &[u8]) {
    #[inline(never)]
    fn time(w: u16) -> u64 {
        ReadinessTime::from(w).actual_time_value()
    }
    if s.len() < 2 {
        return;
    }
    // bits 15:12 are not part of the time
    let w = r16(s, 0);
    let mut x = w & 0x1ff;
    for _ in 0..(w >> 9) & 7 {
        x *= 32;
    }
    eq!(time(w as u16), x, "readiness time in ns");
    reach!();
}
fn ptm(s: &[u8]) -> PrecisionTimeMeasurement {
    let (w, c) = (r32(s, 0), r32(s, 4));
    PrecisionTimeMeasurement {
        ptm_capability: regs!(w, PtmCapability {
            ptm_requester_capable@0, ptm_responder_capable@1, ptm_root_capable@2, local_clock_granularity@8:8,
        }),
        ptm_control: regs!(c, PtmControl { ptm_enable@0, root_select@1, effective_granularity@8:8 }),
    }
}
decodes!(h_ptm, PrecisionTimeMeasurement, 8, ptm);
