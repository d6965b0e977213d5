//! PCI Express capability
use crate::util::*;
use pcics::capabilities::pci_express::*;
use pcics::capabilities::PciExpress;

table!(size -> MaxSize { 0 => B128, 1 => B256, 2 => B512, 3 => B1024, 4 => B2048, 5 => B4096, 6 => Reserved0, _ => Reserved1 });
table!(phantom -> PhantomFunctionsSupported { 0 => NoBits, 1 => MostSignificantBit, 2 => TwoMostSignificantBits, _ => AllBits });
table!(tag -> ExtendedTagFieldSupported { 0 => Five, _ => Eight });
table!(l0s_ok -> EndpointL0sAcceptableLatency { 0 => Max64ns, 1 => Max128ns, 2 => Max256ns, 3 => Max512ns, 4 => Max1us, 5 => Max2us, 6 => Max4us, _ => NoLimit });
table!(l1_ok -> EndpointL1AcceptableLatency { 0 => Max1us, 1 => Max2us, 2 => Max4us, 3 => Max8us, 4 => Max16us, 5 => Max32us, 6 => Max64us, _ => NoLimit });
table!(speed -> LinkSpeed { 1 => Rate2GTps, 2 => Rate5GTps, 3 => Rate8GTps, 4 => Rate16GTps, 5 => Rate32GTps, 6 => Rate64GTps, 7 => RateRsvdp, v => Reserved(v) });
table!(width -> LinkWidth { 1 => X1, 2 => X2, 4 => X4, 8 => X8, 12 => X12, 16 => X16, 32 => X32, v => Reserved(v) });
table!(aspm -> ActiveStatePowerManagement { 0 => NoAspm, 1 => L0s, 2 => L1, _ => L0sAndL1 });
table!(l0s_exit -> L0sExitLatency { 0 => Lt64ns, 1 => Ge64nsAndLt128ns, 2 => Ge128nsAndLt256ns, 3 => Ge256nsAndLt512ns, 4 => Ge512nsAndLt1us, 5 => Ge1usAndLt2us, 6 => Ge2usAndLt4us, _ => Gt4ns });
table!(l1_exit -> L1ExitLatency { 0 => Lt1us, 1 => Ge1usAndLt2us, 2 => Ge2usAndLt4us, 3 => Ge4usAndLt8us, 4 => Ge8usAndLt16us, 5 => Ge16usAndLt32us, 6 => Ge32usAndLt64us, _ => Gt64ns });
table!(rcb -> ReadCompletionBoundary { 0 => B64, _ => B128 });
table!(ind -> IndicatorControl { 0 => Reserved, 1 => On, 2 => Blink, _ => Off });
table!(ctr -> CompletionTimeoutRanges { 0 => NotSupported, 1 => RangeA, 2 => RangeB, 3 => RangesAB, 6 => RangesBC, 7 => RangesABC, 14 => RangesBCD, 15 => RangesABCD, v => Reserved(v) });
table!(tphc -> TphCompleter { 0 => NotSupported, 1 => Tph, 2 => Reserved, _ => TphAndExtendedTph });
table!(lncls -> LnSystemCls { 0 => NotSupported, 1 => Cachelines64Byte, 2 => Cachelines128Byte, _ => Reserved });
table!(obff -> Obff { 0 => NotSupported, 1 => Message, 2 => Wake, _ => WakeAndMessage });
table!(prefixes -> MaxEndEndTlpPrefixes { 0 => Max4, 1 => Max1, 2 => Max2, _ => Max3 });
table!(epr -> EmergencyPowerReduction { 0 => NotSupported, 1 => DeviceSpecific, 2 => FormFactorOrDeviceSpecific, _ => Reserved });
table!(ctv -> CompletionTimeoutValue { 0 => DefaultRange50usTo50ms, 1 => RangeA50usTo100us, 2 => RangeA1msTo10ms, 5 => RangeB16msTo55mss, 6 => RangeB65msTo210ms, 9 => RangeC260msTo900ms, 10 => RangeC1000msTo3500ms, 13 => RangeD4sTo13s, 14 => RangeD17sTo64s, v => Reserved(v) });
table!(obffe -> ObffEnable { 0 => Disabled, 1 => MessageSignalingA, 2 => MessageSignalingB, _ => WakeSignaling });
table!(blocking -> EndEndTlpPrefixBlocking { 0 => ForwardingEnabled, _ => ForwardingBlocked });
table!(deemph -> DeEmphasis { 0 => Minus6dB, _ => Minus3_5dB });
table!(cross -> CrosslinkResolution { 0 => NotSupported, 1 => UpstreamPort, 2 => DownstreamPort, _ => NotCompleted });
table!(dcp -> DownstreamComponentPresence { 0 => DownNotDetermined, 1 => DownNotPresent, 2 => DownPresent, 4 => UpPresent, 5 => UpPresentAndDrsReceived, v => Reserved(v) });

fn limit(value: u64, scale: u64) -> SlotPowerLimit {
    SlotPowerLimit { value: value as u8, scale: match scale { 0 => 1.0, 1 => 0.1, 2 => 0.01, _ => 0.001 } }
}
fn dev_cap(w: u64) -> DeviceCapabilities {
    DeviceCapabilities {
        max_payload_size_supported: size(f(w, 0, 3)),
        phantom_functions_supported: phantom(f(w, 3, 2)),
        extended_tag_field_supported: tag(f(w, 5, 1)),
        endpoint_l0s_acceptable_latency: l0s_ok(f(w, 6, 3)),
        endpoint_l1_acceptable_latency: l1_ok(f(w, 9, 3)),
        attention_button_present: bit(w, 12),
        attention_indicator_present: bit(w, 13),
        power_indicator_present: bit(w, 14),
        role_based_error_reporting: bit(w, 15),
        captured_slot_power_limit: limit(f(w, 18, 8), f(w, 26, 2)),
        function_level_reset_capability: bit(w, 28),
    }
}
fn dev_ctl(w: u64) -> DeviceControl {
    regs!(w, DeviceControl {
        correctable_error_reporting_enable@0, non_fatal_error_reporting_enable@1, fatal_error_reporting_enable@2,
        unsupported_request_reporting_enable@3, enable_relaxed_ordering@4, max_payload_size@5:3 => size, extended_tag_field_enable@8,
        phantom_functions_enable@9, aux_power_pm_enable@10, enable_no_snoop@11, max_read_request_size@12:3 => size, bcre_or_flreset@15,
    })
}
fn dev_st(w: u64) -> DeviceStatus {
    regs!(w, DeviceStatus {
        correctable_error_detected@0, non_fatal_error_detected@1, fatal_error_detected@2, unsupported_request_detected@3,
        aux_power_detected@4, transactions_pending@5,
    })
}
pub fn x_link(s: &[u8], o: usize) -> Link {
    Link {
        capabilities: regs!(r32(s, o), LinkCapabilities {
            max_link_speed@0:4 => speed, maximum_link_width@4:6 => width, active_state_power_management_support@10:2 => aspm,
            l0s_exit_latency@12:3 => l0s_exit, l1_exit_latency@15:3 => l1_exit, clock_power_management@18,
            surprise_down_error_reporting_capable@19, data_link_layer_link_active_reporting_capable@20,
            link_bandwidth_notification_capability@21, aspm_optionality_compliance@22, port_number@24:8,
        }),
        control: regs!(r16(s, o + 4), LinkControl {
            active_state_power_management_control@0:2 => aspm, read_completion_boundary@3:1 => rcb, link_disable@4, retrain_link@5,
            common_clock_configuration@6, extended_synch@7, enable_clock_power_management@8, hardware_autonomous_width_disable@9,
            link_bandwidth_management_interrupt_enable@10, link_autonomous_bandwidth_interrupt_enable@11,
        }),
        status: regs!(r16(s, o + 6), LinkStatus {
            current_link_speed@0:4 => speed, negotiated_link_width@4:6 => width, link_training_error@10, link_training@11,
            slot_clock_configuration@12, data_link_layer_link_active@13, link_bandwidth_management_status@14,
            link_autonomous_bandwidth_status@15,
        }),
    }
}
fn x_slot(s: &[u8], o: usize) -> Slot {
    let w = r32(s, o);
    Slot {
        capabilities: SlotCapabilities {
            attention_button_present: bit(w, 0),
            power_controller_present: bit(w, 1),
            mrl_sensor_present: bit(w, 2),
            attention_indicator_present: bit(w, 3),
            power_indicator_present: bit(w, 4),
            hot_plug_surprise: bit(w, 5),
            hot_plug_capable: bit(w, 6),
            slot_power_limit: limit(f(w, 7, 8), f(w, 15, 2)),
            electromechanical_interlock_present: bit(w, 17),
            no_command_completed_support: bit(w, 18),
            physical_slot_number: f(w, 19, 13),
        },
        control: regs!(r16(s, o + 4), SlotControl {
            attention_button_pressed_enable@0, power_fault_detected_enable@1, mrl_sensor_changed_enable@2,
            presence_detect_changed_enable@3, command_completed_interrupt_enable@4, hot_plug_interrupt_enable@5,
            attention_indicator_control@6:2 => ind, power_indicator_control@8:2 => ind, power_controller_control@10,
            electromechanical_interlock_control@11, data_link_layer_state_changed_enable@12,
        }),
        status: regs!(r16(s, o + 6), SlotStatus {
            attention_button_pressed@0, power_fault_detected@1, mrl_sensor_changed@2, presence_detect_changed@3, command_completed@4,
            mrl_sensor_state@5, presence_detect_state@6, electromechanical_interlock_status@7, data_link_layer_state_changed@8,
        }),
    }
}
fn x_root(s: &[u8], o: usize) -> Root {
    Root {
        control: regs!(r16(s, o), RootControl {
            system_error_on_correctable_error_enable@0, system_error_on_non_fatal_error_enable@1, system_error_on_fatal_error_enable@2,
            pme_interrupt_enable@3, crs_software_visibility_enable@4,
        }),
        capabilities: RootCapabilities { crs_software_visibility: bit(r16(s, o + 2), 0) },
        status: regs!(r32(s, o + 4), RootStatus { pme_requester_id@0:16, pme_status@16, pme_pending@17 }),
    }
}
fn x_device2(s: &[u8], o: usize) -> Device2 {
    Device2 {
        capabilities: regs!(r32(s, o), DeviceCapabilities2 {
            completion_timeout_ranges_supported@0:4 => ctr, completion_timeout_disable_supported@4, ari_forwarding_supported@5,
            atomic_op_routing_supported@6, u32_atomicop_completer_supported@7, u64_atomicop_completer_supported@8,
            u128_cas_completer_supported@9, no_ro_enabled_pr_pr_passing@10, ltr_mechanism_supported@11,
            tph_completer_supported@12:2 => tphc, ln_system_cls@14:2 => lncls, support_10bit_tag_completer@16,
            support_10bit_tag_requester@17, obff_supported@18:2 => obff, extended_fmt_field_supported@20,
            end_end_tlp_prefix_supported@21, max_end_end_tlp_prefixes@22:2 => prefixes,
            emergency_power_reduction_supported@24:2 => epr, emergency_power_reduction_initialization_required@26, frs_supported@31,
        }),
        control: regs!(r16(s, o + 4), DeviceControl2 {
            completion_timeout_value@0:4 => ctv, completion_timeout_disable@4, ari_forwarding_enable@5, atomic_op_requester_enable@6,
            atomic_op_egress_blocking@7, ido_request_enable@8, ido_completion_enable@9, ltr_mechanism_enable@10,
            emergency_power_reduction_request@11, enable_10bit_tag_requester@12, obff_enable@13:2 => obffe,
            end_end_tlp_prefix_blocking@15:1 => blocking,
        }),
        status: DeviceStatus2 {},
    }
}
pub fn speeds(w: u8) -> SupportedLinkSpeedsVector {
    regs!(w as u64, SupportedLinkSpeedsVector {
        speed_2_5_gtps@0, speed_5_0_gtps@1, speed_8_0_gtps@2, speed_16_0_gtps@3, speed_32_0_gtps@4, speed_64_0_gtps@5, reserved@6
    })
}
fn x_link2(s: &[u8], o: usize) -> Link2 {
    Link2 {
        capabilities: regs!(r32(s, o), LinkCapabilities2 {
            supported_link_speeds_vector@1:7 => speeds, crosslink_supported@8, lower_skp_os_generation_supported_speeds_vector@9:7 => speeds,
            lower_skp_os_reception_supported_speeds_vector@16:7 => speeds, retimer_presence_detect_supported@23,
            two_retimers_presence_detect_supported@24, drs_supported@31,
        }),
        control: regs!(r16(s, o + 4), LinkControl2 {
            target_link_speed@0:4 => speed, enter_compliance@4, hardware_autonomous_speed_disable@5, selectable_de_emphasis@6:1 => deemph,
            transmit_margin@7:3 => TransmitMargin, enter_modified_compliance@10, compliance_sos@11,
            compliance_preset_or_de_emphasis@12:4 => CompliancePresetOrDeEmphasis,
        }),
        status: regs!(r16(s, o + 6), LinkStatus2 {
            current_de_emphasis_level@0:1 => deemph, equalization_complete@1, equalization_phase_1_successful@2,
            equalization_phase_2_successful@3, equalization_phase_3_successful@4, link_equalization_request@5, retimer_presence_detected@6,
            two_retimers_presence_detected@7, crosslink_resolution@8:2 => cross, downstream_component_presence@12:3 => dcp,
            drs_message_received@15,
        }),
    }
}

#[inline(never)]
fn real(s: &[u8]) -> Result<PciExpress, PciExpressError> {
    PciExpress::try_from(s)
}
#[inline(never)]
fn x_pcie(s: &[u8]) -> Result<PciExpress, PciExpressError> {
    if s.len() < 26 {
        return Err(PciExpressError::RequiredBytesSlice);
    }
    let c = r16(s, 0);
    let version: u8 = f(c, 0, 4);
    let v2 = version >= 2;
    let link = x_link(s, 10);
    let slot = x_slot(s, 18);
    let root = if s.len() >= 34 { Some(x_root(s, 26)) } else { None };
    let device_2 = if v2 && s.len() >= 42 { Some(x_device2(s, 34)) } else { None };
    let link_2 = if v2 && s.len() >= 50 { Some(x_link2(s, 42)) } else { None };
    let slot_2 = if v2 && s.len() >= 58 {
        Some(Slot2 { capabilities: SlotCapabilities2 {}, control: SlotControl2 {}, status: SlotStatus2 {} })
    } else {
        None
    };
    use DeviceType as D;
    let device_type = match (f::<u8>(c, 4, 4), root) {
        (0, _) => D::Endpoint { link, link_2 },
        (1, _) => D::LegacyEndpoint { link, link_2 },
        (4, Some(root)) => D::RootPort { link, link_2, slot, slot_2, root },
        (5, _) => D::UpstreamPort { link, link_2 },
        (6, _) => D::DownstreamPort { link, link_2, slot, slot_2 },
        (7, _) => D::PcieToPciBridge { link, link_2 },
        (8, _) => D::PciToPcieBridge { link, link_2, slot, slot_2 },
        (9, _) => D::RootComplexIntegratedEndpoint,
        (10, Some(root)) => D::RootComplexEventCollector { root },
        (4 | 10, None) => return Err(PciExpressError::RootBytesSlice),
        (id, root) => D::Reserved { id, link, link_2, slot, slot_2, root },
    };
    Ok(PciExpress {
        version,
        device_type,
        slot_implemented: bit(c, 8),
        interrupt_message_number: f(c, 9, 5),
        tcs_routing_support: bit(c, 14),
        device: Device { capabilities: dev_cap(r32(s, 2)), control: dev_ctl(r16(s, 6)), status: dev_st(r16(s, 8)) },
        device_2,
    })
}

#[no_mangle]
pub fn h_pcie(s: &[u8]) {
    let r = real(s);
    match (r, x_pcie(s)) {
        (Ok(g), Ok(w)) => {
            reach!();
            eq!(g.version, w.version, "version");
            eq!(g.slot_implemented, w.slot_implemented, "slot implemented");
            eq!(g.interrupt_message_number, w.interrupt_message_number, "interrupt message number");
            eq!(g.tcs_routing_support, w.tcs_routing_support, "TCS routing");
            eq!(g.device, w.device, "device registers");
            eq!(g.device_2, w.device_2, "device 2 registers");
            eq!(g.device_type, w.device_type, "device/port type and its registers");
            let t: u8 = f(r16(s, 0), 4, 4);
            eq!(g.device_type.is_endpoint(), t == 0 || t == 1 || t == 9, "is_endpoint");
            eq!(g.device_type.is_root(), t == 4 || t == 10, "is_root");
            eq!(g.device_type.is_downstream_port(), t == 4 || t == 6 || t == 8, "is_downstream_port");
            if g.device_2.is_some() {
                reach!();
            }
        }
        (Err(g), Err(w)) => {
            reach!();
            eq!(g, w, "error");
        }
        _ => ck!(false, "decodes exactly when the required registers are present"),
    }
}

#[no_mangle]
pub fn h_pcie_codes(s: &[u8]) {
    codes!(s;
        LinkSpeed, 4, speed; LinkWidth, 6, width; CompletionTimeoutRanges, 4, ctr; TphCompleter, 2, tphc; LnSystemCls, 2, lncls;
        Obff, 2, obff; MaxEndEndTlpPrefixes, 2, prefixes; EmergencyPowerReduction, 2, epr; CompletionTimeoutValue, 4, ctv;
        ObffEnable, 2, obffe);
    for b in [false, true] {
        eq!(bool::from(EndEndTlpPrefixBlocking::from(b)), b, "TLP prefix blocking round trip");
    }
    use CompletionTimeoutRanges as R;
    for (range, start, end) in [(R::A, 50e-6, 10e-3), (R::B, 10e-3, 250e-3), (R::C, 250e-3, 4.0), (R::D, 4.0, 64.0)] {
        ck!(range.start == start && range.end == end, "completion timeout range in seconds");
    }
}

/// the power limit in watts is value x scale of the register
#[no_mangle]
pub fn h_pcie_power(s: &[u8]) {
    if s.len() < 2 {
        return;
    }
    let l = SlotPowerLimit::new(s[0], s[1] & 3);
    let want: f32 = limit(s[0] as u64, (s[1] & 3) as u64).scale * s[0] as f32;
    eq!(f32::from(&l).to_bits(), want.to_bits(), "power limit");
    eq!(f32::from(l).to_bits(), want.to_bits(), "power limit");
    reach!();
}

/// speeds and widths order as the speeds and widths they stand for
#[no_mangle]
pub fn h_pcie_order(s: &[u8]) {
    if s.len() < 2 {
        return;
    }
    let (a, b) = (s[0], s[1]);
    let speed = |x: u8| (1..=6).contains(&x);
    if speed(a) && speed(b) {
        let (x, y) = (LinkSpeed::from(a), LinkSpeed::from(b));
        ck!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "order of link speeds");
        ck!((x < y) == (a < b) && (x >= y) == (a >= b), "faster link");
        ck!(x.max(y) == LinkSpeed::from(a.max(b)), "greater link speed");
    }
    let lanes = |x: u8| matches!(x, 1 | 2 | 4 | 8 | 12 | 16 | 32);
    if lanes(a) && lanes(b) {
        let (x, y) = (LinkWidth::from(a), LinkWidth::from(b));
        ck!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "order of link widths");
        ck!((x < y) == (a < b) && (x >= y) == (a >= b), "wider link");
        ck!(x.max(y) == LinkWidth::from(a.max(b)), "greater link width");
    }
    reach!();
}
