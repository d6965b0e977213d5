//! Advanced Error Reporting, Downstream Port Containment
use crate::util::*;
use pcics::extended_capabilities::advanced_error_reporting::*;

fn unc(w: u64) -> UncorrectableError {
    regs!(w, UncorrectableError {
        link_training_error@0, data_link_protocol_error_status@4, surprise_down_error_status@5, poisoned_tlp_received_status@12,
        flow_control_protocol_error_status@13, completion_timeout_status@14, completer_abort_status@15, unexpected_completion_status@16,
        receiver_overflow_status@17, malformed_tlp_status@18, ecrc_error_status@19, unsupported_request_error_status@20,
        acs_violation_status@21, uncorrectable_internal_error_status@22, mc_blocked_tlp_status@23, atomicop_egress_blocked_status@24,
        tlp_prefix_blocked_error_status@25, poisoned_tlp_egress_blocked_status@26,
    })
}
fn cor(w: u64) -> CorrectableError {
    regs!(w, CorrectableError {
        receiver_error_status@0, bad_tlp_status@6, bad_dllp_status@7, replay_num_rollover_status@8, replay_timer_timeout_status@12,
        advisory_non_fatal_error_status@13, corrected_internal_error_status@14, header_log_overflow_status@15,
    })
}
fn cap(w: u64) -> AdvancedErrorCapabilitiesAndControl {
    regs!(w, AdvancedErrorCapabilitiesAndControl {
        first_error_pointer@0:5, ecrc_generation_capable@5, ecrc_generation_enable@6, ecrc_check_capable@7, ecrc_check_enable@8,
        multiple_header_recording_capable@9, multiple_header_recording_enable@10, tlp_prefix_log_present@11,
        completion_timeout_prefix_or_header_log_capable@12,
    })
}
fn dw4(s: &[u8], o: usize) -> [u32; 4] {
    [r32(s, o) as u32, r32(s, o + 4) as u32, r32(s, o + 8) as u32, r32(s, o + 12) as u32]
}

/// body of the AER structure, register offsets are relative to its 4 byte header
#[no_mangle]
pub fn h_aer(s: &[u8]) {
    #[inline(never)]
    fn real(s: &[u8]) -> Result<AdvancedErrorReporting, AdvancedErrorReportingError> {
        AdvancedErrorReporting::try_from(s)
    }
    let r = real(s);
    if s.len() < 0x28 {
        eq!(r, Err(AdvancedErrorReportingError::Common), "common registers missing");
        return;
    }
    let prefix = bit(r32(s, 0x14), 11);
    if prefix && s.len() < 0x44 {
        eq!(r, Err(AdvancedErrorReportingError::TlpPrefixLog), "TLP prefix log missing");
        reach!();
        return;
    }
    let Ok(v) = r else {
        ck!(false, "decodes when all its registers are present");
        return;
    };
    eq!(v.uncorrectable_error_status, unc(r32(s, 0)), "uncorrectable status");
    eq!(v.uncorrectable_error_mask, unc(r32(s, 4)), "uncorrectable mask");
    eq!(v.uncorrectable_error_severity, unc(r32(s, 8)), "uncorrectable severity");
    eq!(v.correctable_error_status, cor(r32(s, 0xc)), "correctable status");
    eq!(v.correctable_error_mask, cor(r32(s, 0x10)), "correctable mask");
    eq!(v.advanced_error_capabilities_and_control, cap(r32(s, 0x14)), "capabilities and control");
    eq!(v.header_log.0, dw4(s, 0x18), "header log");
    let root = s.len() >= 0x34;
    eq!(v.root_error_command.is_some(), root, "root error command present");
    eq!(v.root_error_status.is_some(), root, "root error status present");
    eq!(v.error_source_identification.is_some(), root, "error source present");
    if root {
        let w = r32(s, 0x28);
        eq!(v.root_error_command, Some(regs!(w, RootErrorCommand {
            correctable_error_reporting_enable@0, non_fatal_error_reporting_enable@1, fatal_error_reporting_enable@2,
        })), "root error command");
        let w = r32(s, 0x2c);
        eq!(v.root_error_status, Some(regs!(w, RootErrorStatus {
            err_cor_received@0, multiple_err_cor_received@1, err_fatal_or_nonfatal_received@2, multiple_err_fatal_or_nonfatal_received@3,
            first_uncorrectable_fatal@4, non_fatal_error_messages_received@5, fatal_error_messages_received@6,
            advanced_error_interrupt_message_number@27:5,
        })), "root error status");
        let w = r32(s, 0x30);
        eq!(v.error_source_identification, Some(regs!(w, ErrorSourceIdentification {
            err_cor_source_identification@0:16, err_fatal_or_nonfatal_source_identification@16:16,
        })), "error source");
        reach!();
    }
    eq!(v.tlp_prefix_log.is_some(), prefix, "TLP prefix log present");
    if prefix {
        eq!(v.tlp_prefix_log, Some(TlpPrefixLog(dw4(s, 0x34))), "TLP prefix log");
        reach!();
    }
}

use pcics::extended_capabilities::downstream_port_containment::*;

table!(trigger -> DpcTrigger { 0 => Disabled, 1 => ErrFatalMessage, 2 => ErrNonFatalMessage, _ => Reserved });
fn reason(w: u64) -> DpcTriggerReason {
    use DpcTriggerReason::*;
    match ((w >> 1) & 3, (w >> 5) & 3) {
        (0, _) => UnmaskedUncorrectableError,
        (1, _) => ReceivingAnErrNonFatal,
        (2, _) => ReceivingAnErrFatal,
        (_, 0) => RpPioError,
        (_, 1) => DpcSoftwareTriggerBit,
        (_, v) => Reserved(v as u8),
    }
}
fn pio(w: u64) -> RpPio {
    regs!(w, RpPio {
        cfg_ur_cpl@0, cfg_ca_cpl@1, cfg_cto@2, io_ur_cpl@8, io_ca_cpl@9, io_cto@10, mem_ur_cpl@16, mem_ca_cpl@17, mem_cto@18,
    })
}

#[no_mangle]
pub fn h_dpc(s: &[u8]) {
    use DownstreamPortContainmentError as E;
    #[inline(never)]
    fn real(s: &[u8]) -> Result<DownstreamPortContainment, E> {
        DownstreamPortContainment::try_from(s)
    }
    let r = real(s);
    if s.len() < 8 {
        eq!(r, Err(E::Mandatory), "mandatory registers missing");
        return;
    }
    let (w, ctl, st) = (r16(s, 0), r16(s, 2), r16(s, 4));
    let ext = bit(w, 5);
    let size = ((w >> 8) & 15) as usize;
    let prefixes = if size > 5 { (size - 5).min(4) } else { 0 };
    if ext {
        if s.len() < 44 {
            eq!(r, Err(E::RpExtensions), "root port extensions missing");
            reach!();
            return;
        }
        if size >= 5 && s.len() < 48 {
            eq!(r, Err(E::RpPioImpspecLog), "implementation specific log missing");
            reach!();
            return;
        }
        if size > 5 && s.len() < 48 + 4 * prefixes {
            eq!(r, Err(E::RpPioTlpPrefixLog { number: (s.len() - 48) / 4 }), "prefix log missing");
            reach!();
            return;
        }
    }
    let Ok(v) = r else {
        ck!(false, "decodes when all its registers are present");
        return;
    };
    eq!(v.dpc_capability, regs!(w, DpcCapability {
        dpc_interrupt_message_number@0:5, rp_extensions_for_dpc@5, poisoned_tlp_egress_blocking_supported@6,
        dpc_software_triggering_supported@7, rp_pio_log_size@8:4, dl_active_err_cor_signaling_supported@12,
    }), "capability");
    eq!(v.dpc_control, regs!(ctl, DpcControl {
        dpc_trigger_enable@0:2 => trigger, dpc_completion_control@2, dpc_interrupt_enable@3, dpc_err_cor_enable@4,
        poisoned_tlp_egress_blocking_enable@5, dpc_software_trigger@6, dl_active_err_cor_enable@7,
    }), "control");
    eq!(v.dpc_status, DpcStatus {
        dpc_trigger_status: bit(st, 0),
        dpc_trigger_reason: reason(st),
        dpc_interrupt_status: bit(st, 3),
        dpc_rp_busy: bit(st, 4),
        rp_pio_first_error_pointer: f(st, 8, 5),
    }, "status");
    let tr = &v.dpc_status.dpc_trigger_reason;
    eq!(tr.value(), f::<u8>(st, 1, 2), "trigger reason code");
    if tr.value() == 3 {
        eq!(tr.extension_value(), f::<u8>(st, 5, 2), "trigger reason extension code");
    }
    eq!(v.dpc_error_source_id, r16(s, 6) as u16, "error source id");
    eq!(v.rp_extensions.is_some(), ext, "root port extensions present");
    reach!();
    if let Some(x) = v.rp_extensions {
        eq!(x.rp_pio_status, pio(r32(s, 8)), "pio status");
        eq!(x.rp_pio_mask, pio(r32(s, 12)), "pio mask");
        eq!(x.rp_pio_severity, pio(r32(s, 16)), "pio severity");
        eq!(x.rp_pio_syserr, pio(r32(s, 20)), "pio system error");
        eq!(x.rp_pio_exception, pio(r32(s, 24)), "pio exception");
        eq!(x.rp_pio_header_log.0, dw4(s, 28), "pio header log");
        eq!(x.rp_pio_impspec_log.is_some(), size >= 5, "implementation specific log present");
        if let Some(l) = x.rp_pio_impspec_log {
            eq!(l, r32(s, 44) as u32, "implementation specific log");
        }
        eq!(x.rp_pio_tlp_prefix_log.is_some(), size > 5, "prefix log present");
        if let Some(l) = x.rp_pio_tlp_prefix_log {
            for i in 0..4 {
                eq!(l.0[i], if i < prefixes { r32(s, 48 + 4 * i) as u32 } else { 0 }, "prefix log");
            }
            reach!();
        }
        reach!();
    }
}
