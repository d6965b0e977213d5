//! PCI-X, HyperTransport
use crate::util::*;

pub mod px {
    use super::*;
    use pcics::capabilities::pci_x::*;

    table!(phase -> EccErrorPhase { 0 => NoError, 1 => First32bits, 2 => Second32bits, 3 => AttributePhase, 4 => Phase32or16bit, 5 => Phase64bit, _ => Reserved });
    fn syn(b: u8) -> Syndrome {
        regs!(b as u64, Syndrome { e0@0, e1@1, e2@2, e3@3, e4@4, e5@5, e6@6, e7@7 })
    }
    fn x_ecc(w: u64) -> EccControlAndStatus {
        regs!(w, EccControlAndStatus {
            select_secondary_ecc_registers@0, error_present_in_other_ecc_register_bank@1, additional_correctable_ecc_error@2,
            additional_uncorrectable_ecc_error@3, ecc_error_phase@4:3 => phase, ecc_error_corrected@7, syndrome@8:8 => syn,
            error_first_command@16:4, error_second_command@20:4, error_upper_attributes@24:4, ecc_control_update_enable@28,
            disable_single_bit_error_correction@30, ecc_mode@31,
        })
    }
    /// expected ECC block for list-item version v with the ECC registers (16 bytes) at s[o..]; None = does not fit
    fn x_ecc_block(v: u8, s: &[u8], o: usize) -> Option<Ecc> {
        match v {
            0 => Some(Ecc::None),
            3 => Some(Ecc::Reserved),
            _ if s.len() < o + 16 => None,
            1 => Some(Ecc::Mode2Only {
                control_and_status: x_ecc(r32(s, o)),
                first_address: r32(s, o + 4) as u32,
                second_address: r32(s, o + 8) as u32,
                attribute: r32(s, o + 12) as u32,
            }),
            _ => Some(Ecc::Mode1OrMode2 {
                control_and_status: x_ecc(r32(s, o)),
                first_address: r32(s, o + 4) as u32,
                second_address: r32(s, o + 8) as u32,
                attribute: r32(s, o + 12) as u32,
            }),
        }
    }
    fn cplx(v: u8) -> DeviceComplexity {
        if v == 1 { DeviceComplexity::Bridge } else { DeviceComplexity::Simple }
    }

    #[no_mangle]
    pub fn h_pcix(s: &[u8]) {
        #[inline(never)]
        fn real(s: &[u8]) -> Result<PciX, PciXError> {
            PciX::try_from(s)
        }
        let r = real(s);
        if s.len() < 6 {
            eq!(r.err(), Some(PciXError::CommandAndStatus), "too short for command and status");
            return;
        }
        let c = r16(s, 0);
        let v = f::<u8>(c, 12, 2);
        match (r, x_ecc_block(v, s, 6)) {
            (Ok(p), Some(e)) => {
                reach!();
                eq!(p.command, regs!(c, Command {
                    uncorrectable_data_error_recovery_enable@0, enable_relaxed_ordering@1,
                    maximum_memory_read_byte_count@2:2 => MaximumByteCount,
                    maximum_outstanding_split_transactions@4:3 => MaximumOutstandingSplitTransactions,
                }), "PCI-X command");
                eq!(p.status, regs!(r32(s, 2), Status {
                    function_number@0:3, device_number@3:5, bus_number@8:8, device_64_bit@16, pci_x_133_capable@17,
                    slit_completion_discarded@18, unexpected_split_completion@19, device_complexity@20:1 => cplx,
                    designed_maximum_memory_read_byte_count@21:2 => MaximumByteCount,
                    designed_maximum_outstanding_split_transactions@23:3 => MaximumOutstandingSplitTransactions,
                    designed_maximum_cumulative_read_size@26:3 => MaximumCumulativeReadSize,
                    received_split_completion_error_message@29, pci_x_266_capable@30, pci_x_533_capable@31,
                }), "PCI-X status");
                eq!(p.ecc, e, "PCI-X ECC registers");
                // derived values
                for (m, lo) in [(&p.command.maximum_memory_read_byte_count, 18u32), (&p.status.designed_maximum_memory_read_byte_count, 21)] {
                    let code: u8 = if lo == 18 { f(c, 2, 2) } else { f(r32(s, 2), lo, 2) };
                    let want = match code { 0 => 512, 1 => 1024, 2 => 2048, _ => 4096 };
                    eq!(m.value(), want, "maximum byte count");
                }
                for (m, code) in [
                    (&p.command.maximum_outstanding_split_transactions, f::<u8>(c, 4, 3)),
                    (&p.status.designed_maximum_outstanding_split_transactions, f(r32(s, 2), 23, 3)),
                ] {
                    let want = match code { 0 => 1, 1 => 2, 2 => 3, 3 => 4, 4 => 8, 5 => 12, 6 => 16, _ => 32 };
                    eq!(m.value(), want, "maximum outstanding split transactions");
                }
                let m = &p.status.designed_maximum_cumulative_read_size;
                let want = match f::<u8>(r32(s, 2), 26, 3) { 0 => 8, 1 => 16, 2 => 32, 3 => 64, 4 => 128, 5 => 256, 6 => 512, _ => 1024 };
                eq!(m.adqs(), want, "maximum cumulative read size in ADQs");
                eq!(m.bytes(), want * 128, "maximum cumulative read size in bytes (one ADQ is 128 bytes)");
            }
            (Err(e), None) => {
                reach!();
                eq!(e, if v == 1 { PciXError::EccMode2Only } else { PciXError::EccMode1OrMode2 }, "ECC registers cut off");
            }
            _ => ck!(false, "PCI-X decodes exactly when its registers are present"),
        }
    }

    table!(bus_mode -> SecondaryBusMode { 0 => Conventional, 1..=7 => Mode1, 8..=11 => PciX266, _ => PciX533 });
    table!(protect -> ErrorProtection { 0..=3 => Parity, _ => Ecc });
    table!(freq -> SecondaryBusFrequency { 0 => NotAvailable, 4 | 8 | 12 => Reserved, 1 | 5 | 9 | 13 => Freq66MHz, 2 | 6 | 10 | 14 => Freq100MHz, _ => Freq133MHz });

    #[no_mangle]
    pub fn h_pcix_bridge(s: &[u8]) {
        #[inline(never)]
        fn real(s: &[u8]) -> Result<PciXBridge, PciXBridgeError> {
            PciXBridge::try_from(s)
        }
        let r = real(s);
        if s.len() < 14 {
            eq!(r.err(), Some(PciXBridgeError::Mandatory), "too short for the mandatory registers");
            return;
        }
        let c = r16(s, 0);
        let v = f::<u8>(c, 12, 2);
        match (r, x_ecc_block(v, s, 14)) {
            (Ok(p), Some(e)) => {
                reach!();
                let want = regs!(c, SecondaryStatus {
                    device_64_bit@0, pci_x_133_capable@1, slit_completion_discarded@2, unexpected_split_completion@3,
                    split_completion_overrun@4, split_request_delayed@5, secondary_bus_mode@6:4 => bus_mode,
                    error_protection@6:4 => protect, secondary_bus_frequency@6:4 => freq, pci_x_266_capable@14, pci_x_533_capable@15,
                });
                eq!(p.secondary_status, want, "secondary status");
                eq!(p.secondary_status.secondary_bus_mode_and_frequency(), f::<u8>(c, 6, 4), "bus mode and frequency code");
                eq!(p.bridge_status, regs!(r32(s, 2), BridgeStatus {
                    function_number@0:3, device_number@3:5, bus_number@8:8, device_64_bit@16, pci_x_133_capable@17,
                    slit_completion_discarded@18, unexpected_split_completion@19, split_completion_overrun@20,
                    split_request_delayed@21, device_id_messaging_capable@29, pci_x_266_capable@30, pci_x_533_capable@31,
                }), "bridge status");
                eq!(p.upstream_split_transaction_control, regs!(r32(s, 6), SplitTransactionControl {
                    split_transaction_capacity@0:16, split_transaction_commitment_limit@16:16
                }), "upstream split transaction control");
                eq!(p.downstream_split_transaction_control, regs!(r32(s, 10), SplitTransactionControl {
                    split_transaction_capacity@0:16, split_transaction_commitment_limit@16:16
                }), "downstream split transaction control");
                eq!(p.ecc, e, "PCI-X bridge ECC registers");
            }
            (Err(e), None) => {
                reach!();
                eq!(e, if v == 1 { PciXBridgeError::BridgeEccMode2Only } else { PciXBridgeError::BridgeEccMode1OrMode2 }, "ECC registers cut off");
            }
            _ => ck!(false, "PCI-X bridge decodes exactly when its registers are present"),
        }
    }
}

pub mod ht {
    use super::*;
    use pcics::capabilities::hypertransport::*;
    use pcics::capabilities::Hypertransport;
    use HypertransportError as E;

    fn ctl(w: u64) -> LinkControl {
        regs!(w, LinkControl {
            source_id_enable@0, crc_flood_enable@1, crc_start_test@2, crc_force_error@3, link_failure@4, initialization_complete@5,
            end_of_chain@6, transmitter_off@7, crc_error@8:4, isochronous_flow_control_enable@12, ldtstop_tristate_enable@13,
            extended_ctl_time@14, enable_64_bit_addressing@15,
        })
    }
    table!(width -> LinkWidth { 0 => Width8bits, 1 => Width16bits, 3 => Width32bits, 4 => Width2bits, 5 => Width4bits, 7 => NotConnected, v => Reserved(v) });
    fn cfg(w: u64) -> LinkConfiguration {
        regs!(w, LinkConfiguration {
            max_link_width_in@0:3 => width, doubleword_flow_control_in@3, max_link_width_out@4:3 => width, doubleword_flow_control_out@7,
            link_width_in@8:3 => width, doubleword_flow_control_in_enable@11, link_width_out@12:3 => width,
            doubleword_flow_control_out_enable@15,
        })
    }
    fn rev(w: u64) -> RevisionId {
        regs!(w, RevisionId { minor@0:5, major@5:3 })
    }
    fn err(w: u64) -> LinkError {
        regs!(w, LinkError { protocol_error@4, overflow_error@5, end_of_chain_error@6, ctl_timeout@7 })
    }
    fn fcap(w: u64) -> LinkFrequencyCapability {
        regs!(w, LinkFrequencyCapability {
            supports_200mhz@0, supports_300mhz@1, supports_400mhz@2, supports_500mhz@3, supports_600mhz@4, supports_800mhz@5,
            supports_1000mhz@6, supports_1200mhz@7, supports_1400mhz@8, supports_1600mhz@9, supports_1800mhz@10, supports_2000mhz@11,
            supports_2200mhz@12, supports_2400mhz@13, supports_2600mhz@14, supports_vendor_specific@15,
        })
    }
    fn feat(w: u64) -> FeatureCapability {
        regs!(w, FeatureCapability {
            isochronous_flow_control_mode@0, ldtstop@1, crc_test_mode@2, extended_ctl_time_required@3, qword_addressing@4,
            unitid_reorder_disable@5, source_identification_extension@6, extended_register_set@8, upstream_configuration_enable@9,
        })
    }
    fn eh(w: u64) -> ErrorHandling {
        regs!(w, ErrorHandling {
            protocol_error_flood_enable@0, overflow_error_flood_enable@1, protocol_error_fatal_enable@2, overflow_error_fatal_enable@3,
            end_of_chain_error_fatal_enable@4, response_error_fatal_enable@5, crc_error_fatal_enable@6, system_error_fatal_enable@7,
            chain_fail@8, response_error@9, protocol_error_nonfatal_enable@10, overflow_error_nonfatal_enable@11,
            end_of_chain_error_nonfatal_enable@12, response_error_nonfatal_enable@13, crc_error_nonfatal_enable@14,
            system_error_nonfatal_enable@15,
        })
    }
    fn x_freq(ext: bool, v: u8) -> LinkFrequency {
        use LinkFrequency::*;
        if ext {
            return match v { 1 => Rate2800MHz, 2 => Rate3000MHz, 3 => Rate3200MHz, v => Reserved(16 + v) };
        }
        match v {
            0 => Rate200MHz, 1 => Rate300MHz, 2 => Rate400MHz, 3 => Rate500MHz, 4 => Rate600MHz, 5 => Rate800MHz, 6 => Rate1000MHz,
            7 => Rate1200MHz, 8 => Rate1400MHz, 9 => Rate1600MHz, 10 => Rate1800MHz, 11 => Rate2000MHz, 12 => Rate2200MHz,
            13 => Rate2400MHz, 14 => Rate2600MHz, _ => VendorSpecific,
        }
    }
    #[inline(never)]
    fn real(s: &[u8]) -> Result<Hypertransport, HypertransportError> {
        Hypertransport::try_from(s)
    }
    #[inline(never)]
    fn x_ht(s: &[u8]) -> Result<Hypertransport, HypertransportError> {
        use Hypertransport as H;
        if s.len() < 2 {
            return Err(E::CapabilityType);
        }
        let c = r16(s, 0);
        Ok(match f::<u8>(c, 11, 5) {
            0..=3 => {
                if s.len() < 26 { return Err(E::SlaveOrPrimaryInterface); }
                H::SlaveOrPrimaryInterface(SlaveOrPrimaryInterface {
                    command: regs!(c, SlaveOrPrimaryCommand { base_unitid@0:5, unit_count@5:5, master_host@10, default_direction@11, drop_on_uninitialized_link@12 }),
                    link_control_0: ctl(r16(s, 2)),
                    link_config_0: cfg(r16(s, 4)),
                    link_control_1: ctl(r16(s, 6)),
                    link_config_1: cfg(r16(s, 8)),
                    revision_id: rev(r8(s, 10)),
                    link_freq_0: s[11] & 15,
                    link_error_0: err(r8(s, 11)),
                    link_freq_cap_0: fcap(r16(s, 12)),
                    feature: feat(r8(s, 14)),
                    link_freq_1: s[15] & 15,
                    link_error_1: err(r8(s, 15)),
                    link_freq_cap_1: fcap(r16(s, 16)),
                    enumeration_scratchpad: r16(s, 18) as u16,
                    error_handling: eh(r16(s, 20)),
                    mem_base_upper: s[22],
                    mem_limit_upper: s[23],
                    bus_number: s[24],
                })
            }
            4..=7 => {
                if s.len() < 22 { return Err(E::HostOrSecondaryInterface); }
                H::HostOrSecondaryInterface(HostOrSecondaryInterface {
                    command: regs!(c, HostOrSecondaryCommand {
                        warm_reset@0, double_ended@1, device_number@2:5, chain_side@7, host_hide@8, act_as_slave@10,
                        host_inbound_end_of_chain_error@11, drop_on_uninitialized_link@12
                    }),
                    link_control: ctl(r16(s, 2)),
                    link_config: cfg(r16(s, 4)),
                    revision_id: rev(r8(s, 6)),
                    link_freq: s[7] & 15,
                    link_error: err(r8(s, 7)),
                    link_freq_cap: fcap(r16(s, 8)),
                    feature: feat(r16(s, 10)),
                    enumeration_scratchpad: r16(s, 14) as u16,
                    error_handling: eh(r16(s, 16)),
                    mem_base_upper: s[18],
                    mem_limit_upper: s[19],
                })
            }
            8 => H::Switch(Switch {}),
            9 => H::ReservedHost(ReservedHost {}),
            16 => H::InterruptDiscoveryAndConfiguration(InterruptDiscoveryAndConfiguration {}),
            17 => H::RevisionId(rev(r8(s, 0))),
            18 => H::UnitIdClumping(UnitIdClumping {}),
            19 => H::ExtendedConfigurationSpaceAccess(ExtendedConfigurationSpaceAccess {}),
            20 => H::AddressMapping(AddressMapping {}),
            21 => {
                if s.len() < 10 { return Err(E::MsiMapping); }
                H::MsiMapping(MsiMapping { enabled: bit(c, 0), fixed: bit(c, 1), base_address_lower: r32(s, 2) as u32, base_address_upper: r32(s, 6) as u32 })
            }
            22 => H::DirectRoute(DirectRoute {}),
            23 => H::VCSet(VCSet {}),
            24 => H::RetryMode(RetryMode {}),
            25 => H::X86Encoding(X86Encoding {}),
            26 => H::Gen3(Gen3 {}),
            27 => H::FunctionLevelExtension(FunctionLevelExtension {}),
            28 => H::PowerManagement(PowerManagement {}),
            29 => H::HighNodeCount(HighNodeCount {}),
            v => H::Reserved(v),
        })
    }
    #[no_mangle]
    pub fn h_ht(s: &[u8]) {
        let r = real(s);
        eq!(r, x_ht(s), "HyperTransport block");
        if let Ok(h) = r {
            let t: u8 = f(r16(s, 0), 11, 5);
            eq!(u8::from(&h), if t < 8 { t & 4 } else { t }, "capability type code");
            match h {
                Hypertransport::SlaveOrPrimaryInterface(p) => {
                    reach!();
                    for ext in [false, true] {
                        eq!(p.link_freq_0(ext), x_freq(ext, s[11] & 15), "link frequency 0");
                        eq!(p.link_freq_1(ext), x_freq(ext, s[15] & 15), "link frequency 1");
                    }
                    eq!(u8::from(&p.revision_id), s[10], "revision id round trip");
                }
                Hypertransport::HostOrSecondaryInterface(p) => {
                    reach!();
                    for ext in [false, true] {
                        eq!(p.link_freq(ext), x_freq(ext, s[7] & 15), "link frequency");
                    }
                }
                Hypertransport::MsiMapping(m) => {
                    reach!();
                    eq!(m.base_address(), r64(s, 2) & !0xf_ffff, "MSI mapping base address");
                }
                Hypertransport::Reserved(_) => reach!(),
                _ => {}
            }
        }
    }
}
