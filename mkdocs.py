"""writes properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)"""
import json
H, CAP, EXT = 'src/header.rs', 'src/capabilities.rs', 'src/extended_capabilities.rs'
c = lambda *n: ['src/capabilities/%s.rs' % x for x in n]
x = lambda *n: ['src/extended_capabilities/%s.rs' % x for x in n]
IN = 'every byte string up to the stated length, symbolic bytes and symbolic length'
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


prop('C01', 'No input makes parsing panic, overflow, read out of bounds or loop forever',
     'Decoding any byte string as configuration space - the header, either capability list, any single capability structure, and every iterator and accessor reached from the decoded values - always returns. '
     'It never panics, never overflows arithmetic, never touches memory outside the given slice, and every iterator ends after finitely many items.',
     'all byte strings of all lengths (truncated, corrupt, adversarial), for every public decoder',
     'Tests feed a few well-formed register dumps; truncation at each length and corrupt pointers, counts and sizes are never sampled.',
     [H, CAP, EXT], [('length-checked slicing before each field, iteration budgets', 'src/**/*.rs')])
prop('C02', 'The common header fields are decoded from their registers for every header',
     'For every slice of at least 64 bytes the decoded vendor/device ids, command, status, revision, class code, cache line size, latency timer, header layout code, multi-function flag, BIST and interrupt line/pin equal the specified bits of the input, '
     'and every shorter slice is rejected. Command, status and the other common registers that can be encoded back give the same register value.',
     'all 64-byte headers, all shorter slices', 'The tests decode one device; one swapped or shifted bit in a register they leave zero goes unnoticed.',
     [H, 'src/header/command.rs', 'src/header/status.rs', 'src/header/class_code.rs'], [('bit-field decoding of the 64 byte header', H), ('register conversions', 'src/header/command.rs, src/header/status.rs')])
prop('C03', 'Type 0, bridge and CardBus header layouts decode every register where specified',
     'For each header layout the layout-specific registers (subsystem ids, bus numbers, I/O, memory and prefetchable windows with their addressing width, expansion ROM, bridge control, secondary status, CardBus windows and optional registers) are decoded from exactly the bytes of that layout, '
     'and the layout reported is the one the header type names.',
     'all header bytes for layouts 0, 1, 2 and the reserved ones', 'A handful of dumps of one layout each; windows with limit below base, upper halves, and 16/32/64-bit variants are not combined.',
     [H, 'src/header/bridge_control.rs', 'src/header/cardbus_bridge_control.rs'], [('layout selection by header type', H), ('window constructors', H)])
prop('C04', 'Base address registers decode and re-encode to the same values',
     'For every content of the base address registers the decoded list names for each implemented register its index, kind (I/O, 32-bit, 1 MB, 64-bit), prefetchability and address, with a 64-bit entry consuming two registers and a dangling one in the last slot or a reserved kind reported as such; unimplemented registers are skipped. '
     'Collecting decoded entries back into registers reproduces the original value (but for the reserved bit of an I/O register) of every I/O, 32-bit, 1 MB and complete 64-bit entry and leaves other registers zero, and two register sets compare equal exactly when they decode to the same entries.',
     'all 2^192 contents of six registers, all contents of two and one', 'Tests use four fixed register sets; 64-bit entries at the odd positions and at the end are not covered.',
     ['src/header/bar.rs'], [('iterator over register pairs', 'src/header/bar.rs')])
prop('C05', 'The capability list yields exactly the chained structures and always ends',
     'Walking the capability list of any device dependent region from any start pointer yields, in chain order and at the right offset with the right kind, every structure reachable through the next pointers, each kind chosen by the id byte. '
     'A pointer outside of the region or a truncated structure header gives one error, an error inside a structure does not stop the walk, and a cyclic list ends after a bounded number of items.',
     'all pointers, all chains (also cyclic, overlapping, unaligned) in regions within the bounds', 'Tests walk well-formed lists of two devices; the chains are the quantifier.',
     [CAP], [('pointer chasing with a budget', CAP)])
prop('C06', 'The extended capability list yields exactly the chained structures and ends',
     'Walking the extended configuration space yields, in chain order with the right id, version and offset, every structure reachable through the next-capability offsets, starting at 100h. '
     'An offset outside of the space or a truncated header gives one error, a structure that fails to decode does not stop the walk, an all-zero header ends it, and a cyclic list ends after a bounded number of items.',
     'all chains (also cyclic, overlapping, unaligned) in spaces within the bounds', 'Tests walk well-formed lists of a few devices.',
     [EXT], [('offset chasing with a budget', EXT)])
prop('C07', 'Each capability in the list is decoded from its own bytes by its own id',
     'Whatever its position in the list, a capability structure comes out exactly as decoding its own bytes (those after its two-byte header) as the structure type that its id names would, and an id without a decoder is reported as reserved with its number; one that does not decode is reported with that failure and its own position. '
     'Structures before or after it in the region never influence it.',
     'all ids, positions and contents within the bounds', 'Tests see each id at one position in one dump.',
     [CAP], [('dispatch on capability id', CAP)])
prop('C08', 'Each extended capability is decoded from its own bytes by its own id',
     'Whatever its offset in the extended configuration space, an extended capability structure comes out exactly as decoding its own bytes as the structure type that its id names would, and an unknown id is reported as reserved with its number; one that does not decode is reported with that failure and its own offset. '
     'The id an item reports is the one in its header, and structures before or after it never influence it.',
     'all ids, all contents, at offsets other than the start of the space', 'Tests decode most kinds alone at offset 0 or not at all from within a list.',
     [EXT], [('dispatch on extended capability id', EXT)])
prop('C09', 'Nested iterators yield the announced entries, in order, and nothing else',
     'Every iterator inside a structure (base addresses, enhanced allocation entries, virtual channels, arbitration tables, link entries, resizable BARs, egress control bits, lane controls, multiplexed protocols) yields exactly as many entries as the registers announce and the data holds, each decoded from its own position, and then ends for good. '
     'Absent or truncated tables never yield entries made of other bytes.',
     'all counts, sizes and truncations', 'Tests check one table per structure, and several structures have none.',
     ['src/header/bar.rs'] + c('enhanced_allocation') + x('virtual_channel', 'multifunction_virtual_channel', 'root_complex_link_declaration', 'resizable_bar', 'access_control_services', 'secondary_pci_express', 'protocol_multiplexing'),
     [('bounded iterators over sub-slices', 'src/extended_capabilities/*.rs')])
prop('C10', 'Power management and the small legacy capabilities decode bit for bit',
     'Power management, vital product data, slot identification, advanced features, SATA, debug port and bridge subsystem id structures are accepted exactly when all their registers are present, and every decoded field equals the specified bits of its register, reserved encodings included. '
     'Derived values (power data with scale and select, SATA offset in bytes, PME support) follow from those fields.',
     'all register values, all lengths', 'One sample per structure in tests.',
     c('power_management_interface', 'vital_product_data', 'slot_identification', 'advanced_features', 'sata', 'debug_port', 'bridge_subsystem_vendor_id'), [('bit-field decoding', 'src/capabilities/*.rs')])
prop('C11', 'MSI and MSI-X structures decode bit for bit in all their layouts',
     'The MSI structure is laid out by its 64-bit and per-vector-masking flags: message address, data, mask and pending are decoded from the right place in each of the four layouts, or the structure is rejected as truncated. '
     'Vector counts, and the MSI-X table size and table / pending-array BAR and offset, equal the specified bits.',
     'all register values, all layouts, all lengths', 'Tests cover one layout with one value.', c('message_signaled_interrups', 'msi_x'), [('layout by message control', c('message_signaled_interrups')[0])])
prop('C12', 'AGP and PCI-X structures decode bit for bit',
     'AGP and PCI-X (endpoint and bridge layout, chosen by the header) structures are accepted exactly when all their registers are present, and each field equals the specified bits. '
     'Derived quantities (byte counts, outstanding transactions, cumulative read size) equal the values the encodings stand for.',
     'all register values, all lengths, both layouts', 'One sample per layout.', c('accelerated_graphics_port', 'pci_x'), [('bit-field decoding', 'src/capabilities/pci_x.rs')])
prop('C13', 'HyperTransport capability types decode to the right kind and bits',
     'The capability type bits (3-bit and 5-bit codes) select the HyperTransport block kind for every command register value, and the slave/primary, host/secondary, and MSI mapping blocks decode each link, width, frequency, error and feature field from its specified bits. '
     'Encoded enumerations map each code to its documented meaning and back.',
     'all register values, all type codes, all lengths', 'Two dumps in tests.', c('hypertransport'), [('type code dispatch', c('hypertransport')[0])])
prop('C14', 'Vendor-specific and virtio structures decode by vendor, type and length',
     'A vendor-specific structure exposes exactly the bytes its own length covers, and is decoded as a virtio structure exactly when the device is a virtio device and the structure is long enough for its type; '
     'every virtio field then equals its little-endian register, and truncated structures are rejected.',
     'all vendor/device ids, lengths and contents', 'One virtio dump.', c('vendor_specific'), [('length-delimited slice, virtio selection', c('vendor_specific')[0])])
prop('C15', 'Enhanced Allocation and flattening portal bridge structures decode exactly',
     'Each enhanced allocation entry is decoded from its own dwords with its size honoured: base and maximum offset have the width their size bits select, and properties, BAR equivalent and flags equal their bits; a truncated entry ends the list and a truncated structure gives an error naming what is missing. '
     'Flattening portal bridge fields equal their specified bits and derived vector sizes and starts follow the encodings.',
     'all entry counts, sizes and contents within the bounds', 'One dump of one entry.', c('enhanced_allocation', 'flattening_portal_bridge'), [('variable length entries', c('enhanced_allocation')[0])])
prop('C16', 'PCI Express capability registers decode by version and device type, bit for bit',
     'The PCI Express structure exposes link, slot and root registers exactly for the device/port types that have them (and is rejected when required ones are missing) and second-generation registers exactly when version and length allow, and every field of every register equals its specified bits with each enumerated code mapped to its documented meaning. '
     'Derived quantities (slot power limit, completion timeout ranges, payload sizes, speeds) equal the values their encodings stand for, and link speeds and widths order as those values do.',
     'all register values, versions, port types and lengths', 'A few dumps; the combination of version, type and length is not covered.', c('pci_express'), [('presence by version and type', c('pci_express')[0])])
prop('C17', 'AER and downstream port containment registers decode bit for bit',
     'Advanced error reporting status, mask, severity, control, header log, root command/status, source ids and prefix log are decoded from their own registers, with the optional ones present exactly when the data is there; '
     'downstream port containment control, status, trigger reason and root-port registers likewise.',
     'all register values, all lengths', 'One or two dumps with mostly zero registers.', x('advanced_error_reporting', 'downstream_port_containment'), [('bit-field decoding', 'src/extended_capabilities/*.rs')])
prop('C18', 'Virtual channel structures expose the announced channels and tables',
     'The virtual channel and multi-function virtual channel structures list exactly the announced number of virtual channels, each from its own registers, and the arbitration tables found at the announced offsets with the size the selected scheme implies. '
     'Table entries are cut with the announced width; absent or truncated tables give none.',
     'all counts, offsets, schemes, widths and contents within the bounds', 'One dump.', x('virtual_channel', 'multifunction_virtual_channel'), [('offset and size arithmetic', 'src/extended_capabilities/virtual_channel.rs')])
prop('C19', 'Root complex, access correlation and serial number structures decode exactly',
     'Root complex link declaration (self description and each link entry of its type), internal link control, event collector association, register block header, configuration access correlation and device serial number expose exactly the specified bits of their registers. '
     'Each is accepted exactly when its registers are present.',
     'all register values, entry counts and lengths', 'Few dumps.', x('root_complex_link_declaration', 'root_complex_internal_link_control', 'root_complex_event_collector_endpoint_association', 'root_complex_register_block_header', 'configuration_access_correlation', 'device_serial_number'), [('bit-field decoding', 'src/extended_capabilities/*.rs')])
prop('C20', 'SR-IOV and resizable BAR structures decode exactly',
     'Single root I/O virtualization registers (VF counts, offset, stride, page sizes, VF BARs, migration) equal their specified bits; the resizable BAR structure lists the announced entries, each with its supported sizes, index and size. '
     'The sizes reported as supported are those whose bits are set.',
     'all register values, entry counts and lengths', 'One dump each.', x('single_root_io_virtualization', 'resizable_bar'), [('bit-field decoding', 'src/extended_capabilities/*.rs')])
prop('C21', 'Power budgeting, DPA, L1 PM, LTR and readiness structures decode exactly',
     'Power budgeting, dynamic power allocation, L1 PM substates, latency tolerance and readiness time structures expose the specified bits of their registers, and the times and powers computed from value and scale equal what the encodings stand for. '
     'Substate arrays have the announced length.',
     'all register values and lengths', 'One dump each.', x('power_budgeting', 'dynamic_power_allocation', 'l1_pm_substates', 'latency_tolerance_reporting', 'readiness_time_reporting'), [('bit-field decoding', 'src/extended_capabilities/*.rs')])
prop('C22', 'ACS, ARI, ATS, page request, PASID, TPH and multicast structures decode exactly',
     'Every field of the access control, alternative routing id, address translation, page request, process address space, TPH requester and multicast structures equals its specified bits, and each structure is accepted exactly when its registers are present. '
     'The egress control vector has the announced number of bits and the TPH steering table the announced location and size.',
     'all register values and lengths', 'One dump each.', x('access_control_services', 'alternative_routing_id_interpolation', 'address_translation_services', 'page_request_interface', 'process_address_space_id', 'tph_requester', 'multicast'), [('bit-field decoding', 'src/extended_capabilities/*.rs')])
prop('C23', 'Secondary PCIe, PMUX, M-PHY, FRS, PTM and LN structures decode exactly',
     'Secondary PCI Express with its lane equalization controls, protocol multiplexing with its protocol array, PCI Express over M-PHY, function readiness queuing, precision time measurement and LN requester structures expose the specified bits of their registers. '
     'Each is accepted exactly when its registers are present, and lane and protocol entries are decoded from their own position.',
     'all register values, entry counts and lengths', 'One dump each.', x('secondary_pci_express', 'protocol_multiplexing', 'pci_express_over_m_phy', 'frs_queuing', 'precision_time_measurement', 'ln_requester'), [('bit-field decoding', 'src/extended_capabilities/*.rs')])
prop('C24', 'Vendor-specific extended structures and CXL registers decode exactly',
     'Vendor-specific and designated vendor-specific extended structures expose id, revision, length and exactly the bytes their length covers, rejecting lengths that do not fit. '
     'The CXL device structure is recognised by vendor and id, and each of its registers equals its specified bits.',
     'all vendors, ids, lengths and contents', 'One dump each.', x('vendor_specific_extended_capability', 'designated_vendor_specific_extended_capability', 'designated_vendor_specific_extended_capability/compute_express_link'), [('length-delimited slice, CXL dispatch', 'src/extended_capabilities/designated_vendor_specific_extended_capability*')])
prop('C25', 'Values that can be encoded back give the register they were decoded from',
     'Wherever the library converts a decoded value back into its register form - header registers, CardBus ranges, BARs, link and slot codes, latency, L1 substates, arbitration selects, link entries, CXL ranges and so on - decoding then encoding restores every defined bit, and each enumerated code converts back to itself.',
     'all register values and all codes of every enumeration', 'Tests convert back one value of a few registers.',
     [H, 'src/capabilities/', 'src/extended_capabilities/'], [('From conversions in both directions', 'src/**/*.rs')])
prop('C26', 'Class codes are named as the PCI code assignment names them',
     'For every class code the base class, sub-class and programming interface names reported are the ones the PCI code and id assignment (in the words of the pci.ids database) has for it. '
     'Codes without an assignment get no name: the base class is reported as reserved, and an unnamed sub-class never comes with a named interface.',
     'all 2^24 class codes', 'One class code is tested.', ['src/header/class_code.rs'], [('name table', 'src/header/class_code.rs')])
prop('C27', 'Values that carry entries compare equal only when the entries left agree',
     'Base address sets, enhanced allocation entries, arbitration tables, egress control bits, resizable BARs, link entries and multiplexed protocols that compare equal yield the same remaining entries, also when both have been read in part. '
     'Equality is symmetric, a value equals its copy, and the same bytes give equal values wherever they lie.',
     'all pairs of contents, after any of the first few entries have been taken', 'Tests compare decoded values with expected ones through this very equality, so a too generous one hides errors.',
     x('virtual_channel', 'multifunction_virtual_channel', 'resizable_bar', 'access_control_services', 'protocol_multiplexing', 'root_complex_link_declaration') + c('enhanced_allocation') + ['src/header/bar.rs'],
     [('hand-written PartialEq of iterators', 'src/extended_capabilities/*.rs, src/header/bar.rs')], over=('inputs', 'histories'))
prop('C28', 'A rejected structure says which of its parts is missing',
     'When a structure made of several parts (MSI, PCI Express, PCI-X, HyperTransport, vendor-specific, enhanced allocation, AER, DPC, MFVC, link declaration, resizable BAR, DPA, PMUX, DVSEC) cannot be decoded, the error variant names the first part that is missing or wrong. '
     'What the error carries - expected and found amounts, the length or count at fault, the registers already read - are those of the structure at hand.',
     'all structures of any length, cut off anywhere, with any contents', 'Tests hardly ever look at errors.',
     c('message_signaled_interrups', 'pci_express', 'pci_x', 'hypertransport', 'vendor_specific', 'enhanced_allocation') + x('advanced_error_reporting', 'downstream_port_containment', 'multifunction_virtual_channel', 'root_complex_link_declaration', 'resizable_bar', 'dynamic_power_allocation', 'protocol_multiplexing', 'designated_vendor_specific_extended_capability'),
     [('error enums and where they are raised', 'src/capabilities/*.rs, src/extended_capabilities/*.rs')])
prop('C29', 'Entries come out the same whichever way they are taken',
     'For every iterator of the library - both capability lists, base addresses, allocation, link, lane, protocol, BAR, channel and arbitration entries, egress bits - taking entries by position, skipping, searching, counting, taking the last one or folding over all of them agrees with taking them one by one, also after an entry has been taken. '
     'The announced size never contradicts the number of entries that follow, and a copy goes on where the original stood.',
     'all contents and lengths within the bounds, fresh iterators and ones an entry has been taken from', 'Tests collect entries in one way only.',
     ['src/capabilities.rs', 'src/extended_capabilities.rs', 'src/header/bar.rs'] + c('enhanced_allocation') + x('virtual_channel', 'multifunction_virtual_channel', 'resizable_bar', 'access_control_services', 'protocol_multiplexing', 'root_complex_link_declaration', 'secondary_pci_express'),
     [('Iterator implementations', 'src/**/*.rs')], over=('inputs', 'histories'))
prop('C30', 'Different conversions of the same bytes or value agree',
     'Where the library has more than one conversion for the same thing, they give the same result: a structure from a fixed-size array, from a slice of that size and from a longer slice (header, MSI-X, bridge subsystem id, flattening portal bridge, SR-IOV, LN requester, access correlation, root complex structures), HyperTransport blocks and virtual channels on their own and as part of their structure. '
     'The same goes for conversions by value and by reference, from nested and flat registers, and into wider integers.',
     'all byte contents and lengths', 'Tests use one of the conversions.',
     ['src/header.rs'] + c('msi_x', 'bridge_subsystem_vendor_id', 'flattening_portal_bridge', 'hypertransport') + x('single_root_io_virtualization', 'ln_requester', 'configuration_access_correlation', 'root_complex_internal_link_control', 'root_complex_register_block_header', 'root_complex_event_collector_endpoint_association', 'virtual_channel', 'multifunction_virtual_channel'),
     [('From<[u8; N]> and TryFrom<&[u8]>', 'src/**/*.rs')])

TECH = 'symbolic execution of the LLVM IR of /repo with z3 (assertions over all inputs within bounds)'
NOTE = ('Bounded: decided by z3 for every byte string of the input lengths stated in the evidence file (functions encoded from the LLVM IR that rustc makes of the current /repo tree). '
        'Trusts rustc/LLVM, the IR semantics of irsym (solver models are replayed natively on every run) and z3; longer inputs are outside of the bounds. Counterexamples count only if the native code reproduces them.')
if __name__ == '__main__':
    import jobs
    with open('properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    NA = []
    HOOKS = dict(guard='--cfg pcics_verif', enable='irsym/build.sh passes RUSTFLAGS="--cfg pcics_verif" to cargo', source_commits=['426c68cc18d837d87f48dcf180bc4afa53b32fed'])
    json.dump(dict(version=1, hooks=HOOKS, setup_cmd='bash irsym/build.sh ir && bash irsym/build.sh native && bash irsym/build.sh ir ea_real && bash irsym/build.sh native ea_real',
                   checks=[dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'], thorough_cmd='python3-vt check.py %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                                technique=TECH, level='model_checking', level_note=NOTE) for p in P if p['id'] in jobs.PROPS],
                   not_applicable=NA), open('MANIFEST.json', 'w'), indent=1)
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, s)
        assert len(p['statement'].split('. ')) <= 3, p['id']
    jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
