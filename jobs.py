"""Which harness runs decide which property, and within which bounds on the input length.

A job is (harness, lo, hi) or (harness, lo, hi, {'pin': {byte index: value}, 'label': text}); it covers every byte string of every
length lo..hi (pinned bytes excepted). `down` gives smaller upper bounds to fall back to when the solver runs out of time; the
evidence file always states the bounds that were really decided.
"""


# whole conventional and extended configuration space
L, X = 256, 4096


def J(h, lo, hi, t=None, down=(), pin=None, label='', feature='', cost=1, deep=False):
    """hi: quick upper bound, t: thorough upper bound, deep: only in the thorough tier"""
    # should the code no longer be free of loops, smaller spaces are still decided
    down = down or {L: (128, 72, 40), X: (600, 128, 72)}.get(hi, ())
    return dict(h=h, lo=lo, hi=hi, t=t or hi, down=[x for x in down if x > lo], pin=pin or {}, label=label, feature=feature, cost=cost, deep=deep)


HEADER = [J('h_header_common', 0, L, cost=2), J('h_header_roundtrip', 8, 8)]
LAYOUT = [J('h_header_normal', 0, L, cost=2), J('h_header_bridge', 0, L, cost=2), J('h_header_cardbus', 0, L, cost=3)]
BARS = [J('h_bars6', 24, 24, cost=40), J('h_bars2', 8, 8, cost=3), J('h_bars1', 4, 4), J('h_bars_eq', 17, 17, cost=5), J('h_bars_eq3', 25, 25, cost=8), J('h_bars_eq6', 49, 49, pin={k: 0 for k in [*range(12), *range(24, 36)]}, label='last three', cost=8),
        J('h_bars_collect_small', 24, 24, cost=5)]
WALK = [J('h_walk', 2, 12, 16, down=(12, 10, 8, 6), cost=25), J('h_walk_far', 1, 193, label='two steps', cost=8), J('h_walk_far3', 1, 193, label='three steps', cost=30)]
EWALK = [J('h_ewalk', 0, 15, 18, down=(15, 12, 8), cost=100), J('h_ewalk_far', 0, 400, 3840, down=(400, 100), label='two steps', cost=20),
         J('h_ewalk_far', 3840, 3840, label='two steps', cost=90)]


def own():
    # every id and pointer in a small region, then each id on its own with all of its registers present
    j = [J('h_own', 6, 30, 60, down=(14,), cost=8)]
    size = {1: 6, 2: 34, 3: 6, 4: 2, 5: 22, 7: 30, 8: 26, 9: 24, 10: 2, 13: 6, 16: 58, 17: 10, 18: 6, 19: 4, 20: 26, 21: 34}
    for i, n in size.items():
        j.append(J('h_own', 12 + n, 14 + n, pin={0: 0x44, 10: i}, label='id %02x at 44' % i, cost=2))
    # at the very end of a full region
    for i, n in size.items():
        o = (0xc0 - 2 - n) & ~3
        free = set(range(6 + o, 6 + 0xc0)) | {1, 2, 3, 4, 5}
        j.append(J('h_own', 6 + 0xc0, 6 + 0xc0, pin={k: 0 for k in range(6 + 0xc0) if k not in free} | {0: o + 0x40, 6 + o: i}, label='id %02x at %02x' % (i, o + 0x40), cost=2))
    return j


def eown():
    j = [J('h_eown', 8, 12, 40, down=(24, 16, 12, 9), cost=20)]
    size = {1: 64, 2: 28, 3: 8, 4: 12, 5: 44, 6: 8, 7: 4, 8: 40, 9: 28, 10: 16, 11: 12, 12: 4, 13: 8, 14: 4, 15: 4, 16: 60, 18: 44, 19: 12,
            21: 24, 22: 20, 23: 14, 24: 4, 25: 12, 26: 20, 27: 4, 28: 4, 29: 52, 30: 12, 31: 8, 32: 24, 33: 12, 34: 8, 35: 52, 36: 24}
    for i, n in size.items():
        j.append(J('h_eown', 12 + n, 13 + n, pin={0: 0, 1: 0, 2: 0x81, 3: 0x10, 8: i, 9: 0}, label='id %04x at 108' % i, cost=2))
    # at the very end of a full space
    for i, n in size.items():
        o = (0xf00 - 4 - n) & ~3
        q = (o + 0x100) << 4 | 1
        j.append(J('h_eown', 0xf00, 0xf00, pin={k: 0 for k in range(o)} | {2: q & 255, 3: q >> 8, o: i, o + 1: 0}, label='id %04x at %03x' % (i, o + 0x100)))
    return j


def long_walk(n):
    # n structures in a row, the kind of the last one is free
    p = {0: 0x40, 1: 0}
    for k in range(n):
        p.update({2 + 4 * k: 0, 3 + 4 * k: 0x44 + 4 * k if k < n - 1 else 0, 4 + 4 * k: 0, 5 + 4 * k: 0})
    del p[2 + 4 * (n - 1)]
    return J('h_walk', 2 + 4 * n, 2 + 4 * n, pin=p, label='%d structures' % n)


def long_ewalk(n):
    p = {}
    for k in range(n):
        v = (0x104 + 4 * k if k < n - 1 else 0) << 20 | 0x10000
        p.update({4 * k + j: v >> 8 * j & 255 for j in range(4)})
    for j in range(2):
        del p[4 * (n - 1) + j]
    return J('h_ewalk', 4 * n, 4 * n, pin=p, label='%d structures' % n)


def full():
    """tables of their greatest size: the announced size is pinned, the content free"""
    j = {'VC': [J('h_vc_table_entries', 64, 64, label='128 phases'), J('h_vc_channels', 108, 108, pin={0: 7}, label='8 channels'), J('h_vc_table', 4092, 4092, label='whole space', cost=3),
                J('h_vc_port_table', 4104, 4104, label='whole space', cost=20)],
         'MFVC': [J('h_mfvc_channels', 176, 176, pin={16 + 12 * i + 3: 7 if i == 7 else 0 for i in range(8)} | {4: 7, 5: 0}, label='8 channels', cost=20),
                  J('h_mfvc_channels', 240, 240, pin={16 + 12 * i + 3: 7 if i == 7 else 0 for i in range(8)} | {4: 7, 5: 8}, label='8 channels, 4 bits', deep=True)],
         'RC': [J('h_rcld_all', 12 + 255 * 16, 12 + 255 * 16, pin={1: 255}, label='255 entries', cost=30)],
         'ACCESS': [J('h_egress', 33, 33, pin={0: 255}, label='255 bits')] + [J('h_acs_vector', 4 + (n + 31) // 32 * 4, 4 + (n + 31) // 32 * 4, pin={1: n}, label='%d bits' % n) for n in range(1, 256)] + \
             [J('h_acs_vector', 4, 3 + (n + 31) // 32 * 4, pin={1: n}, label='%d bits, truncated' % n) for n in (1, 32, 33, 64, 128, 160, 255)],
         'LINK': [J('h_secpcie_lanes', 9 + 2 * w, 9 + 2 * w, pin={0: w}, label='x%d' % w) for w in (1, 2, 4, 8, 12, 16, 32)] + [J('h_pmux', 268, 268, pin={4: 63}, label='63 entries')],
         'EA': [J('h_ea', 3 + n * 4 * (es + 1), 3 + n * 4 * (es + 1), pin={3 + i * 4 * (es + 1): es for i in range(n)} | {0: 0, 1: n}, label='%d entries of %d dwords' % (n, es + 1), cost=5)
                for es, n in ((2, 15), (3, 9), (4, 9))]}
    for k in range(4):
        j['VC'].append(J('h_vc_port_table_entries', 1 + (32 << k), 1 + (32 << k), pin={0: k}, label='256 phases of %d bits' % (1 << k)))
        j['MFVC'].append(J('h_mfvc_entries', 1 + (32 << k), 1 + (32 << k), pin={0: k}, label='256 phases of %d bits' % (1 << k)))
    return j


OWN, EOWN = own(), eown()
FULL = full()
LONG, ELONG = [long_walk(48)], [long_ewalk(960)]
ERRS, EERRS = [J('h_own_err', 6, 70, 78, cost=5)], [J('h_eown_err', 8, 16, 40, down=(16,), cost=15)]
# the number of bytes compared on either side
EQUAL = [J('h_eq_port', 3, 5, 7, down=(5,), cost=8), J('h_eq_function', 3, 5, 7, down=(5,), cost=8), J('h_eq_vc', 3, 7, 9, down=(7,), cost=5),
         J('h_eq_egress', 5, 7, 9, down=(7,), cost=8), J('h_eq_rebar', 25, 41, 57, down=(41,), cost=5), J('h_eq_pmux', 3, 21, 29, down=(21,), cost=5),
         J('h_eq_links', 5, 71, 103, down=(71,), cost=8), J('h_eq_ea', 5, 43, 63, down=(43,), cost=10)]
BASIC = [J('h_pm', 0, L), J('h_pm_data', 0, L), J('h_vpd', 0, L), J('h_slot', 0, L), J('h_af', 0, L), J('h_sata', 0, L),
         J('h_sata_offset', 0, L), J('h_debug', 0, L), J('h_ssvid', 0, L)]
MSI = [J('h_msi', 0, L), J('h_msix', 0, L)]
AGP = [J('h_agp', 0, L), J('h_agp_codes', 1, 1)]
PCIX = [J('h_pcix', 0, L), J('h_pcix_bridge', 0, L)]
HT = [J('h_ht', 0, L)]
VENDOR = [J('h_vendor', 0, L), J('h_virtio', 0, L)]
NAMES = [J('h_class_names', 3, 3, cost=5)]
ROM = [J('h_rom', 4, 4)]
EA = [J('h_ea', 0, 30, 60, down=(30, 24), cost=8), J('h_ea', 0, 30, 60, down=(30, 24), feature='ea_real', cost=8)]
FPB = [J('h_fpb', 0, L)]
PCIE = [J('h_pcie', 0, L, cost=5), J('h_pcie_codes', 1, 1), J('h_pcie_power', 2, 2), J('h_pcie_order', 2, 2)]
AER = [J('h_aer', 0, X), J('h_dpc', 0, X)]
VC = [J('h_vc', 0, X), J('h_vc_channels', 0, 110, X, down=(110, 80, 50), cost=10), J('h_vc_table', 0, 100, X, down=(100,)), J('h_vc_table_entries', 0, 6, 9, down=(6, 4)),
      J('h_vc_port_table', 24, 160, X, down=(160,)), J('h_vc_port_table_entries', 0, 5, 8, down=(5, 3)), J('h_vc_codes', 2, 2)]
MFVC = [J('h_mfvc', 0, X), J('h_mfvc_channels', 0, 56, 80, down=(56, 40), cost=20), J('h_mfvc_entries', 0, 5, 8, down=(5, 3)),
        J('h_mfvc_roundtrip', 12, 12)]
RC = [J('h_rcec', 0, X), J('h_cac', 0, X), J('h_rcrb', 0, X), J('h_rcil', 0, X), J('h_rcld', 0, 64, X, down=(80, 64, 48)), J('h_rcld_roundtrip', 9, 9)]
DSN = [J('h_dsn', 0, X), J('h_rc_serial', 0, X)]
ECH = [J('h_ech', 4, 4)]
IOV = [J('h_sriov', 0, X), J('h_rebar', 0, 54, X, down=(54,)), J('h_rebar_sizes', 9, 9)]
POWER = [J('h_budget', 0, X), J('h_dpa', 0, X), J('h_l1pm', 0, X), J('h_l1pm_roundtrip', 12, 12), J('h_ltr', 0, X), J('h_ltr_value', 2, 2),
         J('h_rtr', 0, X), J('h_rtr_value', 2, 2), J('h_power_scale', 1, 1)]
ACCESS = [J('h_acs', 0, X), J('h_egress', 1, 5, 9, down=(5,), cost=5), J('h_acs_vector', 4, 7, 12, down=(7, 6, 5), label='any size', cost=10), J('h_ari', 0, X),
          J('h_ats', 0, X), J('h_pri', 0, X), J('h_pasid', 0, X), J('h_tph', 0, X), J('h_multicast', 0, X)]
LINK = [J('h_secpcie', 0, X), J('h_secpcie_lanes', 0, 30, 75, down=(30, 20), cost=10), J('h_secpcie_lane', 4, 4), J('h_secpcie_fields', 2, 2), J('h_pmux', 0, 40, 80, down=(40, 24)), J('h_pmux_entry', 4, 4),
        J('h_mphy', 0, X), J('h_frs', 0, X), J('h_ptm', 0, X), J('h_lnr', 0, X)]
VSEC = [J('h_vsec', 0, X), J('h_dvsec', 0, X), J('h_cxl', 0, X)]
VC += FULL['VC']
MFVC += FULL['MFVC']
RC += FULL['RC']
ACCESS += FULL['ACCESS']
LINK += FULL['LINK']
EA += FULL['EA']


WHY = [J('h_why_' + n, 0, L) for n in ('msi', 'pcie', 'pcix', 'pcix_bridge', 'ht', 'vendor', 'ea')] + \
    [J('h_why_' + n, 0, X) for n in ('aer', 'dpc', 'mfvc', 'rcld', 'rebar', 'dpa', 'pmux', 'dvsec')]

LAWS = [J('h_laws_port', 1, 3, cost=2), J('h_laws_function', 1, 3, cost=2), J('h_laws_vc', 1, 5), J('h_laws_channels', 1, 40, 56, down=(40, 28), cost=12), J('h_laws_mf_channels', 1, 64, 80, down=(64, 44), cost=15),
        J('h_laws_egress', 1, 6, 9, down=(6,), cost=2), J('h_laws_rebar', 13, 61, down=(29,), cost=2), J('h_laws_pmux', 1, 22), J('h_laws_lanes', 1, 15, down=(9,), cost=3), J('h_laws_links', 1, 50, down=(34,), cost=3),
        J('h_laws_ea', 1, 24, 40, down=(24, 14), cost=5), J('h_laws_bars', 13, 13, cost=5), J('h_laws_caps', 1, 11, 13, down=(11, 7, 5), cost=20), J('h_laws_ecaps', 1, 13, 17, down=(13, 9, 5), cost=40)]

# the same structure through its different conversions
WAYS = [J('h_ways_header', 0, L, cost=60), J('h_ways_sriov', 0, X, cost=25), J('h_ways_channel', 0, L), J('h_ways_values', 8, 8)] + \
    [J('h_ways_' + n, 0, L) for n in ('ssvid', 'fpb', 'msix', 'ht')] + [J('h_ways_' + n, 0, X) for n in ('cac', 'lnr', 'rcil', 'rcrb', 'rcec')]


def only(js, *names):
    return [j for j in js if j['h'] in names]


LEGACY = BASIC + MSI + AGP + PCIX + HT + VENDOR + EA + FPB + PCIE
EXT = AER + VC + MFVC + RC + DSN + IOV + POWER + ACCESS + LINK + VSEC
ALL = HEADER + LAYOUT + BARS + WALK + EWALK + LONG + ELONG + ERRS + EERRS + EQUAL + OWN[:1] + EOWN[:1] + LEGACY + EXT + NAMES + ROM + ECH + WHY + only(WAYS, 'h_ways_channel', 'h_ways_values') + [j for j in LAWS if j['cost'] < 10]

# property -> jobs, and the kinds of failed obligation that count (None: all)
PROPS = {
    'C01': (ALL, ('panic', 'memory', 'unwind')),
    'C02': (HEADER, None),
    'C03': (LAYOUT + ROM, None),
    'C04': (BARS, None),
    'C05': (WALK + LONG, None),
    'C06': (EWALK + ELONG + ECH, None),
    'C07': (OWN + ERRS, None),
    'C08': (EOWN + EERRS, None),
    'C09': (only(BARS, 'h_bars6', 'h_bars2', 'h_bars1') + only(EA, 'h_ea') + only(VC, 'h_vc_channels', 'h_vc_table', 'h_vc_table_entries', 'h_vc_port_table', 'h_vc_port_table_entries')
            + only(MFVC, 'h_mfvc_channels', 'h_mfvc_entries') + only(RC, 'h_rcld', 'h_rcld_all') + only(IOV, 'h_rebar')
            + only(ACCESS, 'h_acs_vector', 'h_egress') + only(LINK, 'h_secpcie_lanes', 'h_pmux'), None),
    'C10': (BASIC, None),
    'C11': (MSI, None),
    'C12': (AGP + PCIX, None),
    'C13': (HT, None),
    'C14': (VENDOR, None),
    'C15': (EA + FPB, None),
    'C16': (PCIE, None),
    'C17': (AER, None),
    'C18': (VC + MFVC, None),
    'C19': (RC + DSN, None),
    'C20': (IOV, None),
    'C21': (POWER, None),
    'C22': (ACCESS, None),
    'C23': (LINK, None),
    'C24': (VSEC, None),
    'C25': (only(HEADER + BASIC + AGP + PCIE + VC + MFVC + RC + POWER + LINK + VSEC + BARS + AER, 'h_header_roundtrip', 'h_agp_codes', 'h_pcie_codes', 'h_pcie_power',
                 'h_vc_codes', 'h_mfvc_roundtrip', 'h_rcld_roundtrip', 'h_l1pm_roundtrip', 'h_ltr_value', 'h_cxl', 'h_sata_offset', 'h_dpc')
            + LAYOUT[2:] + ROM + only(LINK, 'h_pmux_entry') + only(PCIX, 'h_pcix', 'h_pcix_bridge') + HT, None),
    'C26': (NAMES, None),
    'C27': (EQUAL + only(BARS, 'h_bars_eq', 'h_bars_eq3', 'h_bars_eq6'), None),
    'C28': (WHY, None),
    'C29': (LAWS, None),
    'C30': (WAYS, None),
}
