from core import Unit
PROPS = {}

PACKETS = """pad psb psbend fup tip tip_pge tip_pgd tnt_8 tnt_64 mode pip vmcs
cbr tsc tma mtc cyc stop ovf mnt exstop mwait pwre pwrx ptw cfe evd trig unknown
invalid""".split()

PROPS["C01"] = dict(
    units=[
        Unit("pkt_dec", "pkt_dec.c", enforce=["pt_pkt_next"], unwind=50,
             cases=[{"N": n} for n in range(0, 17)] + [{"N": 32, "FAR": None}]
             + [{"N": 16, "PSIZE": n} for n in (4, 8, 16, 23)]
             + [{"N": 16, "PSIZE": n} for n in (25, 40)],
             functions=["pt_pkt_next"]),
    ],
)

PROPS["C02"] = dict(
    units=[
        Unit("pkt_enc", "pkt_enc.c", enforce=["pt_enc_next"], unwind=40,
             cases=[{"T": "ppt_" + p} for p in PACKETS]
             + [{"T": "ppt_" + p, "FAR": None} for p in PACKETS],
             functions=["pt_enc_next"]),
        Unit("pkt_roundtrip", "pkt_enc.c", unwind=40, defs=["ROUNDTRIP", "FAR"],
             cases=[{"T": "ppt_" + p} for p in PACKETS[:-2]],
             functions=["pt_enc_next", "pt_pkt_next"]),
    ],
)

SYNC_UW = ["fill.0:70", "fill.1:70", "find_sync_points.0:70",
           "find_sync_points.1:70", "harness.0:70", "harness.1:70"]
SYNC_B = ("trace buffers of up to 32 bytes at every alignment of its begin "
          "and end (room for two PSB and the bytes around them)")
SYNC_CASES = [{"N": n, "B": n - 32} for n in range(48, 56)]

PROPS["C04"] = dict(
    level="other",
    units=[
        Unit("sync_fwd", "sync.c", defs=["FORWARD"],
             replace_calls=["truncate:vf_truncate"], trust_unconfirmed=False,
             cases=SYNC_CASES, unwind=18, unwindset=SYNC_UW, bounded=SYNC_B,
             functions=["pt_sync_forward"], slow=True),
        Unit("sync_bwd", "sync.c", defs=["BACKWARD"],
             replace_calls=["truncate:vf_truncate"], trust_unconfirmed=False,
             cases=SYNC_CASES, unwind=18, unwindset=SYNC_UW, bounded=SYNC_B,
             functions=["pt_sync_backward"], slow=True),
        Unit("sync_align", "sync.c", defs=["ALIGN"], native=False,
             trust_unconfirmed=False, functions=["truncate", "align"]),
        Unit("sync_set", "sync.c", defs=["SET"], enforce=["pt_sync_set"],
             cases=[{"N": n} for n in (49, 56)], unwind=18,
             unwindset=SYNC_UW, functions=["pt_sync_set"]),
        Unit("psync", "psync.c", cases=[{"FORWARD": None}],
             enforce=["pt_pkt_sync_forward"],
             functions=["pt_pkt_sync_forward"]),
        Unit("psync_bwd", "psync.c", cases=[{"BACKWARD": None}],
             enforce=["pt_pkt_sync_backward"],
             functions=["pt_pkt_sync_backward"]),
    ],
)

PROPS["C03"] = dict(
    units=[
        Unit("psync_set", "psync.c", cases=[{"SET": None}],
             enforce=["pt_pkt_sync_set"], functions=["pt_pkt_sync_set"]),
        Unit("psync_get", "psync.c", cases=[{"GET": None}],
             enforce=["pt_pkt_get_offset"],
             functions=["pt_pkt_get_offset", "pt_pkt_get_sync_offset"]),
        Unit("enc_set", "enc_pos.c", cases=[{"SET": None}],
             enforce=["pt_enc_sync_set"],
             functions=["pt_enc_sync_set", "pt_encoder_init"]),
        Unit("enc_get", "enc_pos.c", cases=[{"GET": None}],
             enforce=["pt_enc_get_offset"],
             functions=["pt_enc_get_offset"]),
    ],
)

PROPS["C05"] = dict(
    units=[Unit("last_ip", "last_ip.c", enforce=["pt_last_ip_update_ip"],
                functions=["pt_last_ip_update_ip", "pt_last_ip_query",
                           "pt_last_ip_init"])],
)

PROPS["C06"] = dict(
    units=[
        Unit("tnt_add", "tnt_cache.c", defs=["ADD"], unwind=67,
             enforce=["pt_tnt_cache_add"], functions=["pt_tnt_cache_add"]),
        Unit("tnt_query", "tnt_cache.c", defs=["QUERY"], unwind=67,
             functions=["pt_tnt_cache_query", "pt_tnt_cache_is_empty",
                        "pt_tnt_cache_init"]),
    ],
)

PROPS["C07"] = dict(
    units=[
        Unit("retstack_push", "retstack.c", defs=["PUSH"], unwind=67,
             enforce=["pt_retstack_push"],
             functions=["pt_retstack_push", "pt_retstack_is_empty"]),
        Unit("retstack_pop", "retstack.c", defs=["POP"], unwind=67,
             enforce=["pt_retstack_pop"],
             functions=["pt_retstack_pop", "pt_retstack_is_empty",
                        "pt_retstack_init"]),
    ],
)

PROPS["C09"] = dict(
    units=[
        Unit("asid_match", "asid.c", defs=["MATCH"],
             enforce=["pt_asid_match"], functions=["pt_asid_match"]),
        Unit("asid_from", "asid.c", defs=["FROM"], unwind=60,
             cases=[{"SIZE": n} for n in range(0, 41)],
             functions=["pt_asid_from_user"]),
        Unit("asid_to", "asid.c", defs=["TO"], unwind=60,
             cases=[{"SIZE": n} for n in range(0, 41)],
             functions=["pt_asid_to_user"]),
    ],
)

EVQ_CASES = [{"BEGIN": b, "CNT": n} for b in range(16) for n in range(15)]

PROPS["C10"] = dict(
    units=[
        Unit("evq_enqueue", "evq.c", defs=["ENQUEUE"], unwind=20,
             cases=EVQ_CASES,
             functions=["pt_evq_enqueue", "pt_evq_requeue"]),
        Unit("evq_dequeue", "evq.c", defs=["DEQUEUE"], unwind=20,
             cases=[c for c in EVQ_CASES if c["CNT"] <= 4],
             functions=["pt_evq_dequeue"]),
        Unit("evq_dequeue_first", "evq.c", defs=["DEQUEUE", "FIRST"],
             unwind=20, cases=[c for c in EVQ_CASES if c["CNT"] > 4],
             bounded="queues of more than 4 entries: one pair of binding "
             "masks, every first matching entry (thorough: all masks)",
             functions=["pt_evq_dequeue"]),
        Unit("evq_dequeue_all", "evq.c", defs=["DEQUEUE"], unwind=20, uf=True,
             cases=[c for c in EVQ_CASES if c["CNT"] > 4], tier="thorough",
             functions=["pt_evq_dequeue"]),
        Unit("evq_look", "evq.c", defs=["LOOK"], unwind=20,
             cases=EVQ_CASES,
             functions=["pt_evq_peek", "pt_evq_find", "pt_evq_empty",
                        "pt_evq_pending", "pt_evq_clear",
                        "pt_evq_standalone", "pt_evq_init"]),
    ],
)

FREQS = [{"FREQ": f} for f in range(16)]

PROPS["C08"] = dict(
    units=[
        Unit("time_" + n.lower(), "time.c", defs=[n], cases=FREQS,
             uf=n in ("MTC", "CYC", "CALTSC", "CALMTC", "CAL"),
             functions=f)
        for n, f in (("TSC", ["pt_time_update_tsc"]),
                     ("CBR", ["pt_time_update_cbr"]),
                     ("TMA", ["pt_time_update_tma"]),
                     ("MTC", ["pt_time_update_mtc"]),
                     ("CYC", ["pt_time_update_cyc"]),
                     ("QUERY", ["pt_time_query_tsc", "pt_time_query_cbr",
                                "pt_time_init"]),
                     ("CAL", ["pt_tcal_update_tsc", "pt_tcal_update_cbr",
                              "pt_tcal_header_cbr", "pt_tcal_update_cyc",
                              "pt_tcal_update_ovf", "pt_tcal_update_psb",
                              "pt_tcal_update_tma", "pt_tcal_fcr",
                              "pt_tcal_set_fcr"]),
                     ("CALTSC", ["pt_tcal_header_tsc"]),
                     ("CALMTC", ["pt_tcal_update_mtc"]))
    ],
)

PROPS["C17"] = dict(
    units=[
        Unit("cpu_errata", "config.c", defs=["ERRATA"], unwind=60,
             enforce=["pt_cpu_errata"], functions=["pt_cpu_errata"]),
        Unit("config_from_user", "config.c", defs=["FROM"], unwind=600,
             cases=[{"SIZE": n} for n in (0, 8, 16, 23, 24, 32, 40, 47,
                                          48, 100, 136, 200, 280, 287,
                                          288, 295, 296, 300, 340)],
             functions=["pt_config_from_user"]),
        Unit("addr_filter", "config.c", defs=["FILTER"], unwind=20,
             uf=True,
             functions=["pt_filter_addr_check", "pt_filter_addr_cfg",
                        "pt_filter_addr_a", "pt_filter_addr_b"]),
        Unit("cpu_parse", "cpu.c", unwind=20, functions=["pt_cpu_parse"],
             bounded="strings of up to 8 characters",
             assumptions=["strtol consumes some prefix of the string and "
                          "returns any value"]),
    ],
)

IMG_B = "images of up to 2 sections (thorough: 3) with arbitrary attributes before the operation"
IMG_A = ["functions on sections follow their contracts (proved for C12)",
         "section address ranges do not wrap around the address space"]


IMG_UW = ["lookup.0:14", "check_inv.0:14", "check_inv.1:14", "memcmp.0:90"]


def img(name, d, cases, **kw):
    return Unit("image_" + name, "image.c", defs=[d], cases=cases,
                unwind=lambda c: max(4, 2 * c["N"] + 3, 2 * c.get("M", 0) + 3),
                unwindset=IMG_UW,
                bounded=IMG_B, assumptions=IMG_A, **kw)


PROPS["C11"] = dict(
    level="other",
    units=[
        img("add2", "ADD", [{"N": 2, "FAIL": int(a + b > 3), "K0": a, "K1": b}
                            for a in range(5) for b in range(5)],
            slow=True, functions=["pt_image_add"]),
        img("add", "ADD", [{"N": n, "FAIL": 1} for n in (0, 1)],
            functions=["pt_image_add", "pt_mk_section_list",
                       "pt_section_list_free"], slow=True),
        img("add_cached", "ADDC", [{"N": 1, "FAIL": 1}],
            functions=["pt_image_add_cached"], slow=True),
        img("add_file", "ADDF", [{"N": 1, "FAIL": 1}],
            functions=["pt_image_add_file"], slow=True),
        img("copy", "COPY", [{"N": 0, "M": 2, "FAIL": 0},
                             {"N": 1, "M": 1, "FAIL": 1}], slow=True,
            functions=["pt_image_copy"]),
        img("remove", "REMOVE", [{"N": n, "BY": b} for n in (0, 1, 2, 3)
                                 for b in (0, 1, 2)],
            functions=["pt_image_remove", "pt_image_remove_by_filename",
                       "pt_image_remove_by_asid"]),
        img("fini", "FINI", [{"N": n} for n in (0, 1, 3)],
            functions=["pt_image_alloc", "pt_image_free", "pt_image_fini",
                       "pt_image_init", "pt_image_name"]),
        img("read3", "READ", [{"N": 3}], tier="thorough",
            functions=["pt_image_read"]),
        img("copy21", "COPY", [{"N": 1, "M": 2, "FAIL": 0, "K0": k}
                               for k in range(5)], tier="thorough",
            functions=["pt_image_copy"]),
        img("read", "READ", [{"N": n} for n in (0, 1, 2)],
            functions=["pt_image_read", "pt_image_fetch_section",
                       "pt_msec_read", "pt_image_set_callback"]),
        img("find", "FIND", [{"N": n} for n in (0, 1, 2, 3)],
            functions=["pt_image_find", "pt_image_validate"]),
        img("err", "ERR", [{"N": 1}], functions=[]),
    ],
)


def secu(name, d, cases, fns, **kw):
    return Unit("section_" + name, "section.c", defs=[d], cases=cases,
                unwind=20, functions=fns, object_bits=8, **kw)


PROPS["C12"] = dict(
    units=[
        secu("get", "GET", [{}], ["pt_section_get", "pt_section_lock",
                                  "pt_section_unlock"]),
        secu("put", "PUT", [{}], ["pt_section_put", "pt_section_free"]),
        secu("attach", "ATTACH", [{"DETACH": 0}, {"DETACH": 1}],
             ["pt_section_attach", "pt_section_detach"]),
        secu("map", "MAP", [{"SHARE": 0}, {"SHARE": 1}],
             ["pt_section_map", "pt_section_map_share", "pt_sec_posix_map",
              "pt_sec_file_map", "pt_sec_posix_map_success",
              "pt_section_on_map_lock", "check_file_status"]),
        secu("unmap", "UNMAP", [{}], ["pt_section_unmap",
                                      "pt_sec_posix_unmap"]),
        secu("read", "READ", [{}], ["pt_section_read", "pt_sec_posix_read",
                                    "pt_sec_file_read"]),
        secu("mk", "MK", [{}], ["pt_mk_section", "pt_section_mk_status"],
             assumptions=["file names of up to 7 characters stand for all"]),
        secu("bcache", "BCACHE", [{"SIZE": n} for n in (0, 1, 5)],
             ["pt_section_alloc_bcache", "pt_bcache_alloc", "pt_bcache_add",
              "pt_bcache_lookup"]),
        secu("memsize", "MEMSIZE", [{}], ["pt_section_memsize"]),
    ],
)

ISC_A = ["functions on sections follow their contracts (proved for C12)"]
ISC_B = "caches of up to 3 entries (2 when adding) and 3 mapped sections"
ISC_UW = ["check_counts.0:14", "check_entries.0:14", "fits.0:14",
          "vf_realloc.0:14"]


def isc(name, d, cases, fns, **kw):
    return Unit("iscache_" + name, "iscache.c", defs=[d],
                cases=[dict({"FULL": 0}, **c) for c in cases],
                unwind=6, unwindset=ISC_UW, functions=fns, bounded=ISC_B,
                assumptions=ISC_A, **kw)


PROPS["C13"] = dict(
    level="other",
    units=[
        isc("add", "ADD", [{"N": 0, "FAIL": 1, "FULL": 1, "S": 0}] +
            [{"N": 1, "FAIL": 1, "S0": 0, "S": s} for s in (0, 1)] +
            [{"N": 1, "FAIL": 1, "S0": 0, "S": 1, "L": 1, "LS": s}
             for s in (0, 1)] +
            [{"N": 2, "FAIL": int(f + a + s > 0), "FULL": f, "S0": a, "S": s}
             for f in (0, 1) for a in (0, 1) for s in (0, 1, 2)],
            ["pt_iscache_add", "pt_iscache_find_section_locked",
             "pt_iscache_expand"]),
        isc("add_file", "ADDFILE", [{"N": 0, "FAIL": 1, "FULL": 1},
                                    {"N": 1, "FAIL": 1, "S0": 0},
                                    {"N": 2, "FAIL": 1, "S0": 0},
                                    {"N": 2, "FAIL": 0, "S0": 1}],
            ["pt_iscache_add_file", "pt_iscache_add"]),
        isc("add_t", "ADD", [{"N": 2, "FAIL": 1, "S0": 0, "S": 0}],
            ["pt_iscache_add"], tier="thorough", timeout=2000),
        isc("add_file_t", "ADDFILE", [{"N": 2, "FAIL": 1, "S0": 1}],
            ["pt_iscache_add_file"], tier="thorough", timeout=2000),
        isc("lookup", "LOOKUP", [{"N": n} for n in (0, 1, 3)],
            ["pt_iscache_lookup", "pt_iscache_find"]),
        isc("read", "READ", [{"N": n} for n in (0, 1, 3)],
            ["pt_iscache_read", "pt_iscache_lookup"]),
        isc("lru23", "VF_LRU", [{"LRU": 2, "L": 3}],
            ["pt_iscache_notify_resize"], tier="thorough", timeout=2000),
        isc("clear", "CLEAR", [{"N": 0}, {"N": 2, "L": 2}],
            ["pt_iscache_clear", "pt_iscache_fini", "pt_iscache_alloc",
             "pt_iscache_init"]),
        isc("lru", "VF_LRU", [{"LRU": k, "L": n} for k in (1, 2, 3)
                              for n in (0, 1, 2, 3) if k + n < 5],
            ["pt_iscache_notify_map", "pt_iscache_notify_resize",
             "pt_iscache_set_limit", "pt_iscache_lru_add",
             "pt_iscache_lru_prune", "pt_iscache_lru_free",
             "pt_iscache_lru_resize"]),
    ],
)

ILD_A = ["one step of a walk over prefixes is proved from every prefix state "
         "at every position; its induction over the prefixes is on paper"]

PROPS["C14"] = dict(
    units=[
        Unit("ild_step", "ild.c", cases=[{"MODE": m} for m in (1, 2, 3)],
             replace_calls=["!prefix_next:vf_prefix_next",
                            "!decode:vf_decode"],
             trust_unconfirmed=False, unwind=20,
             functions=["pt_ild_decode"], assumptions=ILD_A),
        Unit("ild_base", "ild.c", defs=["BASE"],
             cases=[{"MODE": m} for m in (1, 2, 3)],
             replace_calls=["!prefix_next:vf_prefix_next"],
             trust_unconfirmed=False, unwind=20,
             functions=["pt_ild_decode"], assumptions=ILD_A),
    ],
)

INSN_A = ["pt_image_read and pt_ild_decode follow their contracts (proved "
          "for C11 and C14)"]

PROPS["C15"] = dict(
    units=[
        Unit("insn_class", "insn.c", defs=["CLASS"], functions=[
            "pt_insn_changes_cpl", "pt_insn_changes_cr3", "pt_insn_is_branch",
            "pt_insn_is_far_branch", "pt_insn_binds_to_pip",
            "pt_insn_binds_to_vmcs", "pt_insn_is_ptwrite", "pt_insn_is_iret",
            "pt_insn_is_vmentry", "pt_insn_is_uiret"]),
        Unit("insn_next", "insn.c", defs=["NEXT"],
             functions=["pt_insn_next_ip"]),
        Unit("insn_decode", "insn.c", defs=["DECODE"], unwind=18,
             functions=["pt_insn_decode", "pt_insn_decode_retry"],
             assumptions=INSN_A),
        Unit("insn_range", "insn.c", defs=["RANGE"], unwind=18,
             bounded="up to 6 instructions between begin and end",
             functions=["pt_insn_range_is_contiguous"], assumptions=INSN_A),
    ],
)

EVT_A = ["the packet decoder, timing, calibration, and the event queue follow "
         "their contracts (C01, C02, C08, C10)"]
EVT_B = ("up to 2 pending events (3 for asynchronous branches), and up to 4 "
         "packets of look-ahead")
EVB = {"psb": 1, "tip": 2, "fup": 4, "bnd": 8, "both": 10, "ex": 16,
       "cfe": 32}
EVP = {
    "psb": ["enabled", "disabled", "async_paging", "async_vmcs", "exec_mode",
            "iflags", "tsx", "cbr", "mnt"],
    "tip": ["async_branch"],
    "fup": ["tsx", "interrupt", "vmexit", "smi", "rsm", "sipi", "init",
            "uintr"],
    "bnd": ["tsx", "interrupt", "vmexit", "smi", "init", "uintr", "ignore",
            "overflow", "exstop", "mwait", "ptwrite", "trig", "iret",
            "vmentry", "shutdown", "uiret"],
    "both": ["exec_mode", "iflags", "ignore"],
    "ex": ["mwait"],
    "cfe": ["interrupt", "vmexit"],
}


def e1(T, A=None, P=(), F=(), en=1, bd=0, hip=1, htsc=1, end="eos",
       rc=(0, 0, 0), bdm70=0, nq=None, **kw):
    """One case: packet T, pending events P, following packets F."""
    c = {"T": "ppt_" + T, "S": 1 + len(F), "AVAIL": 1 + len(F)}
    if A is not None:
        c["A"] = A
    if P:
        c["NB"] = len(P)
    for i, p in enumerate(P):
        b, ty = p.split(":")
        c["B%d" % i] = EVB[b]
        c["P%d" % i] = "ptev_" + ty
    for i, f in enumerate(F):
        ty, _, a = f.partition(":")
        c["T%d" % (i + 1)] = "ppt_" + ty
        if a:
            c["A%d" % (i + 1)] = a
    c.update({"ENABLED": en, "BOUND": bd, "HIP": hip, "HTSC": htsc,
              "END": "-pte_" + end, "TRC": rc[0], "URC": rc[1],
              "FRC": rc[2], "BDM70": bdm70})
    if nq:
        c["NQ"] = nq
    c.update(kw)
    return c


def evt(name, cases, fns, **kw):
    uniq = {tuple(sorted((k, str(v)) for k, v in c.items())): c
            for c in cases}
    cases = list(uniq.values())
    return Unit("evt_" + name, "evt.c", cases=cases, unwind=10,
                functions=fns, assumptions=EVT_A, bounded=EVT_B, **kw)


def evt_none():
    out = []
    for T in ["unknown", "pad", "tnt_8", "tnt_64", "pip", "vmcs", "stop",
              "mnt", "mwait", "pwre", "pwrx", "psbend"]:
        out += [e1(T, en=en, htsc=h) for en, h in ((0, 1), (1, 0))]
    for T in ["fup", "tip", "tip_pge", "tip_pgd"]:
        out += [e1(T, A=a, en=en, bd=bd, hip=3 * (a & 1))
                for a in (0, 1, 6) for en in (0, 1) for bd in (0, 1)]
        out += [e1(T, A=5), e1(T, A=2, hip=0), e1(T, A=3, htsc=0),
                e1(T, A=4, hip=3), e1(T, A=0, hip=0, htsc=0)]
    out += [e1("mode", A=0, MEV=0, IFF=i) for i in (0, 1)]
    out += [e1("mode", A=0x20, en=en, htsc=en) for en in (0, 1)]
    out += [e1("mode", A=0x40)]
    out += [e1("exstop", A=a, htsc=a) for a in (0, 1)]
    out += [e1("ptw", A=a, htsc=a & 1) for a in (0, 1, 2, 4, 5)]
    out += [e1("cfe", A=ty | ip << 8, en=en, htsc=en)
            for ty in list(range(0, 14)) + [31]
            for ip in (0, 1) for en in (0, 1)]
    out += [e1("evd", A=a) for a in (0, 1, 2, 3)]
    out += [e1("trig", A=a, en=en, htsc=en) for en in (0, 1) for a in
            (0, 1 << 16, 1 << 17, 3 << 16, 1 << 17 | 5, 7 << 16 | 5, 1 << 18,
             7 << 16)]
    for T in ["tsc", "tma", "mtc", "cyc", "cbr"]:
        out += [e1(T, rc=(r, u, f)) for r, u, f in
                ((0, 0, 0), ("-pte_bad_config", 0, "-pte_no_time"),
                 ("-pte_bad_packet", 0, 0), (0, "-pte_bad_config", 0),
                 (0, "-pte_bad_packet", 0), (0, 0, "-pte_bad_packet"))]
    return out


def evt_follow():
    """What follows is fetched; packets without event are not the end."""
    out = []
    for T, a in [("unknown", None), ("pad", None), ("pip", None),
                 ("stop", None), ("mwait", None), ("tsc", None),
                 ("cyc", None), ("cbr", None), ("fup", 6), ("tip", 6),
                 ("tip_pge", 6), ("tip_pgd", 6), ("exstop", 0), ("exstop", 1),
                 ("cfe", 1), ("cfe", 3 | 1 << 8), ("evd", 1), ("trig", 0),
                 ("ptw", 5), ("mode", 0x20), ("psbend", None)]:
        out += [e1(T, A=a, end="bad_opc"),
                e1(T, A=a, F=["pad", "stop"]),
                e1(T, A=a, F=["tnt_8"], bd=int(T in ("fup", "tip")))]
    return out


def evt_one():
    out = []
    for b in ("fup", "bnd", "both"):
        for i, ty in enumerate(EVP[b]):
            out += [e1("fup", A=a, P=["%s:%s" % (b, ty)], en=(i + a) & 1,
                       htsc=(i ^ a) & 1, bd=int(b != "fup") & (i >> 1))
                    for a in (0, 6)]
    for T in ("tip", "tip_pge", "tip_pgd"):
        for bd in (0, 1):
            for i, ty in enumerate(EVP["both"]):
                out += [e1(T, A=a, P=["both:" + ty], en=1, bd=bd,
                           htsc=int(a > 0)) for a in (0, 1, 6)]
        out += [e1(T, A=a, P=["tip:async_branch"], en=1, htsc=int(a > 0))
                for a in (0, 1, 6)]
    for a in (0, 1):
        out += [e1("exstop", A=a, P=["ex:mwait"], htsc=1 - a)]
    out += [e1("mode", A=0, MEV=1, CS=cs, MB=mb, IFF=i)
            for cs in (0, 6) for mb in (0, 1, 2, 4, 6, 7) for i in (0, 1)]
    out += [e1("cfe", A=ty | ip << 8, P=["cfe:" + p], en=en)
            for ty in list(range(0, 14)) for ip in (0, 1)
            for p in EVP["cfe"] for en in (0, 1)
            if (ty in (1, 8, 9)) or (ip, en) == (1, 1)]
    out += [e1("evd", A=ty, P=["cfe:" + p]) for ty in (0, 1, 2, 3)
            for p in EVP["cfe"]]
    out += [e1(T, P=["tip:async_branch"]) for T in ("pip", "vmcs")]
    out += [e1(T, P=["psb:" + p], hip=h, htsc=int(h == 1))
            for p in EVP["psb"] for h in (0, 1, 3)
            for T in (("psbend", "ovf") if h == 1 else ("psbend",))]
    out += [e1("psb", P=["tip:async_branch"]), e1("psb", P=["ex:mwait"])]
    return out


# Packets do not touch events that are pending for others.
EVO = {"tip": "async_branch", "fup": "sipi", "bnd": "ptwrite",
       "both": "exec_mode", "ex": "mwait", "cfe": "vmexit"}
EVT_TAKES = {"fup": ("fup", "bnd", "both"), "tip": ("tip", "both"),
             "tip_pge": ("tip", "both"), "tip_pgd": ("tip", "both"),
             "exstop": ("ex",), "cfe": ("cfe",), "evd": ("cfe",),
             "pip": ("tip",), "vmcs": ("tip",)}


def evt_other():
    out = []
    for T, a in [("unknown", None), ("fup", 6), ("tip", 6), ("tip_pge", 6),
                 ("tip_pgd", 6), ("tnt_8", None), ("pip", None),
                 ("mode", 0x20), ("vmcs", None), ("cbr", None),
                 ("tsc", None), ("stop", None), ("mnt", None), ("exstop", 0),
                 ("exstop", 1), ("mwait", None), ("pwre", None),
                 ("pwrx", None), ("ptw", 4), ("cfe", 1), ("cfe", 2 | 1 << 8),
                 ("evd", 1), ("trig", 0), ("psbend", None)]:
        for b, p in sorted(EVO.items()):
            if b not in EVT_TAKES.get(T, ()):
                out += [e1(T, A=a, P=["%s:%s" % (b, p)])]
    return out


def evt_two():
    out = []
    R = ["fup:tsx", "fup:rsm", "bnd:ignore", "bnd:overflow", "bnd:exstop",
         "both:iflags", "both:ignore", "tip:async_branch", "ex:mwait",
         "cfe:interrupt"]
    out += [e1("fup", A=6, P=[p, q], bd=(i + j) & 1, en=(i >> 1) & 1)
            for i, p in enumerate(R) for j, q in enumerate(R)
            if "tip:async_branch" not in (p, q) or
            (p, q) in (("tip:async_branch", "bnd:exstop"),
                       ("tip:async_branch", "fup:tsx"))
            and not (i + j) & 1]
    R = ["both:exec_mode", "both:ignore", "ex:mwait", "cfe:vmexit",
         "bnd:ptwrite"]
    A = "tip:async_branch"
    for T in ("tip", "tip_pgd", "tip_pge"):
        for p in R[:2] + ["ex:mwait"]:
            for q in R:
                out += [e1(T, A=6, P=[p, q], bd=bd) for bd in (0, 1)]
        for q in R + ["tip:async_paging", "tip:async_vmcs"]:
            out += [e1(T, A=6, P=[A, q], hip=3)]
        for q in ("ex:mwait", "cfe:interrupt"):
            out += [e1(T, A=6, P=[q, A]),
                    e1(T, A=6, P=[q, A, "tip:async_paging"]),
                    e1(T, A=6, P=[A, q, "tip:async_vmcs"])]
        for q in ("tip:async_paging", "tip:async_vmcs"):
            out += [e1(T, A=6, P=["tip:async_branch", q, "both:ignore"]),
                    e1(T, A=0, P=["tip:async_branch", "both:exec_mode", q])]
        # the asynchronous branch has been delivered
        if T != "tip_pge":
            out += [e1(T, A=6, P=["both:exec_mode", "both:iflags"], bd=1),
                    e1(T, A=6, P=["both:ignore", "ex:mwait"], bd=1)]
    for T in ("pip", "vmcs"):
        out += [e1(T, P=[A, q]) for q in
                ("tip:async_paging", "tip:async_vmcs", "ex:mwait",
                 "both:exec_mode")]
        out += [e1(T, P=[q, A]) for q in ("ex:mwait", "cfe:interrupt")]
        out += [e1(T, P=[A, "ex:mwait", "tip:async_paging"])]
    for a in (0, 1):
        out += [e1("exstop", A=a, P=[p, q]) for p, q in
                (("bnd:ptwrite", "ex:mwait"), ("ex:mwait", "ex:mwait"),
                 (A, "ex:mwait"), ("ex:mwait", "cfe:interrupt"))]
    for ty, ip in ((1, 0), (1, 1), (8, 0), (9, 1), (2, 0), (0, 0)):
        out += [e1("cfe", A=ty | ip << 8, P=[p, q]) for p, q in
                (("bnd:ptwrite", "cfe:vmexit"), (A, "cfe:interrupt"),
                 ("cfe:vmexit", "ex:mwait"))]
    out += [e1("evd", A=ty, P=[p, q]) for ty in (0, 1, 2) for p, q in
            (("bnd:ptwrite", "cfe:vmexit"), (A, "cfe:interrupt"),
             ("cfe:vmexit", "ex:mwait"))]
    P = EVP["psb"]
    out += [e1("psbend", P=["psb:" + P[i], "psb:" + P[(i + k) % len(P)]])
            for i in range(len(P)) for k in (0, 1, 4)]
    return out


EVT_H = ["pip", "vmcs", "mnt", "tsc", "cbr", "tma", "mtc", "cyc", "pad",
         "mode:0x20"]


def evt_psb():
    out = []
    for T, F in (("psb", ()),):
        for en in (0, 1):
            out += [e1(T, F=["psbend"], en=en), e1(T, F=["ovf"], en=en, nq=3)]
            out += [e1(T, F=["fup:%d" % a, "psbend"], en=en, hip=3)
                    for a in (0, 1, 6)]
        out += [e1(T, F=["fup:5", "psbend"]), e1(T, F=["fup:6", "ovf"]),
                e1(T, F=["fup:0", "ovf"])]
        for h in EVT_H:
            out += [e1(T, F=[h, "psbend"], nq=3),
                    e1(T, F=["fup:6", h, "psbend"], nq=3, htsc=0)]
        out += [e1(T, F=["mode:0", "psbend"], nq=4, MEV=1, CS=cs, MB=mb,
                   IFF=i)
                for cs in (0, 7) for mb in (0, 1, 2, 4, 6, 7) for i in (0, 1)]
        out += [e1(T, F=["mode:0", "psbend"], nq=4, MEV=0, IFF=i)
                for i in (0, 1)]
        out += [e1(T, F=[h, g, "psbend"], nq=4) for h, g in
                (("pip", "vmcs"), ("mode:0x20", "pip"), ("cbr", "mnt"),
                 ("vmcs", "mode:0x20"))]
        for r in ("-pte_bad_config", "-pte_bad_packet"):
            out += [e1(T, F=[h, "psbend"], rc=rc, nq=3)
                    for h in ("tsc", "cbr", "cyc", "mtc", "tma")
                    for rc in ((r, 0, 0), (0, r, 0))]
        out += [e1(T, F=["cyc", "psbend"], rc=(0, 0, f), nq=3)
                for f in ("-pte_no_time", "-pte_bad_packet")]
        out += [e1(T, F=[b]) for b in
                ("tip:6", "tip_pge:6", "tip_pgd:6", "tnt_8", "tnt_64", "stop",
                 "exstop:0", "mwait", "pwre", "pwrx", "ptw:1", "cfe:1",
                 "evd:1", "trig:0", "psb", "unknown", "mode:0x40")]
        out += [e1(T), e1(T, end="bad_opc"), e1(T, F=["fup:6"])]
        for F in (["psbend", "tip_pge:6"], ["psbend", "mode:0"],
                  ["psbend"], ["psbend", "tip:6"], ["pip", "tip_pge:6"],
                  ["psbend", "tsc"]):
            out += [e1(T, F=["fup:6"] + F, bdm70=1, nq=3)]
        out += [e1(T, F=["fup:6", "psbend"], bdm70=1, end="bad_opc")]
    return out


EVT_X = ["pip", "vmcs", "mnt", "tsc", "cbr", "tma", "mtc", "cyc", "pad",
         "mode:0x20", "mode:0", "stop", "tip:6", "tip_pge:6", "tip_pgd:6",
         "tnt_8", "tnt_64", "exstop:0", "exstop:1", "mwait", "pwre", "pwrx",
         "ptw:1", "ptw:5", "cfe:1", "cfe:0x101", "evd:1", "trig:0", "psb",
         "psbend", "unknown", "ovf"]


def evt_ovf():
    out = []
    for P in ((), ("tip:async_branch",), ("bnd:ptwrite", "ex:mwait")):
        out += [e1("ovf", P=list(P), F=["fup:6"], en=en) for en in (0, 1)]
        out += [e1("ovf", P=list(P), en=1), e1("ovf", P=list(P),
                                               end="bad_opc")]
    out += [e1("ovf", F=["fup:6"], htsc=0)]
    for x in EVT_X:
        out += [e1("ovf", F=[x], nq=3), e1("ovf", F=[x, "fup:1"], nq=3)]
    return out


def evt_errata(e):
    out = []
    k = {e: 1}
    out += [e1("ovf", end=n, **k) for n in ("eos", "bad_opc")]
    for x in EVT_X:
        if e == "APL12":
            out += [e1("ovf", F=["fup:6", x], nq=3, **k),
                    e1("ovf", F=["tsc", "fup:1", x], nq=3, **k)]
        else:
            out += [e1("ovf", F=[x], nq=3, **k),
                    e1("ovf", F=[x, "tip_pgd:6"], nq=3, **k)]
            if e == "SKD010":
                out += [e1("ovf", F=[x, "tip:1"], nq=3, hip=0, **k),
                        e1("ovf", F=["tip_pge:6" if x == "pad" else
                                     "exstop:0", x, "tip:6"], nq=3, **k)]
    if e == "SKD010":
        for F in (["psb", "psbend", "tip:6"], ["psb", "fup:6", "psbend"],
                  ["psb", "pad", "fup:0"], ["psb", "tip:6"],
                  ["psb"], ["pip", "psb", "fup:6"], ["psb", "ovf"],
                  ["mode:0x20", "mode:0x20", "tip:6"],
                  ["pip", "mode:0x20", "tip:6"], ["pip", "tip:5"],
                  ["pip", "tip:0"]):
            out += [e1("ovf", F=F, nq=3, **k)]
        for r in ("-pte_bad_config", "-pte_bad_packet"):
            out += [e1("ovf", F=["pip", "tsc", "tip:6"], rc=rc, nq=3, **k)
                    for rc in ((r, 0, 0), (0, r, 0))]
    if e == "APL12":
        for F in (["fup:6", "psb", "fup:6"], ["fup:6", "psb", "psbend"],
                  ["fup:6", "psb", "tip:6"], ["fup:6", "psb", "ovf"],
                  ["fup:6", "pip", "stop"], ["fup:6", "mode:0", "tip_pge:6"]):
            out += [e1("ovf", F=F, nq=3, **k)]
        out += [e1("ovf", F=["fup:6"], end="bad_opc", nq=3, **k),
                e1("ovf", F=["cyc", "fup:6", "stop"], nq=3,
                   rc=("-pte_bad_packet", 0, 0), **k)]
    return out


EVT_FN = ["pt_evt_next", "pt_evt_fetch_event", "pt_evt_decode_packet",
          "pt_evt_fetch_packet", "pt_evt_event_time", "pt_evt_event_ip",
          "pt_evt_to_user"]
EVT_P = ["pt_evt_decode_" + n for n in (
    "tsc", "cbr", "tma", "mtc", "cyc", "mode", "mode_exec", "mode_tsx", "pip",
    "vmcs", "mnt", "stop", "exstop", "mwait", "pwre", "pwrx", "ptw",
    "psbend", "fup", "tip", "tip_event", "tip_pge", "tip_pgd", "tnt", "cfe",
    "evd", "trig", "unknown")]
EVT_HF = ["pt_evt_decode_psb", "pt_evt_check_bdm70"] + [
    "pt_evt_header_" + n for n in ("tsc", "cbr", "tma", "mtc", "cyc", "fup",
                                   "mode", "pip", "vmcs", "mnt")]


def evt_sync():
    out = []
    two = ["psbend", "psb", "psbend"]
    for m in (1, 2):
        out += [dict(e1("psb", F=F, **k), SYNC=m, FROM=f, CAND=0)
                for F, k, f in ((["psbend"], {}, -1), (["psbend"], {}, 2),
                                (["fup:6", "psbend"], {}, 1),
                                (["fup:6", "ovf"], {}, -1),
                                (["ovf"], {}, 0), (["tip:6"], {}, 0),
                                ([], {"end": "bad_opc"}, -1),
                                (["mode:0x20", "psbend"], {"nq": 3}, -1))]
        out += [dict(e1("pad", F=["psb", "psbend"], P=["ex:mwait"]), SYNC=m,
                     FROM=2, CAND=c) for c in (0, 1, 2)]
        out += [dict(e1("psb"), SYNC=m, FROM=-1, CAND="")]
    for f in (-1, 0, 1, 2, 3, 4):
        for c in ("2,0", "0", "2,2,0", ""):
            out += [dict(e1("psb", F=two, nq=3), SYNC=3, FROM=f, CAND=c)]
    for c in (c for c in out if c["CAND"] == ""):
        c["CAND"], c["NOCAND"] = 0, 1
    return out


PROPS["C16"] = dict(
    level="other",
    units=[
        evt("none", evt_none(), EVT_FN + EVT_P),
        evt("follow", evt_follow(), EVT_FN),
        evt("one", evt_one(), EVT_P, lite=True),
        evt("two", evt_two(), EVT_P, lite=True),
        evt("psb", evt_psb(), EVT_HF, lite=True),
        evt("ovf", evt_ovf(), ["pt_evt_decode_ovf", "pt_evt_find_ovf_fup"],
            lite=True),
        evt("skd010", evt_errata("SKD010"),
            ["pt_evt_handle_skd010", "pt_evt_recover_ovf_at_ip",
             "pt_evt_recover_ovf_disabled", "pt_evt_find_header_fup"],
            lite=True),
        evt("apl11", evt_errata("APL11"), ["pt_evt_handle_apl11"],
            lite=True),
        evt("apl12", evt_errata("APL12"),
            ["pt_evt_handle_apl12", "pt_evt_recover_ovf_at_offset"],
            lite=True),
        evt("other", evt_other(), EVT_P, lite=True),
        evt("sync", evt_sync(),
            ["pt_evt_sync_forward", "pt_evt_sync_backward",
             "pt_evt_sync_set", "pt_evt_start", "pt_evt_reset",
             "pt_evt_decode_psb"]),
        evt("misc", [dict(e1("tnt_8"), SIZE=s) for s in
                     (8, 32, "sizeof(*uev)", "sizeof(*uev)+4",
                      "sizeof(*uev)+40")],
            ["pt_evt_get_offset", "pt_evt_get_sync_offset",
             "pt_evt_get_config", "pt_evt_to_user", "pt_evt_next"],
            defs=["MISC"]),
        evt("alloc", [e1("tnt_8")],
            ["pt_evt_alloc_decoder", "pt_evt_free_decoder",
             "pt_evt_decoder_init", "pt_evt_decoder_fini",
             "pt_evt_init_pkt_flags", "pt_evt_reset"],
            defs=["ALLOC"], mallocfail=True),
        evt("mode_any", [e1("mode", A=0, MEV=1)],
            ["pt_evt_decode_mode_exec"], lite=True, tier="thorough"),
    ],
)

QRY_A = ["the event decoder follows its contract (C16): a script of events, "
         "each with its time and position; pt_tnt_cache.c is the real code"]


def qry(name, mode, fns, **kw):
    return Unit("qry_" + name, "qry.c", defs=[mode], functions=fns,
                assumptions=QRY_A, **kw)


QRY_SB = ("PSB+ of at most two events; synchronizing backward over at most "
          "four synchronization points")
PROPS["C18"] = dict(
    units=[
        qry("cond", "COND", ["pt_qry_cond_branch", "pt_qry_cache_tnt",
                             "pt_qry_event", "pt_qry_status_flags"],
            unwind=66),
        qry("indirect", "INDIR", ["pt_qry_indirect_branch",
                                  "pt_qry_status_flags"], unwind=66),
        qry("event", "EVENT", ["pt_qry_event", "pt_qry_fetch_event"],
            unwind=66),
        qry("sync_forward", "SYNC=1", ["pt_qry_sync_forward", "pt_qry_start",
                                       "pt_qry_reset"],
            unwind=7, bounded=QRY_SB),
        qry("sync_backward", "SYNC=2", ["pt_qry_sync_backward",
                                        "pt_qry_start", "pt_qry_reset"],
            unwind=7, bounded=QRY_SB),
        qry("sync_set", "SYNC=3", ["pt_qry_sync_set", "pt_qry_start",
                                   "pt_qry_reset"],
            unwind=7, bounded=QRY_SB),
        qry("misc", "MISC", ["pt_qry_time", "pt_qry_core_bus_ratio",
                             "pt_qry_get_offset", "pt_qry_get_sync_offset",
                             "pt_qry_get_config", "pt_qry_alloc_decoder",
                             "pt_qry_free_decoder", "pt_qry_decoder_init",
                             "pt_qry_decoder_fini",
                             "pt_qry_init_evt_flags"],
            unwind=66, mallocfail=True),
    ],
)

FLOW_A = ["the query decoder, the return stack, the image, the section cache, "
          "and instruction decode follow their contracts (C18, C07, C11, "
          "C21, C14, C15)"]
ICLASSES = ["unknown", "other", "call", "return", "jump", "cond_jump",
            "far_call", "far_return", "far_jump", "ptwrite", "indirect"]
EVTYPES = ["enabled", "disabled", "async_disabled", "async_branch", "paging",
           "async_paging", "overflow", "exec_mode", "tsx", "stop", "vmcs",
           "async_vmcs", "exstop", "mwait", "pwre", "pwrx", "ptwrite",
           "tick", "cbr", "mnt", "tip", "tnt", "iflags", "interrupt", "iret",
           "smi", "rsm", "sipi", "init", "vmentry", "vmexit", "shutdown",
           "uintr", "uiret", "trig"]
# The expensive ones first.
EVTYPES.sort(key=lambda t: t not in ("paging", "vmcs", "ptwrite", "iret",
                                     "vmentry", "uiret", "disabled"))
IDEC_P = ["pt_insn_proceed", "pt_insn_check_insn_event",
          "pt_insn_check_ip_event", "pt_insn_at_disabled_event",
          "pt_insn_at_skl014", "pt_insn_indirect_branch",
          "pt_insn_cond_branch", "pt_insn_tick", "pt_insn_update_trig",
          "pt_insn_postpone", "pt_insn_postpone_tsx", "handle_erratum_bdm64",
          "handle_erratum_skd022", "check_erratum_skd022", "event_pending",
          "pt_insn_status", "pt_insn_next_ip"]


def idec(name, mode, fns, **kw):
    kw.setdefault("solver", ("--sat-solver", "cadical"))
    return Unit("idec_" + name, "idec.c", defs=mode, functions=fns, unwind=16,
                assumptions=FLOW_A, **kw)


PROPS["C19"] = dict(
    units=[
        idec("next", ["NEXT"], ["pt_insn_next", "pt_insn_decode_cached",
                                "pt_insn_msec_lookup"] + IDEC_P,
             cases=[dict(ICLASS="ptic_" + c) for c in
                    ("return", "jump", "call", "cond_jump", "far_call",
                     "far_return", "far_jump", "indirect", "other", "ptwrite",
                     "unknown")], timeout=600),
        idec("next_user", ["NEXT", "BYTES", "ICLASS=ptic_other"],
             ["pt_insn_next", "insn_to_user"],
             cases=[dict(USIZE=s) for s in
                    (8, "sizeof(struct pt_insn)",
                     "(sizeof(struct pt_insn)+8)")]),
        idec("event", ["EVENT"],
             ["pt_insn_event", "pt_insn_process_enabled",
              "pt_insn_process_disabled", "pt_insn_process_async_branch",
              "pt_insn_process_paging", "pt_insn_process_overflow",
              "pt_insn_process_exec_mode", "pt_insn_process_tsx",
              "pt_insn_process_stop", "pt_insn_process_vmcs",
              "pt_insn_proceed_postponed", "pt_insn_clear_postponed"] +
             IDEC_P,
             cases=[dict(TYPE="ptev_" + t) for t in EVTYPES], timeout=600),
        idec("event_user", ["EVENT", "BYTES", "TYPE=ptev_enabled"],
             ["pt_insn_event"],
             cases=[dict(USIZE=s) for s in
                    (8, "sizeof(struct pt_event)",
                     "(sizeof(struct pt_event)+8)")]),
        idec("start", [], ["pt_insn_sync_forward", "pt_insn_sync_backward",
                           "pt_insn_sync_set", "pt_insn_start",
                           "pt_insn_reset", "pt_insn_check_ip_event"],
             cases=[dict(START=i) for i in (1, 2, 3)]),
        idec("misc", ["MISC"],
             ["pt_insn_alloc_decoder", "pt_insn_free_decoder",
              "pt_insn_decoder_init", "pt_insn_decoder_fini",
              "pt_insn_init_qry_flags", "pt_insn_get_offset",
              "pt_insn_get_sync_offset", "pt_insn_get_image",
              "pt_insn_set_image", "pt_insn_get_config", "pt_insn_time",
              "pt_insn_core_bus_ratio", "pt_insn_asid"], mallocfail=True),
    ],
)
