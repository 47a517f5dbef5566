"""property -> list of (variant, binary, sources, build options, optional)."""
C = ["mc.cpp", "main.cpp"]
WRAP = """pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort memcpy memmove memset wmemcpy malloc free calloc realloc aligned_alloc posix_memalign __cxa_allocate_exception
_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
pread pread64 lseek lseek64 read fseeko fseeko64 fread""".split()
SYSWRAP = "pread pread64 pwrite pwrite64 read write open open64 fopen fopen64".split()
BIN = {
    "h_write": dict(variant="asan", sources=C + ["h_write.cpp"]),
    "h_edit": dict(variant="asan", sources=C + ["h_edit.cpp"]),
    "h_fault": dict(variant="asan", sources=C + ["h_fault.cpp"]),
    "h_hostile": dict(variant="asan", sources=C + ["h_hostile.cpp"]),
    "h_compose": dict(variant="asan", sources=C + ["h_compose.cpp"]),
    "h_scale": dict(variant="asan", sources=C + ["h_scale.cpp"]),
    "h_codec": dict(variant="asan", sources=C + ["h_codec.cpp"]),
    "h_codecavx": dict(variant="asanavx", sources=C + ["h_codec.cpp"], extra_cflags=["-DCODEC_ZSTD_ONLY"]),   # the AVX2 implementation of the byte packing
    "h_bitmap": dict(variant="asan", sources=C + ["h_bitmap.cpp"]),
    "h_multi": dict(variant="asan", sources=C + ["h_multi.cpp"]),
    "h_meta": dict(variant="asan", sources=C + ["h_meta.cpp"]),
    "h_capi": dict(variant="asan", sources=C + ["h_capi.cpp"], use_capi=True),
    "h_open": dict(variant="asan", sources=C + ["h_open.cpp"]),
    "h_life": dict(variant="asan", sources=C + ["h_life.cpp"]),
    "h_site": dict(variant="asan", sources=C + ["h_site.cpp"]),
    "h_text": dict(variant="asan", sources=C + ["h_text.cpp"]),
    "h_conc": dict(variant="tsanrt", sources=["h_conc.cpp"], plain_sources=["mc.cpp", "main.cpp", "conc.cpp"], extra_cflags=["-DMC_NO_NEW_OVERRIDE"], extra_ldflags=["-rdynamic"] + ["-Wl,--wrap=" + f for f in WRAP]),
    "h_query": dict(variant="asan", sources=C + ["h_query.cpp"]),
    "h_stream": dict(variant="asan", sources=C + ["h_stream.cpp"], extra_ldflags=["-Wl,--wrap=" + f for f in SYSWRAP]),
    "h_streamcrt": dict(variant="asancrt", sources=C + ["h_stream.cpp"], extra_cflags=["-DSTREAM_CRT_ONLY"], extra_ldflags=["-Wl,--wrap=" + f for f in SYSWRAP]),
}
PLAN = {
    "C01": ["h_write"],
    "C02": ["h_write", "h_edit"],
    "C03": ["h_edit"],
    "C04": ["h_edit"],
    "C05": ["h_write"],
    "C06": ["h_fault"],
    "C07": ["h_fault"],
    "C08": ["h_hostile"],
    "C09": ["h_query"],
    "C10": ["h_compose", "h_scale"],
    "C11": ["h_scale"],
    "C12": ["h_scale"],
    "C13": ["h_conc"],
    "C14": ["h_conc"],
    "C15": ["h_codec", "h_codecavx"],
    "C16": ["h_bitmap"],
    "C17": ["h_bitmap"],
    "C18": ["h_scale"],
    "C19": ["h_multi"],
    "C20": ["h_text"],
    "C21": ["h_meta"],
    "C22": ["h_capi"],
    "C23": ["h_stream", "h_streamcrt"],
    "C24": ["h_bitmap", "h_conc"],
    "C25": ["h_open"],
    "C26": ["h_site"],
    "C27": ["h_life"],
}
CAP = {}
_B = "bounds per suite are listed in evidence/%s.json"
NOTE = {
    "C13": ("stateless model checking of the real code under a controlled scheduler: all interleavings of the lock/stream/allocation points of 2-3 threads up to a preemption bound, plus exhaustive cache operation histories against a reference cache; data races by vector clocks on every schedule", _B % "C13"),
    "C14": ("stateless model checking of the real code under a controlled scheduler: all interleavings of concurrent reader/editor calls up to a preemption bound, each result compared with the sequential one; data races by vector clocks on every schedule", _B % "C14"),
    "C24": ("stateless model checking: all lock/unlock/copy histories up to a depth and, under the controlled scheduler, all interleavings of bitmap users up to a preemption bound", _B % "C24"),
    "C06": ("exhaustive fault injection on the real code: every write request of every bounded history fails in every way (error, short, torn), alone and in pairs; the resulting document is judged against the reference model", _B % "C06"),
    "C07": ("exhaustive fault injection on the real code: every read request of every bounded history fails in every way or delivers each smaller number of bytes; what is returned is compared with the healthy result", _B % "C07"),
    "C23": ("stateless model checking of the real stream classes: all operation histories up to a depth with every intercepted system call failing or being cut short once, and a scripted loopback HTTP server with every answer pattern, against a reference byte array", _B % "C23"),
    "C26": ("stateless model checking: all operations x site configurations executed on the real code against the default site, and every call to the site failing once (fault enumeration)", _B % "C26"),
}
NA = {}
