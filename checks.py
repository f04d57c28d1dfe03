"""Which harness decides which property, in which builds, with how many cases."""
ASAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize=alignment,function,vptr", "-fno-sanitize-recover=all"]
VARIANTS = {
    # the shipped single file, with memory and undefined-behaviour checking
    "asan": {"cc": "clang", "cxx": "clang++", "cflags": ASAN},
    # built from the separate sources
    "split": {"cc": "clang", "cxx": "clang++", "cflags": ASAN, "defs": ["-DTG_NOAMALGA"], "split": True},
    "noatomics": {"cc": "clang", "cxx": "clang++", "cflags": ASAN, "defs": ["-DTG_NOATOMICS"]},
    # as users build it
    "plain": {"cc": "gcc", "cxx": "g++", "cflags": ["-O2", "-g1"]},
    "tsan": {"cc": "clang", "cxx": "clang++", "cflags": ["-O1", "-g1", "-fsanitize=thread"],
             "ldflags": ["-Wl,--wrap=__tsan_" + f for f in ["atomic_thread_fence"] + [
                 "atomic%d_%s" % (n, o) for n in (32, 64) for o in (
                     "fetch_add", "fetch_sub", "exchange", "load", "compare_exchange_strong",
                     "compare_exchange_weak", "compare_exchange_val")]]},
    # shared objects compared by C29
    "o0": {"cc": "gcc", "cflags": ["-O0"]},
    "o3": {"cc": "gcc", "cflags": ["-O3"]},
    "clang2": {"cc": "clang", "cflags": ["-O2"]},
    "osplit": {"cc": "gcc", "cflags": ["-O2"], "defs": ["-DTG_NOAMALGA"], "split": True},
    # the code for other compilers and machines: no 128-bit integers, no assembly, no wide copies
    "oportable": {"cc": "gcc", "cflags": ["-O2"], "defs": ["-U__SIZEOF_INT128__"],
                  "subst": [("defined(__x86_64__)", "defined(__none__)"),
                            ("#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__", "#if 0")]},
    # 64-bit indexes
    "oix64": {"cc": "clang", "cflags": ["-O2"], "defs": ["-DTG_IXFLOAT64"]},
    "onoatomics": {"cc": "gcc", "cflags": ["-O2"], "defs": ["-DTG_NOATOMICS"]},
}


def st(variant, quick, thorough, **kw):
    d = {"variant": variant, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


CHECKS = {
    "C02": {"src": "c02.cpp", "stages": [st("asan", 200000, 2600000), st("split", 40000, 530000)]},
    "C03": {"src": "c03.cpp", "stages": [st("asan", 100000, 1200000), st("split", 40000, 480000)]},
    "C11": {"src": "c11.cpp", "stages": [st("asan", 500000, 7500000)]},
    "C12": {"src": "c12.cpp", "stages": [st("asan", 400000, 6800000)]},
    "C13": {"src": "c13.cpp", "stages": [st("asan", 5000000, 120000000)]},
    "C14": {"src": "c14.cpp", "stages": [st("asan", 500000, 7100000)]},
    "C15": {"src": "c15.cpp", "stages": [st("asan", 180000, 1500000)]},
    "C16": {"src": "c16.cpp", "stages": [st("asan", 500000, 4000000)]},
    "C17": {"src": "c17.cpp", "stages": [st("asan", 500000, 4800000)]},
    "C18": {"src": "c18.cpp", "stages": [st("asan", 100000, 1200000)]},
    "C19": {"src": "c19.cpp", "stages": [st("asan", 400000, 3800000)]},
    "C20": {"src": "c20.cpp", "stages": [st("asan", 200000, 3700000)]},
    "C21": {"src": "c21.cpp", "stages": [st("asan", 200000, 2800000)]},
    "C22": {"src": "c22.cpp", "stages": [st("asan", 100000, 2400000)]},
    "C23": {"src": "c23.cpp", "stages": [st("asan", 300000, 12000000)]},
    "C24": {"src": "c24.cpp", "stages": [st("asan", 60000, 1600000), st("split", 10000, 270000)]},
    "C04": {"src": "c04.cpp", "stages": [st("asan", 100000, 1400000), st("split", 40000, 570000)]},
    "C25": {"src": "c25.cpp", "stages": [st("asan", 100000, 2700000), st("split", 20000, 540000)]},
    "C05": {"src": "c05.cpp", "stages": [st("asan", 100000, 850000), st("split", 20000, 170000)]},
    "C06": {"src": "c06.cpp", "stages": [st("asan", 100000, 1300000), st("split", 20000, 260000)]},
    "C10": {"src": "c10.cpp", "stages": [st("asan", 80000, 1800000)]},
    "C07": {"src": "c07.cpp", "stages": [st("asan", 300000, 6000000), st("split", 100000, 2000000)]},
    "C09": {"src": "c09.cpp", "stages": [st("asan", 60000, 800000), st("split", 10000, 130000)]},
    "C08": {"src": "c08.cpp", "stages": [st("asan", 300000, 3600000), st("split", 60000, 720000)]},
    "C26": {"src": "c26.cpp", "stages": [st("asan", 60000, 720000), st("noatomics", 30000, 360000)]},
    "C27": {"src": "c27.cpp", "stages": [st("asan", 20000, 260000), st("split", 4000, 53000)]},
    "C28": {"src": "c28.cpp", "stages": [st("tsan", 16000, 320000), st("asan", 16000, 320000)]},
    "C29": {"src": "c29.cpp", "stages": [st("asan", 40000, 600000)],
            "libs": ["o0", "o3", "clang2", "osplit", "onoatomics", "oportable", "oix64"]},
    "C01": {"src": "c01.cpp", "stages": [st("asan", 60000, 700000), st("split", 20000, 200000)],
            "fuzz": {"variant": "asan", "runs": 2000000, "max_len": 1500, "max_s": 180}},
}
