"""Which harnesses decide which property."""
BOTH = ["2026", "2025"]
SCHED_WRAPS = "-Wl," + ",".join("--wrap=" + f for f in (
    "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock "
    "pthread_mutex_unlock pthread_create pthread_join pthread_detach pthread_self "
    "pthread_attr_init __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort abort").split())
CONC_WRAPS = "-Wl," + ",".join("--wrap=" + f for f in (
    "malloc calloc realloc aligned_alloc free vsnprintf snprintf sprintf strlen strcmp strncmp memcmp bcmp "
    "memchr memcpy memmove memset strcpy strncpy fread strtok rand srand setlocale umask chdir fchdir "
    "opendir readdir readdir64 stat64 lstat64 fopen64 rename getcwd realpath pthread_once "
    "pthread_setspecific pthread_getspecific").split())
COST_WRAPS = "-Wl," + ",".join("--wrap=" + f for f in (
    "malloc calloc realloc aligned_alloc free memcpy memmove memset memcmp bcmp memchr strlen strcmp strncmp "
    "strchr strrchr strstr").split())

CHECKS = {
    "C01": {"harnesses": [{"src": "vector.cpp", "epochs": BOTH, "flags": ["-DPART_VECTOR"]}]},
    "C02": {"harnesses": [{"src": "vector.cpp", "epochs": BOTH, "flags": ["-DPART_FIXED"]}]},
    "C03": {"harnesses": [{"src": "vector.cpp", "epochs": BOTH, "flags": ["-DPART_LIFE"]},
                          {"src": "wrappers.cpp", "epochs": BOTH, "flags": ["-DPART_LIFE"],
                           "link": ["-Wl,--wrap=abort"]},
                          {"src": "variant.cpp", "epochs": BOTH, "flags": ["-DPART_LIFE"]},
                          {"src": "hash.cpp", "epochs": BOTH, "flags": ["-DPART_LIFE"]},
                          {"src": "btree.cpp", "epochs": BOTH, "flags": ["-DPART_LIFE"]}]},
    "C04": {"harnesses": [{"src": "wrappers.cpp", "epochs": BOTH, "flags": ["-DPART_WRAP"],
                           "link": ["-Wl,--wrap=abort"]}]},
    "C05": {"harnesses": [{"src": "variant.cpp", "epochs": BOTH, "flags": ["-DPART_VARIANT"]}]},
    "C06": {"harnesses": [{"src": "hash.cpp", "epochs": BOTH, "flags": ["-DPART_HASH"]}]},
    "C07": {"harnesses": [{"src": "btree.cpp", "epochs": BOTH, "flags": ["-DPART_BTREE"]}]},
    "C08": {"harnesses": [{"src": "bytes.cpp", "epochs": BOTH}]},
    "C09": {"harnesses": [{"src": "cstring.cpp", "epochs": BOTH}]},
    "C10": {"harnesses": [{"src": "strquery.cpp", "epochs": BOTH, "flags": ["-DPART_QUERY"]}]},
    "C11": {"harnesses": [{"src": "strquery.cpp", "epochs": ["2026"], "flags": ["-DPART_NATURAL"]}]},
    "C12": {"harnesses": [{"src": "strquery.cpp", "epochs": BOTH, "flags": ["-DPART_FIXEDC"]}]},
    "C13": {"harnesses": [{"src": "utf8.cpp", "epochs": BOTH, "flags": ["-DPART_VALID"]}]},
    "C14": {"harnesses": [{"src": "utf8.cpp", "epochs": BOTH, "flags": ["-DPART_ITER"]}]},
    "C15": {"harnesses": [{"src": "utf8.cpp", "epochs": BOTH, "flags": ["-DPART_OPS"]}]},
    "C16": {"harnesses": [{"src": "utf8.cpp", "epochs": BOTH, "flags": ["-DPART_CASE"]}]},
    "C17": {"harnesses": [{"src": "sorts.cpp", "epochs": BOTH, "flags": ["-DPART_SORT"], "fallback": ["-DNO_LIMITS"]}]},
    "C18": {"harnesses": [{"src": "sorts.cpp", "epochs": ["2026"], "flags": ["-DPART_STABLE"], "fallback": ["-DNO_LIMITS"]}]},
    "C19": {"harnesses": [{"src": "sorts.cpp", "epochs": BOTH, "flags": ["-DPART_ALGO"], "fallback": ["-DNO_LIMITS"]}]},
    "C20": {"harnesses": [{"src": "regex.cpp", "epochs": BOTH}]},
    "C21": {"harnesses": [{"src": "argparse.cpp", "epochs": ["2026"], "fallback": ["-DNO_PRIVATE"], "link": ["-Wl,--wrap=exit,--wrap=abort"]}]},
    "C22": {"harnesses": [{"src": "path.cpp", "epochs": BOTH}]},
    "C23": {"harnesses": [{"src": "glob.cpp", "epochs": BOTH,
                           "link": ["-Wl,--wrap=opendir,--wrap=closedir,--wrap=readdir,--wrap=readdir64"]}]},
    "C24": {"harnesses": [{"src": "files.cpp", "epochs": BOTH,
                           "link": ["-Wl,--wrap=abort,--wrap=fopen,--wrap=fopen64,--wrap=fclose,--wrap=mmap,"
                                    "--wrap=mmap64,--wrap=munmap"]}]},
    "C25": {"harnesses": [{"src": "misc.cpp", "epochs": BOTH, "flags": ["-DPART_LOOP"], "link": ["-Wl,--wrap=abort"]}]},
    "C26": {"harnesses": [{"src": "misc.cpp", "epochs": BOTH, "flags": ["-DPART_FORMAT"], "link": ["-Wl,--wrap=abort"]}]},
    "C27": {"harnesses": [{"src": "misc.cpp", "epochs": BOTH, "flags": ["-DPART_ORDER"], "link": ["-Wl,--wrap=abort"]}]},
    "C28": {"harnesses": [{"src": "misc.cpp", "epochs": BOTH, "flags": ["-DPART_SPAN"], "link": ["-Wl,--wrap=abort"]}]},
    "C29": {"harnesses": [{"src": "threads.cpp", "epochs": BOTH, "link": [SCHED_WRAPS]}]},
    "C32": {"harnesses": [{"src": "costs.cpp", "epochs": BOTH, "san": ["-fsanitize-coverage=trace-pc"], "linksan": [],
                           "link": ["-Wl,--wrap=abort", COST_WRAPS]}]},
    "C33": {"harnesses": [{"src": "tools.cpp", "epochs": BOTH, "with_tools": True, "flags": ["-fno-strict-return", "-fno-sanitize=return"], "link": ["-Wl,--wrap=abort"]}]},
    "C31": {"harnesses": [{"src": "hashing.cpp", "epochs": BOTH, "link": ["-Wl,--wrap=abort"]}]},
    "C30": {"harnesses": [{"src": "conc.cpp", "epochs": BOTH, "san": ["-fsanitize=thread"], "hsan": [], "linksan": [],
                           "extra": ["conc_mark.cpp", "conc_ops.cpp"], "extraflags": ["-fsanitize=thread"],
                           "link": [SCHED_WRAPS, CONC_WRAPS, "-Wl,-z,now", "-rdynamic"]}]},
}
