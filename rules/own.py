"""Shared parts of the ownership rules (C12, C17, C21)."""
ALLOC = ["BSL_SAL_Malloc", "BSL_SAL_Calloc", "BSL_SAL_Dump", "BSL_SAL_Realloc"]
SPEC = {"alloc": ALLOC, "free": ["BSL_SAL_Free"], "clear": ["BSL_SAL_ClearFree"], "wipe": ["BSL_SAL_CleanseData", "memset"],
        "scope": ["bsl/", "crypto/", "tls/", "pki/", "auth/", "codecs/"]}
LIB = ["bsl/", "crypto/", "tls/", "pki/", "auth/", "codecs/"]


def clear_only(sites):
    """{(file, fn, callee): (sites, sites whose object is always wiped before it is released)}"""
    out = {}
    for s in sites:
        k = (s["file"], s["fn"], s["callee"])
        n, c, w = out.get(k, (0, 0, []))
        kinds = set(s["kinds"])
        cl = kinds == {"clear"}
        out[k] = (n + 1, c + cl, w + ([s["plain"] or s["site"]] if kinds & {"plain"} else []))
    return out
