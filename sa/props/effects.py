"""Effects of the libraries beyond the operands of the call: every call of every body, by kind of effect."""
import re
from ..core import is_test_body

LIBS = {"concrete_core", "concrete_csprng", "concrete_core_ffi", "concrete_core_wasm", "concrete_cpu", "concrete_npe"}
KINDS = [
    ("prints or reads the standard streams", re.compile(r"std::io::(_print|_eprint|stdout|stderr|stdin)$|\bconsole::|log::__private_api|std::io::stdio::")),
    ("ends or starts a process", re.compile(r"std::process::")),
    ("reads or changes the environment", re.compile(r"std::env::")),
    ("uses the file system or the network", re.compile(r"std::(fs|net|os)::(?!.*raw::)|std::io::Read::read|as std::io::Read>::")),
    ("reads the clock", re.compile(r"std::time::(SystemTime|Instant)::|std::time::Duration::as_")),
    ("draws randomness from outside the engine's generators", re.compile(r"(^|[^\w])(rand|rand_core|getrandom|fastrand)::|thread_rng|OsRng|core_arch::x86\w*::.*_rd(rand|seed)|RandomState::new")),
    ("changes the handling of panics", re.compile(r"std::panic::(set_hook|take_hook|catch_unwind|update_hook)$")),
    ("keeps state shared between calls", re.compile(r"std::sync::(atomic|Mutex|RwLock|OnceLock|LazyLock|Once)\b|once_cell::|lazy_static|LocalKey::<T>::|std::sync::poison::")),
]
# (kind, module) that is meant to have the effect
MEANT = [
    (3, r"concrete_csprng::seeders::"), (4, r"concrete_csprng::seeders::"), (5, r"concrete_csprng::seeders::|concrete_csprng.*::rdseed"),
    (6, r"concrete_core_ffi::utils::|concrete_core_wasm::"),
    (4, r"backends::fft::private::math::fft"), (7, r"backends::fft::"), (7, r"concrete_csprng::seeders::"),
]
STATIC_OK = re.compile(r"backends::fft::")


def c21(c):
    w = c.w
    n = bodies = 0
    seen = {}
    for bid, b in sorted(w.bodies.items()):
        if is_test_body(b) or b["crate"] not in LIBS:
            continue
        bodies += 1
        for blk in b["blocks"]:
            t = blk["t"]
            if t[0] != "call" or t[1][0] != "k":
                continue
            n += 1
            fns = {t[1][1].get("res") or "", t[1][1].get("fn") or ""}
            for i, (what, pat) in enumerate(KINDS):
                hit = next((x for x in sorted(fns) if x and x not in w.bodies and pat.search(x)), None)
                if hit is None:
                    continue
                ok = any(k == i and re.search(m, bid) for k, m in MEANT)
                seen.setdefault((what, bid.split("::{closure")[0], ok), []).append((hit, b, blk["l"]))
    for (what, bid, ok), hits in sorted(seen.items(), key=lambda x: x[0]):
        hit, b, line = hits[0]
        c.check(ok, "effect:%s:%s" % (bid, hit), "%s %s: it calls %s" % (bid, what, hit), b, line=line, sample="%s %s (meant)" % (bid, what))
    for name in LIBS:
        c.check(True, "clean:" + name, "", None, sample="%s: every other call has no effect of these kinds" % name)
    c.floor("bodies", bodies, 5000)
    c.floor("calls", n, 20000)
