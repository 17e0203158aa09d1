import numpy as np

from qmmc import refs
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one STA/LTA function evaluated on one signal with one window pair "
        "and compared sample by sample with its window definition (exact small-integer "
        "signals). All signals over {0,1,4} (quick up to length 8) x all window pairs that "
        "fit. Non-trivial: signal not constant; distinct by signal, windows and function.")
ASSUMPTIONS = ["1 <= nsta <= nlta and the windows fit in the signal (as the onset padding guarantees)",
               "signals are non-negative (they are energies or absolute values)"]

ALPHA = [0.0, 1.0, 4.0]


def implementations():
    import quakemigrate.core.lib as lib
    import quakemigrate.signal.onsets.stalta as stalta

    impl = {
        "classic-c": (lib.overlapping_sta_lta, refs.sta_lta_classic),
        "centred-c": (lib.centred_sta_lta, refs.sta_lta_centred),
        "recursive-c": (lib.recursive_sta_lta, refs.sta_lta_recursive),
    }
    for name, attr, ref in (
            ("classic-py", "overlapping_sta_lta_py", refs.sta_lta_classic),
            ("centred-py", "centred_sta_lta_py", refs.sta_lta_centred)):
        fn = getattr(stalta, attr, None)
        if fn is not None:
            impl[name] = (fn, ref)
    return impl


def cases(tier):
    top = 8 if tier == "quick" else 10
    for n in range(1, top + 1):
        total = 3 ** n
        for lo in range(0, total, 250):
            yield [n, lo, min(total, lo + 250)]


def windows(n):
    for nlta in range(1, n + 3):
        for nsta in range(1, min(nlta, 5) + 1):
            yield nsta, nlta


def fits(name, nsta, nlta, n):
    """Windows each implementation is asked about: the compiled ones always answer (all
    ones when no window fits); the pure-Python centred one needs room for its windows."""
    if name.endswith("-py"):
        if name.startswith("centred"):
            return nsta < nlta and nsta + nlta <= n
        return nlta <= n
    if name.startswith("recursive"):
        return nlta < n
    return True


def compare(ctx, name, fn, ref, sig, nsta, nlta, key):
    before = sig.copy()
    got = np.asarray(fn(sig, nsta, nlta))
    want = ref(before.tolist(), nsta, nlta)
    ctx.count((name, nsta, nlta, key), nontrivial=bool(np.ptp(before)) if len(before) else False)
    ctx.add(samples_compared=len(before))
    ctx.check(np.array_equal(sig, before), f"{name}-modified-input", str(before.tolist()))
    ctx.check(len(got) == len(before), f"{name}-length", str((len(got), len(before))))
    ctx.check(refs.close(got, want, rtol=1e-9, atol=1e-9), f"{name}-value",
              lambda: f"signal {before.tolist()} nsta={nsta} nlta={nlta}: got {got.tolist()} "
                      f"want {want.tolist()}")


def run(case, ctx):
    n, lo, hi = case
    impl = implementations()
    alpha = np.array(ALPHA)
    for k in range(lo, hi):
        digits, x = [], k
        for _ in range(n):
            digits.append(x % 3)
            x //= 3
        sig = alpha[digits]
        for nsta, nlta in windows(n):
            for name, (fn, ref) in impl.items():
                if fits(name, nsta, nlta, n):
                    compare(ctx, name, fn, ref, sig.copy(), nsta, nlta, (n, k))
    ctx.sample(signal=sig.tolist(), windows=list(windows(n))[:4])


def long_cases(tier):
    for n in (20, 33, 64):
        for nlta in (2, 3, 7, 11, n // 2, n - 4, n - 1, n):
            for nsta in (1, 2, 3, 5, nlta - 1, nlta):
                if 1 <= nsta <= nlta:
                    yield [n, nsta, nlta]


def run_long(case, ctx):
    """Step, impulse at every position, silence then signal, signal then silence; also
    integer and strided inputs."""
    n, nsta, nlta = case
    impl = implementations()
    ramp = np.modf(np.arange(n) * 0.625)[0] * 8 + 1
    sigs = []
    for p in range(0, n, 3):
        imp = np.ones(n)
        imp[p] = 64.0
        sigs.append(imp)
        z = np.zeros(n)
        z[p] = 2.0
        sigs.append(z)
        s = ramp.copy()
        s[:p] = 0
        sigs.append(s)
        s = ramp.copy()
        s[p:] = 0
        sigs.append(s)
    sigs.append(ramp.astype(np.int64) * 3)
    sigs.append(np.repeat(ramp, 2)[::2])
    sigs.append(ramp.astype(np.float32))
    for i, sig in enumerate(sigs):
        for name, (fn, ref) in impl.items():
            if fits(name, nsta, nlta, n):
                compare(ctx, name, fn, ref, sig, nsta, nlta, (n, i))


def silence_cases(tier):
    top = 9 if tier == "quick" else 11
    for n in range(1, top + 1):
        for lo in range(0, 2 ** n, 64):
            yield [n, lo, min(2 ** n, lo + 64)]


def run_silence(case, ctx):
    """Every pattern of signal and gaps, where gaps hold the tiny numbers data are padded with (or their squares)
    and the signal's sums are not exact: windows without signal are silent whatever came before."""
    n, lo, hi = case
    impl = implementations()
    loud = np.modf(np.arange(1, n + 1) * 0.6180339887)[0] * 3e7 + 1e6 / 3
    for k in range(lo, hi):
        on = np.array([k >> j & 1 for j in range(n)], bool)
        clean = np.where(on, loud, 0.0)
        for tiny in (2.0 ** -1022, 2.0 ** -511):
            sig = np.where(on, loud, tiny)
            for rep in (1, 3):
                y, c = np.repeat(sig, rep), np.repeat(clean, rep)
                for nsta, nlta in windows(n):
                    for name, (fn, ref) in impl.items():
                        if name.startswith("recursive") or not fits(name, nsta, nlta, len(y)):
                            continue
                        got = np.asarray(fn(y.copy(), nsta, nlta))
                        want = ref(c.tolist(), nsta, nlta)
                        ctx.count((name, nsta, nlta, n, k, tiny, rep), nontrivial=on.any())
                        ctx.add(samples_compared=len(y))
                        ctx.check(refs.close(got, want, rtol=1e-7, atol=1e-7), f"{name}-silence",
                                  lambda: f"signal {y.tolist()} nsta={nsta} nlta={nlta}: got {got.tolist()} "
                                          f"want {want.tolist()}")


def groups():
    return [Group("gaps", silence_cases, run_silence), Group("all-signals", cases, run), Group("long", long_cases, run_long)]
