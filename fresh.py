"""Makes cargo build again what was built from other sources, whatever their modification times."""
import glob
import hashlib
import os
import shutil

REPO = "/repo"


def sources():
    """What the crates under test are built from, as a digest."""
    h = hashlib.sha256()
    for top in ("frozen-collections-core", "frozen-collections", "frozen-collections-macros"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as x:
                    h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def forget_stale(profile_dir):
    stamp = os.path.join(profile_dir, ".sources")
    now = sources()
    if os.path.exists(stamp):
        with open(stamp) as f:
            if f.read() == now:
                return
    for d in glob.glob(os.path.join(profile_dir, ".fingerprint", "frozen-collections*")):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(profile_dir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)
