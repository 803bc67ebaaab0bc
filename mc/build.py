"""Builds variants of /repo's working tree in a scratch directory outside /repo
and /verif, which is removed when the check ends."""
import atexit
import glob
import os
import shutil
import signal
import subprocess
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
_base = None


def base():
    global _base
    if _base is None:
        _base = tempfile.mkdtemp(prefix="randomgen-mc.", dir="/var/tmp")
        atexit.register(shutil.rmtree, _base, True)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda n, f: sys.exit(2))
    return _base


VARIANTS = {
    # as the project builds it here
    "std": {},
    # no SSE/AES intrinsics, no native 128-bit integers
    "portable": {"RANDOMGEN_NO_SSE2": "1",
                 "CFLAGS": "-DPCG_FORCE_EMULATED_128BIT_MATH=1 "
                           "-DR123_USE_GNU_UINT128=0 -DR123_USE_MULHILO64_C99=1 "
                           "-U__SSE2__ -U__SSSE3__ -U__AES__"},
    # SSE2 without SSSE3, assembler multiplication
    "sse2": {"CFLAGS": "-U__SSSE3__ -DR123_USE_MULHILO64_ASM=1 "
                       "-DR123_USE_MULHILO32_ASM=1"},
    # every access checked
    "asan": {"CFLAGS": "-fsanitize=address,bounds -fno-sanitize-recover=all "
                       "-fstrict-flex-arrays=1 "
                       "-fno-omit-frame-pointer",
             "LDFLAGS": "-fsanitize=address,bounds"},
    # the RDRAND instruction is replaced by a scripted stand-in
    "rdrand": {"SHIM": "rdrand"},
    # system calls of the entropy source are replaced by scripted stand-ins
    "entropy": {"SHIM": "entropy"},
}
# built from nothing, with other flags than the project's
REBUILT = ("portable", "sse2", "asan")


def runtime(variant):
    """What the environment of a process must have to load the variant."""
    if variant != "asan":
        return {}
    lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"]).decode().strip()
    return {"LD_PRELOAD": lib, "PYTHONMALLOC": "malloc",
            "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
                            "detect_stack_use_after_return=0:quarantine_size_mb=32:"
                            "max_allocation_size_mb=4096",
            "UBSAN_OPTIONS": "print_stacktrace=1"}


def build(variant="std"):
    """Returns the directory to put on PYTHONPATH."""
    dst = os.path.join(base(), variant)
    skip = shutil.ignore_patterns(".git", "__pycache__", "*.html", "doc")
    shutil.copytree(REPO, dst, symlinks=True, ignore=skip)
    os.makedirs(os.path.join(dst, "doc"), exist_ok=True)
    env = dict(os.environ)
    env.update(VARIANTS[variant])
    shim = env.pop("SHIM", None)
    if variant in REBUILT:
        for root, _, files in os.walk(dst):
            for f in files:
                if f.endswith((".so", ".o")):
                    os.unlink(os.path.join(root, f))
    cc = os.path.join(base(), "ccache-tmp")
    os.makedirs(cc, exist_ok=True)
    env["CCACHE_READONLY"] = "1"
    env["CCACHE_TEMPDIR"] = cc
    env["TMPDIR"] = cc
    run = dict(stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
               stderr=subprocess.STDOUT)
    setup = [sys.executable, "/opt/vp/run_setup.py"]
    p = None
    if variant not in REBUILT:
        # The compiler's cache knows objects by their directory: show the copy at
        # the usual path, inside a mount namespace of its own.
        p = subprocess.run(
            ["unshare", "-Urm", "sh", "-c",
             'mount --bind "$0" /repo && cd /repo && test ! -e .git && exec "$@"',
             dst] + setup, env=env, **run)
    if p is None or p.returncode:
        env.setdefault("CFLAGS", "")
        env["CFLAGS"] = "-O1 -DNDEBUG -fno-strict-overflow " + env["CFLAGS"]
        p = subprocess.run(setup, cwd=dst, env=env, **run)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
        raise SystemExit(f"build of variant {variant} failed")
    if shim:
        # one extension again, with the stand-ins
        os.unlink(glob.glob(os.path.join(dst, "randomgen", shim + ".*.so"))[0])
        env["CFLAGS"] = (f"-O1 -DNDEBUG -fno-strict-overflow "
                         f"-include {HERE}/shims/{shim}_shim.h")
        p = subprocess.run([sys.executable, os.path.join(HERE, "build_some.py"), shim],
                           cwd=dst, env=env, **run)
        if p.returncode:
            sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
            raise SystemExit(f"build of variant {variant} failed")
    chk = subprocess.run(
        [sys.executable, "-c", "import randomgen,sys; print(randomgen.__file__)"],
        env=dict(env, PYTHONPATH=dst, **runtime(variant)), cwd="/", stdout=subprocess.PIPE)
    if chk.returncode or not chk.stdout.decode().startswith(dst + "/"):
        raise SystemExit(f"the build of variant {variant} cannot be imported")
    return dst
