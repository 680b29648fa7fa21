"""Runs of the real smd binary in scratch directories."""
import os, resource, subprocess
from common import *


def env_for(home, **extra):
    """The environment of a run: nothing of the caller's, a home of its own."""
    e = {"PATH": "/usr/bin:/bin", "HOME": home, "XDG_CONFIG_HOME": os.path.join(home, ".config"), "LANG": "C.UTF-8"}
    e.update(extra)
    return {k: v for k, v in e.items() if v is not None}


def smd(binary, args, cwd, home, timeout=120, fsize=None, stack=8 << 20, user=None, **env):
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (stack, stack))
        if fsize is not None:
            import signal
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    try:
        return subprocess.run([binary, *args], cwd=cwd, env=env_for(home, **env), stdin=subprocess.DEVNULL,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre, restore_signals=False,
                              **({"user": user, "group": user, "extra_groups": []} if user else {}))
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(e.cmd, None, e.stdout or b"", e.stderr or b"")
