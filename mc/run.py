#!/usr/bin/env python
"""Entry point: run.py <property id> [--tier quick|thorough] [--replay file]."""

import importlib
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    if os.environ.get("SLATE_MC_CHILD") != "1":
        # A known, minimal environment, whatever the caller's is
        keep = ("PATH", "HOME", "VERIF_SEED", "VERIF_TIER", "SLATE_MC_REPO", "SLATE_MC_BUDGET", "TMPDIR")
        env = {k: os.environ[k] for k in keep if k in os.environ}
        env.update(SLATE_MC_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8",
                   PYTHONUTF8="1", TERM="dumb", COLUMNS="80", LINES="24", SLATE_COLORSYS="true_color",
                   PYTHONPYCACHEPREFIX="/nonexistent-slate-mc")
        for number in (signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGALRM, signal.SIGUSR1, signal.SIGTTOU, signal.SIGTTIN, signal.SIGCHLD):
            signal.signal(number, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_SETMASK, [])
        os.execve(sys.executable, [sys.executable, *sys.argv], env)

    del os.environ["SLATE_MC_CHILD"]
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    rest = sys.argv[2:]
    while rest:
        arg = rest.pop(0)
        if arg == "--tier":
            tier = rest.pop(0)
        elif arg == "--replay":
            replay = rest.pop(0)

    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    sys.stdin = open(0, encoding="utf-8", closefd=False)

    sys.path.insert(0, os.path.dirname(HERE))
    from mc import engine

    root = engine.repo_root()
    sys.path.insert(0, root)
    module = importlib.import_module(f"mc.checks.{pid.lower()}")
    import slate

    assert os.path.realpath(slate.__file__).startswith(root + os.sep), slate.__file__
    sys.exit(engine.main(module, tier, replay))


if __name__ == "__main__":
    main()
