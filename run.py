#!/usr/bin/env python3
"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--family NAME] [--scale F]"""
import os
import sys

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "TF_NUM_INTRAOP_THREADS": "1",
    "TF_NUM_INTEROP_THREADS": "1",
    "JAX_PLATFORMS": "cpu",
    "CUDA_VISIBLE_DEVICES": "",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "TF_ENABLE_ONEDNN_OPTS": "0",
    "PYTHONWARNINGS": "ignore",
}
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("VMON_STAGE") != "1":
        env = dict(os.environ, VMON_STAGE="1", **ENV)
        for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONPYCACHEPREFIX"):
            env.pop(k, None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from vmon import core

    sys.exit(core.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
