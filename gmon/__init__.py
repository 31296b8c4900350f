"""Runtime-monitoring harness for glimpse.

A property module registers *workloads*.  A workload is one randomly generated
case: it drives the real library through its public interface while a Monitor
records what is observed and judges it against an independent oracle.  Every case
is determined by (property, workload, seed, index), so any violation replays.
"""
from .core import (  # noqa: F401
    Monitor,
    StopCase,
    workload,
    WORKLOADS,
    META,
    scratch,
    REPO,
)
