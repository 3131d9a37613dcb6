"""Shared by the Python harnesses."""
import torch
from aihwkit.simulator.configs import TorchInferenceRPUConfig
from aihwkit.simulator.tiles.custom import CustomRPUConfig


def perfect(cls=TorchInferenceRPUConfig, **mapping):
    c = cls()
    c.forward.is_perfect = True
    if hasattr(c, "backward"):
        c.backward.is_perfect = True
    for k, v in mapping.items():
        assert hasattr(c.mapping, k), k
        setattr(c.mapping, k, v)
    if hasattr(c, "drift_compensation"):
        c.drift_compensation = None
    return c


def custom(**mapping):
    return perfect(CustomRPUConfig, **mapping)
