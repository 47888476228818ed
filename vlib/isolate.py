"""Resets the library's process-wide state between cases, so that one case
cannot influence the next. Only documented registries are touched."""
import random
import warnings

import properties
from properties import extras

_BASE_REGISTRY = None


def reset():
    """Back to the state right after import"""
    global _BASE_REGISTRY
    warnings.simplefilter('ignore')
    random.seed(20240501)
    quarantine = getattr(properties.listeners_disabled, '_quarantine', None)
    if isinstance(quarantine, set) and quarantine:
        properties.listeners_disabled._quarantine = set()
    if _BASE_REGISTRY is None:
        _BASE_REGISTRY = [
            (cls._REGISTRY, dict(cls._REGISTRY))
            for cls in (properties.HasProperties, extras.HasUID, extras.task.BaseTask)
        ]
    for registry, base in _BASE_REGISTRY:
        if registry != base:
            registry.clear()
            registry.update(base)
    extras.HasUID._INSTANCES.clear()
    extras.Singleton._SINGLETONS.clear()


_PROBE = []


def listening():
    """True if listeners of every kind run"""
    if not _PROBE:
        heard = []

        def hear(self, change):
            heard.append(change['mode'])
        registry = properties.HasProperties._REGISTRY
        kept = dict(registry)
        cls = type(properties.HasProperties)('ListeningProbe', (properties.HasProperties,), {
            'val': properties.Integer('', required=False),
            'one': properties.validator('val')(hear),
            'two': properties.observer('val')(hear),
            'three': properties.observer('val', change_only=True)(hear)})
        registry.clear()
        registry.update(kept)
        _PROBE.extend([cls, heard])
    cls, heard = _PROBE
    del heard[:]
    cls().val = 1
    return sorted(heard) == ['observe_change', 'observe_set', 'validate']
