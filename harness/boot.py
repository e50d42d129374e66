"""Process set-up shared by all drivers: import `deep` from the working tree of /repo (never from cached bytecode).

Importing this module also replaces two boundaries *before* the agent is imported, so that they hold however the agent
spells its imports:
  * the wall clock (time.time_ns / time.time as seen by the agent) can be driven by a virtual clock,
  * grpc channels can be replaced by an in-process fake channel.
"""
import importlib.machinery
import logging
import os
import sys
import time

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
DEEP_DIR = os.path.join(SRC, 'deep') + os.sep


class Transform:
    """How the code of the agent is compiled (None: as it is)."""

    function = None


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if Transform.function is not None and path.startswith(DEEP_DIR):
            return Transform.function(self.get_data(path), path)
        return self.source_to_code(self.get_data(path), path)


def _hook(path):
    if not (path + os.sep).startswith(SRC + os.sep):
        raise ImportError
    return importlib.machinery.FileFinder(path, (_NoCacheLoader, ['.py']))


sys.path_hooks.insert(0, _hook)
sys.path.insert(0, SRC)
for _name in [m for m in sys.modules if m == 'deep' or m.startswith('deep.')]:
    del sys.modules[_name]
sys.path_importer_cache.pop(SRC, None)

# ---- virtual clock -------------------------------------------------------------------------------------------------
real_time_ns = time.time_ns
real_time = time.time


class Clock:
    """When `source` is set the agent sees its value instead of the real time."""

    source = None


def _time_ns():
    src = Clock.source
    return real_time_ns() if src is None else src()


time.time_ns = _time_ns

# ---- environment: no DEEP_ variable of the caller may change what the agent does -------------------------------------
for _key in [k for k in os.environ if k.startswith('DEEP_') or k in ('OTEL_RESOURCE_ATTRIBUTES',)]:
    del os.environ[_key]


class Sink(logging.Handler):
    """Keeps what the agent logs; nothing is printed."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []
        self.keep = False

    def emit(self, record):
        if self.keep:
            self.records.append((record.levelname, record.getMessage()))


sink = Sink()


def quiet_logging():
    """Route the agent's own logger into `sink`."""
    if not logging.getLogger().handlers:
        logging.getLogger().addHandler(logging.NullHandler())
    logger = logging.getLogger('deep')
    for handler in list(logger.handlers):
        logger.removeHandler(handler)
    logger.addHandler(sink)
    logger.propagate = False
    logger.setLevel(logging.WARNING)


quiet_logging()


# ---- channels: replaced while a net.Net is active --------------------------------------------------------------------
class Hook:
    """The active stand-in for the service."""

    net = None


def _patch_channels():
    import grpc
    insecure, secure = grpc.insecure_channel, grpc.secure_channel

    def insecure_channel(target, *args, **kwargs):
        return insecure(target, *args, **kwargs) if Hook.net is None else Hook.net.channel(target, False)

    def secure_channel(target, credentials, *args, **kwargs):
        return secure(target, credentials, *args, **kwargs) if Hook.net is None else Hook.net.channel(target, True)

    grpc.insecure_channel, grpc.secure_channel = insecure_channel, secure_channel


_patch_channels()
