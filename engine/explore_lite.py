"""Exception classes shared by the symbolic engine and the concrete replays (no solver import)."""


class EngineError(BaseException):
    """The engine cannot decide (unsupported construct, unknown verdict, bound hit)."""


class PathAbort(BaseException):
    """The current path is infeasible / outside the assumptions."""
