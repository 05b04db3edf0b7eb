class ReactorNotRunning(RuntimeError):
    pass
class NotConnectingError(RuntimeError):
    pass
class CannotListenError(Exception):
    pass
class ConnectionLost(Exception):
    pass
class ConnectionDone(Exception):
    pass
