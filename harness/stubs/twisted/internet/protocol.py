class BaseProtocol(object):
    connected = 0
    transport = None
    def makeConnection(self, transport):
        self.connected = 1
        self.transport = transport
        self.connectionMade()
    def connectionMade(self):
        pass
class Protocol(BaseProtocol):
    factory = None
    def dataReceived(self, data):
        pass
    def connectionLost(self, reason=None):
        pass
class Factory(object):
    protocol = None
    numPorts = 0
    noisy = True
    def doStart(self):
        if self.numPorts == 0:
            self.startFactory()
        self.numPorts += 1
    def doStop(self):
        if self.numPorts == 0:
            return
        self.numPorts -= 1
        if self.numPorts == 0:
            self.stopFactory()
    def startFactory(self):
        pass
    def stopFactory(self):
        pass
    def buildProtocol(self, addr):
        p = self.protocol()
        p.factory = self
        return p
class ClientFactory(Factory):
    def startedConnecting(self, connector):
        pass
    def clientConnectionFailed(self, connector, reason):
        pass
    def clientConnectionLost(self, connector, reason):
        pass
class ServerFactory(Factory):
    pass
class ReconnectingClientFactory(ClientFactory):
    maxDelay = 3600
    initialDelay = 1.0
    factor = 2
    jitter = None
    delay = initialDelay
    retries = 0
    maxRetries = None
    _callID = None
    connector = None
    continueTrying = 1
    def clientConnectionFailed(self, connector, reason):
        if self.continueTrying:
            self.connector = connector
            self.retry()
    clientConnectionLost = clientConnectionFailed
    def retry(self, connector=None):
        if not self.continueTrying:
            return
        if connector is None:
            connector = self.connector
            if connector is None:
                raise ValueError("no connector to retry")
        self.retries += 1
        if self.maxRetries is not None and self.retries > self.maxRetries:
            return
        self.delay = min(self.delay * self.factor, self.maxDelay)
        def reconnector():
            self._callID = None
            connector.connect()
        from twisted.internet import reactor
        self._callID = reactor.callLater(self.delay, reconnector)
    def stopTrying(self):
        if self._callID:
            self._callID.cancel()
            self._callID = None
        self.continueTrying = 0
        if self.connector:
            from twisted.internet import error
            try:
                self.connector.stopConnecting()
            except error.NotConnectingError:
                pass
    def resetDelay(self):
        self.delay = self.initialDelay
        self.retries = 0
        self._callID = None
        self.continueTrying = 1
