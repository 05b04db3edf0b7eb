from twisted.internet import protocol, error

class LineOnlyReceiver(protocol.Protocol, object):
    _buffer = b''
    delimiter = b'\r\n'
    MAX_LENGTH = 16384
    def dataReceived(self, data):
        lines = (self._buffer + data).split(self.delimiter)
        self._buffer = lines.pop(-1)
        for line in lines:
            if self.transport.disconnecting:
                return
            if len(line) > self.MAX_LENGTH:
                return self.lineLengthExceeded(line)
            else:
                self.lineReceived(line)
        if len(self._buffer) > self.MAX_LENGTH:
            return self.lineLengthExceeded(self._buffer)
    def lineReceived(self, line):
        raise NotImplementedError
    def sendLine(self, line):
        return self.transport.writeSequence((line, self.delimiter))
    def lineLengthExceeded(self, line):
        return error.ConnectionLost('Line length exceeded')
