"""
A client which was refused because it named another capability makes the
running recovery fail; and a client which asks again after the recovery has
ended is never closed.
"""
import txaio

txaio.use_twisted()
from autobahn.exception import Disconnected
from twisted.internet.defer import Deferred

from _zkapauthorizer.recover import RecoveryStages, RecoveryState
from _zkapauthorizer.resource import RecoverFactory


class Client:
    """Behaves as autobahn's protocol does: nothing can be sent once closing."""

    def __init__(self):
        self.closed = None
        self.got = []

    def sendMessage(self, payload, isBinary=False):
        if self.closed is not None:
            raise Disconnected("Attempt to send on a closed protocol")
        self.got.append(payload)

    def sendClose(self, code=None, reason=None):
        if self.closed is None:
            self.closed = (code, reason)


class Store:
    async def call_if_empty(self, f):
        return await f(None)


go = Deferred()


def get_downloader(cap):
    async def download(set_state):
        set_state(RecoveryState(stage=RecoveryStages.inspect_replica))
        await go
        set_state(RecoveryState(stage=RecoveryStages.downloading))
        raise Exception("over")

    return download


factory = RecoverFactory(Store(), get_downloader)
first, other, late = Client(), Client(), Client()
factory.initiate_recovery("cap", first)
factory.initiate_recovery("another cap", other)
assert other.closed is not None
go.callback(None)
print(first.got[-1:], first.closed)
assert b"over" in first.got[-1], first.got
assert first.closed is not None
factory.initiate_recovery("cap", late)
assert late.got == first.got
assert late.closed is not None, "the late client waits forever"
