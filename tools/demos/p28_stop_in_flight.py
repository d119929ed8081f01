"""
P28: stopping replication while a request is in flight.  Twisted reports the
cancellation of such a request as ResponseNeverReceived, which must not make
the service wait for its next job forever.
"""
import sys
from twisted.internet.defer import CancelledError, Deferred
from twisted.python.failure import Failure
from twisted.web._newclient import ResponseNeverReceived

from _zkapauthorizer.model import initialize_database, memory_connect
from _zkapauthorizer.replicate import Replica, replication_service, with_replication

conn = with_replication(memory_connect("/p28"), False)
initialize_database(conn)


async def request(*args):
    await Deferred(lambda d: d.errback(Failure(ResponseNeverReceived([Failure(CancelledError())]))))


service = replication_service(conn, Replica(request, request, request), None)
service.startService()
stopped = []
service.stopService().addBoth(stopped.append)
print("stopped" if stopped else "still waiting")
sys.exit(0 if stopped else 1)
