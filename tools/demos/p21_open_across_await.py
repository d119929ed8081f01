"""
History behind the known finding of P21: an operation which waits inside of
call_if_empty (as recovery does while it downloads the replica) shares its
transaction with whatever else uses the wallet meanwhile.
"""
import tempfile
from datetime import datetime, timezone

from twisted.internet.defer import Deferred
from _zkapauthorizer.model import VoucherStore, initialize_database, memory_connect
from _zkapauthorizer.replicate import with_replication

with tempfile.TemporaryDirectory() as d:
    conn = with_replication(memory_connect(d + "/x", isolation_level="IMMEDIATE"), False)
    initialize_database(conn)
    store = VoucherStore(4, lambda: datetime.now(timezone.utc), conn)
    gate = Deferred()

    async def recover(cursor):
        cursor.execute("INSERT INTO [lease-maintenance-spending] VALUES (1, '2020-01-01T00:00:00+00:00', NULL, 7)", ())
        await gate
        cursor.execute("INSERT INTO [lease-maintenance-spending] VALUES (2, '2020-01-01T00:00:00+00:00', NULL, 8)", ())

    outcome = []
    Deferred.fromCoroutine(store.call_if_empty(recover)).addBoth(outcome.append)
    try:
        store.count_unblinded_tokens()
    except Exception as e:
        print("another wallet operation meanwhile:", repr(e))
    print("the first transaction is still open:", conn._conn.in_transaction)
    gate.callback(None)
    print("outcome of the first:", outcome)
    print("rows left:", conn._conn.execute("SELECT [id] FROM [lease-maintenance-spending]").fetchall())
