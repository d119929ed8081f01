"""
History behind the known finding of P23: a wallet whose replication was set up
earlier is opened by software with a newer schema.  The upgrade is made on a
connection in replication mode to which no observer was added yet, so it is
recorded and then dropped.  The replica keeps the snapshot of the old schema,
and later events (which use the new schema) cannot be applied to it.
"""
import tempfile
from datetime import datetime, timezone

from _zkapauthorizer import schema
from _zkapauthorizer.model import VoucherStore, memory_connect, with_cursor
from _zkapauthorizer.replicate import get_events, with_replication, statements_to_snapshot, connection_to_statements

with tempfile.TemporaryDirectory() as d:
    raw = memory_connect(d + "/x", isolation_level="IMMEDIATE")
    raw.execute("CREATE TABLE [version] AS SELECT 0 AS [version]")
    for v in range(7):      # an old database
        for s in schema._UPGRADES[v]:
            raw.execute(s)
        raw.execute(schema._INCREMENT_VERSION)
    raw.commit()
    # as ZKAPAuthorizer._get_store does when replication is set up
    conn = with_replication(raw, True)
    store = VoucherStore.from_connection(4, lambda: datetime.now(timezone.utc), conn)
    # as _ReplicationService.startService does later
    seen = []

    def observer(cursor, changes):
        seen.extend(changes)
        return lambda: None
    conn.add_mutation_observer(observer)
    store.start_lease_maintenance().finish()
    print("version now:", raw.execute("SELECT [version] FROM [version]").fetchall())
    print("an upgrade statement was observed:", any("ALTER" in sql for _, sql, _ in seen))
    print("left to be observed:", len(conn._mutations))
