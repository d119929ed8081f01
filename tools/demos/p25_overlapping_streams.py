"""
An event upload succeeded but the process ended (or the response was lost)
before the events were discarded locally; the next upload has them again.
Recovery from such a replica replays the first change twice.
"""
from io import BytesIO
from sqlite3 import connect

from _zkapauthorizer.recover import recover
from _zkapauthorizer.replicate import Change, EventStream, statements_to_snapshot

one = Change(1, "INSERT INTO [x] VALUES (?)", ("a",), True)
two = Change(2, "INSERT INTO [x] VALUES (?)", ("b",), True)
streams = [EventStream([one]).to_bytes, EventStream([one, two]).to_bytes]
snapshot = statements_to_snapshot(iter(["CREATE TABLE [x] ([a] TEXT)"]))
conn = connect(":memory:")
cursor = conn.cursor()
recover(lambda: BytesIO(snapshot), streams, cursor)
rows = cursor.execute("SELECT [a] FROM [x] ORDER BY rowid", ()).fetchall()
print(rows)
assert rows == [("a",), ("b",)], rows
