"""Writes /verif/properties.jsonl (kept so that the list stays easy to edit)."""
import json, os
S = "src/_zkapauthorizer/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": [S + f for f in files],
                     "mechanism": [{"name": n, "where": S + w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(d)

p("P01", "No storage is granted before it is fully paid for",
  "On every path through the storage server, an allocation of immutable shares, an added lease or a mutable write reaches the storage backend only after the number of valid passes presented was compared with the full price of that very operation and found sufficient. When it is not sufficient the operation is rejected with an error that names the valid count, the required count and the rejected passes, and neither stored data nor leases change.",
  ["inputs", "programs"], "every call of a paying operation, every combination of shares, sizes and passes, every path of the handler",
  "Tests try a few sizes and pass counts against one handler at a time; a path that skips the comparison, compares the wrong quantity or compares after the write needs only one untested combination.",
  ["_storage_server.py", "storage_common.py"],
  [("paying operations", "_storage_server.py:ZKAPAuthorizerStorageServer.remote_allocate_buckets/remote_add_lease/_slot_testv_and_readv_and_writev"),
   ("quantity check", "_storage_server.py:check_pass_quantity*")])
p("P02", "A pass is bound to one operation on one storage index",
  "The server checks the passes of an operation against a message made of the name of that operation and the storage index it was asked to act on, and the client requests passes for exactly the same message. The messages of the three paying operations are different from each other and depend on nothing but operation and storage index, so a pass made for one cannot be used for another.",
  ["inputs"], "every storage index and every paying operation, on client and server",
  "Tests use matching messages produced by the same helper; a swapped or constant message on both sides still passes them.",
  ["storage_common.py", "_storage_server.py", "_storage_client.py"],
  [("message construction", "storage_common.py:_message_maker"), ("server use", "_storage_server.py:remote_*"), ("client use", "_storage_client.py:allocate_buckets/add_lease/slot_testv_and_readv_and_writev")])
p("P03", "Only verified passes count, and any error while verifying rejects",
  "A presented pass counts as valid only if the signature on it verifies, for the request's message, under the key rederived from the server's own signing key; a pass whose verification fails for whatever reason is counted as rejected and reported by its position in the request. Every presented pass ends up in exactly one of the two groups.",
  ["inputs", "fault_sequences"], "every pass presented and every error the verification primitives can raise",
  "Tests feed well-formed passes and one or two kinds of corruption; fail-open on another error is invisible to them.",
  ["_storage_server.py", "model.py"],
  [("verification", "_storage_server.py:_ValidationResult._is_invalid_pass"), ("partition", "_storage_server.py:_ValidationResult.validate_passes")])
p("P04", "Leases are created only where they were charged for",
  "The storage backend is always told not to renew or create leases on its own as a side effect of an allocation or a write. After a mutable write the server adds a lease exactly to the shares the request writes to that have no unexpired lease, using the caller's renew and cancel secrets and an expiry of one lease period from the time used for pricing. A request to truncate or extend a mutable share by giving a new length is refused before anything is validated or changed.",
  ["inputs", "histories"], "every mix of written and unwritten shares with and without unexpired leases",
  "Tests check a handful of lease states; a lease added to one share too many is free storage and breaks no existing test.",
  ["_storage_server.py"],
  [("lease bookkeeping", "_storage_server.py:add_leases_for_writev"), ("backend calls", "_storage_server.py:remote_allocate_buckets/_slot_testv_and_readv_and_writev")])
p("P05", "Reading is free and changes nothing",
  "The version query, reads of immutable and mutable shares, share size and share stat queries and corruption advisories require no passes on the server and spend none on the client. None of them reaches an operation of the storage backend that changes stored shares or leases, and a mutable operation without writes costs the client nothing.",
  ["inputs"], "every read-only operation and argument",
  "Tests show that some reads work without passes, not that no path charges or mutates.",
  ["_storage_server.py", "_storage_client.py"],
  [("free operations", "_storage_server.py:remote_get_version/remote_get_buckets/remote_slot_readv/remote_share_sizes/remote_stat_shares/remote_advise_corrupt_share"), ("client side", "_storage_client.py")])
p("P06", "The server records spending only for work it really did",
  "Passes are recorded as spent, and the spending metric is updated, exactly once per successful paying operation and only after the backend performed it; a rejected or failed operation records nothing. Only passes which verified are recorded, under the server's own public key, and for an allocation only as many of them as the shares really allocated cost.",
  ["inputs", "fault_sequences"], "every outcome of the backend call and every mix of valid and invalid passes",
  "Tests check metrics after success and after one kind of rejection; recording before a backend failure needs a fault at that point.",
  ["_storage_server.py", "server/spending.py"],
  [("record", "_storage_server.py:remote_allocate_buckets/remote_add_lease/_slot_testv_and_readv_and_writev"), ("spender", "server/spending.py:RecordingSpender.mark_as_spent")])
p("P07", "Client and server always compute the same price",
  "For each paying operation the client offers the number of passes the server will ask for: each share's size is divided by the value of one pass and rounded up share by share, and the prices are added. For a mutable write both sides charge, over exactly the shares being written, the difference between the price of their sizes after and before the write, and in addition the price of the current size of each of them whose leases have all expired (expiry not later than now), since its lease is renewed: such a share is paid for in full however little of it is written.",
  ["inputs"], "all share sizes, pass values, lease states and write vectors",
  "Hypothesis samples sizes, but the two sides are computed by different code over different data and a divergence at a boundary (equal to the pass value, lease expiring exactly now, untouched share) is seldom sampled.",
  ["storage_common.py", "_storage_client.py", "_storage_server.py"],
  [("price function", "storage_common.py:required_passes/get_required_new_passes_for_mutable_write"), ("client", "_storage_client.py"), ("server", "_storage_server.py:get_writev_price/share_has_active_leases/check_pass_quantity_for_lease")])
p("P08", "Client, server and wire interface agree",
  "Every operation of the remote interface is implemented by the server with the same parameters in the same order, and every remote call the client makes names an operation of that interface and passes it the right values in the right positions. The passes argument of each paying operation is limited in number and each pass has the fixed encoded length, and a client refuses to talk to a reference of any other interface. The server hands the client's values unchanged to the storage server it wraps, and the storage server's answer comes back to the client's caller; passes and descriptions of shares arrive as they were sent.",
  ["programs", "inputs"], "every remote operation and call site",
  "The wire protocol resolves names and positions at run time; tests exercise only some call sites and fakes accept any argument order.",
  ["foolscap.py", "_storage_server.py", "_storage_client.py"],
  [("interface", "foolscap.py:RIPrivacyPassAuthorizedStorageServer"), ("implementation", "_storage_server.py:remote_*"), ("calls", "_storage_client.py:callRemote sites")])
p("P09", "Unfinished uploads are cleaned up when the client goes away",
  "For every bucket writer handed to a client the server first asks to be told when that client disconnects, so that the partial upload is aborted, and remembers the request. When the backend reports a bucket writer closed, exactly that writer's request is forgotten and withdrawn from the same client connection, so that a finished upload is never aborted later; unknown writers are ignored.",
  ["schedules", "histories"], "every interleaving of upload completion and disconnection, every set of allocated buckets",
  "Disconnection tests cover one bucket and one order of events.",
  ["_storage_server.py"],
  [("bookkeeping", "_storage_server.py:_bucket_writer_closed/__attrs_post_init__/remote_allocate_buckets")])
p("P10", "No acquired token is ever stranded by a client operation",
  "Whenever a client operation acquires a group of passes, every token of the group is marked spent, marked invalid or returned to the wallet by the time the operation ends, however it ends: success, rejection, running out of tokens while replacing rejected passes, or any other failure. A token is never both spent and returned, and passes are marked spent only after the server accepted the operation.",
  ["fault_sequences", "inputs"], "every sequence of server answers and local failures during one operation",
  "Tests follow the success path and a few rejections; a leak needs a failure at one particular await.",
  ["_storage_client.py", "spending.py"],
  [("retry loop", "_storage_client.py:call_with_passes_with_manual_spend/call_with_passes"), ("acquire", "spending.py:SpendingController.get"), ("groups", "spending.py:PassGroup")])
p("P11", "Only passes the server rejected are thrown away, and only actual cost is spent",
  "When the server rejects an operation, exactly the passes at the positions it named are marked invalid, they are replaced by the same number of new passes and the operation is retried with the accepted ones kept; when it named none, the error is passed on without a retry and nothing is invalidated. After an allocation the client spends as many passes as the shares really allocated cost and returns the others.",
  ["inputs", "fault_sequences"], "every set of rejected positions and every partial allocation",
  "Tests use one or two rejected positions, where off-by-one splits coincide.",
  ["_storage_client.py", "spending.py"],
  [("invalidate", "_storage_client.py:invalidate_rejected_passes"), ("partial spend", "_storage_client.py:_spend_for_allocate_buckets"), ("split/expand", "spending.py:PassGroup")])
p("P12", "A token handed out is not handed out again while used, spent or invalid",
  "Getting tokens for spending returns only tokens that are not in use, fails without effect when there are too few, and marks the returned ones in use in the same transaction. A token marked spent or invalid is never handed out or counted again, a token that was returned to the wallet becomes available again, and each of these changes affects exactly the tokens named by the caller.",
  ["histories", "schedules", "crash_points"], "every history of get, spend, invalidate and reset calls",
  "Tests run short histories; a missing exclusion shows only when the same token would be selected again.",
  ["model.py"],
  [("token states", "model.py:VoucherStore.get_unblinded_tokens/discard_unblinded_tokens/invalidate_unblinded_tokens/reset_unblinded_tokens/count_unblinded_tokens")],
  [("tokens in use", "temporary table of tokens handed out"), ("invalid tokens", "permanent table of tokens with a reason")])
p("P13", "Tokens from issuers that are not allowed are never spendable",
  "The signing public key the issuer answered with is compared with the configured allowed keys, and only when it is one of them are the resulting tokens stored as spendable and counted as the voucher's successful redemption value. Tokens of any other key are kept in a group that is never handed out for spending or counted as available.",
  ["inputs", "configurations", "histories"], "every issuer answer and configuration of allowed keys, also changing over time",
  "Tests check one allowed and one forbidden key in one redemption.",
  ["controller.py", "model.py"],
  [("spendability", "controller.py:PaymentController._redeem_success"), ("groups", "model.py:insert_unblinded_tokens_for_voucher/get_unblinded_tokens")])
p("P14", "Blinding material is durable before the issuer sees it and is reused",
  "The random tokens for a redemption attempt are committed to the database before anything derived from them is sent to the issuer. A later attempt for the same voucher and counter always uses the stored tokens, in the same order, instead of fresh ones, so value the issuer already signed can be obtained after any crash or failure. When tokens are made for a request to an issuer, as many are made as were asked for, each at random separately from the others.",
  ["crash_points", "fault_sequences", "histories"], "a crash or failure at any point of any redemption attempt, followed by any number of retries",
  "Tests never crash between storing and sending.",
  ["controller.py", "model.py"],
  [("durable tokens", "model.py:VoucherStore.add"), ("attempt", "controller.py:PaymentController._get_random_tokens_for_voucher/_perform_redeem")])
p("P15", "Redeemed value is stored atomically and progress resumes where it stopped",
  "A successful redemption step stores its unblinded tokens, removes the random tokens it used and advances the voucher's progress counter in a single transaction. A redemption continues from the persisted counter through the last group exactly once each, also after failures or restarts, and a voucher counts as redeemed only after its last group. The shares of all groups add up to the voucher's number of tokens.",
  ["crash_points", "fault_sequences", "histories"], "failure or crash between any two steps of a multi-part redemption",
  "Tests fail redemption at a couple of counters and look at one retry.",
  ["controller.py", "model.py"],
  [("step", "model.py:VoucherStore.insert_unblinded_tokens_for_voucher"), ("loop", "controller.py:PaymentController.redeem/_redeem_success")])
p("P16", "Final voucher states are final",
  "A voucher is marked double-spent only when the issuer answered that it was already redeemed, and only if it is still waiting to be redeemed; marking a voucher redeemed needs the redemption result. A voucher that was redeemed or double-spent never changes state again, and any other issuer answer or error leaves the stored state pending so that it is retried.",
  ["histories", "fault_sequences"], "every sequence of issuer answers and errors",
  "Tests drive single transitions only.",
  ["model.py", "controller.py"],
  [("transitions", "model.py:mark_voucher_double_spent/insert_unblinded_tokens_for_voucher"), ("errors", "controller.py:_redeem_failure")])
p("P17", "At most one redemption of a voucher runs at a time",
  "A redemption attempt for a voucher starts only if none is in progress for it in this process; the in-progress mark is set before the first suspension and removed on every way the attempt can end. A voucher whose stored state does not allow redemption is refused.",
  ["schedules", "fault_sequences"], "every overlap of redemption requests and periodic retries and every ending of an attempt",
  "Overlap of two attempts in the middle of an await is not tested.",
  ["controller.py"],
  [("guard", "controller.py:PaymentController.redeem/_perform_redeem")])
p("P18", "Pending vouchers are retried at startup and periodically",
  "When the client starts, every voucher stored as pending is redeemed again, and vouchers which failed because they were unpaid or because of an error are retried periodically for as long as the process runs. A failed attempt for one voucher never prevents the attempts for the others or ends the periodic retries, and the outcome of each request to the issuer is recorded so that the latest one can be shown.",
  ["histories", "fault_sequences"], "every set of stored vouchers and every pattern of failures",
  "Tests have one voucher and advance the clock once or twice.",
  ["controller.py"],
  [("startup", "controller.py:PaymentController.__attrs_post_init__/_check_pending_vouchers"), ("retry loop", "controller.py:_retry_redemption")])
p("P19", "Issuer answers are verified before they are believed",
  "The wallet accepts signed tokens only from an answer that says success, has the expected structure, and carries a batch proof which verifies for the blinded tokens that were sent and the public key in the answer; tokens are unblinded through that verification. The answers for an already redeemed and an unpaid voucher map to exactly these two outcomes, and everything else is a failure. Verifying an answer leaves the limits of the process as they were, also when the answer is refused.",
  ["inputs"], "every byte string and JSON document an issuer may answer",
  "Tests use an honest issuer and a few malformed answers.",
  ["controller.py", "_stack.py"],
  [("redeemer", "controller.py:RistrettoRedeemer.redeemWithCounter"), ("answer parsing", "controller.py")])
p("P20", "A wallet never moves to another issuer silently",
  "Before a redeemer that talks to an issuer contacts it, the configured issuer is compared with the one announced by the storage server, and a difference makes use of that server fail instead of redeeming elsewhere.",
  ["configurations"], "every pair of configured and announced issuer",
  "One mismatch is tested for one kind of redeemer.",
  ["controller.py"],
  [("comparison", "controller.py:RistrettoRedeemer.make / IssuerConfigurationMismatch")])
p("P21", "Wallet changes are atomic",
  "Every operation that reads or writes the wallet database runs inside exactly one transaction that takes the write lock at its start, commits only if the operation ended normally and rolls back if it raised. No wallet operation suspends (lets other work run) while its transaction is open.",
  ["crash_points", "schedules", "fault_sequences"], "an exception or crash at any statement of any operation, any interleaving of operations",
  "Tests do not fail in the middle of store methods.",
  ["model.py", "replicate.py", "sql.py"],
  [("transactions", "model.py:with_cursor/with_cursor_async"), ("connection", "replicate.py:_ReplicationCapableConnection.__exit__")])
p("P22", "Schema upgrades are complete, ordered and atomic",
  "Opening a database applies, in one transaction, exactly the upgrade steps from its recorded version to the current one in increasing order, and records every new version as it goes. The steps form a chain without gaps, a released step keeps its effect (databases which ran it do not run it again), every table or column the wallet's statements use exists after the last step, and a crash during the upgrade leaves the old version intact.",
  ["histories", "crash_points"], "databases of every earlier version, interrupted anywhere",
  "Tests upgrade to the newest version but do not interrupt the upgrade or look at every statement.",
  ["schema.py", "model.py"],
  [("upgrades", "schema.py:_UPGRADES/get_schema_upgrades/run_schema_upgrades"), ("transaction", "model.py:initialize_database")])
p("P23", "Replication captures every committed change and nothing else",
  "When replication is on, every statement that changes the wallet database through the application's connection, with all its arguments, is recorded in the event log in order and in the same transaction as the change itself; statements of a rolled back transaction and reads are not recorded. Additions of vouchers and of the random tokens to redeem for them cause a prompt upload.",
  ["histories", "crash_points", "inputs"], "every statement the application executes, single or batched, and every point at which it may fail",
  "Tests replicate a few statements and compare; a statement kind that bypasses capture shows up only on recovery.",
  ["replicate.py", "model.py", "_plugin.py"],
  [("capture", "replicate.py:_ReplicationCapableCursor.execute/executemany, _ReplicationCapableConnection.__exit__"), ("recording", "replicate.py:_ReplicationService._append_events/add_events")])
p("P24", "Replica data is pruned only after something newer covers it",
  "Locally recorded events are deleted only after the upload that contains them succeeded and only up to the last event it contains, and event objects in the replica are removed only after a snapshot covering them was linked into the replica, and only if all their changes are covered. A failed upload deletes nothing.",
  ["fault_sequences", "crash_points", "schedules"], "failures of any grid operation and changes made during an upload",
  "Tests use an in-memory grid which never fails halfway.",
  ["replicate.py"],
  [("pruning", "replicate.py:event_stream upload / prune_events_to / replica delete"), ("snapshot job", "replicate.py:_replicate")])
p("P25", "Recovery restores the snapshot and then all later changes in order",
  "Recovery downloads the snapshot and every event object of the replica, loads the snapshot before any event, applies event objects in increasing order of their sequence numbers whatever order the directory lists them in, and within them each change at most once and only if the snapshot does not already include it. The whole import happens in one transaction.",
  ["inputs", "histories"], "every replica content and listing order",
  "Tests recover small replicas with a listing order that happens to be sorted.",
  ["recover.py", "replicate.py"],
  [("recovery", "recover.py:recover/get_tahoe_lafs_downloader"), ("statements", "replicate.py:statements_from_snapshot")])
p("P26", "Recovery never overwrites a wallet and reports success only when complete",
  "Recovery is attempted only into a database holding no wallet data, checked in the same transaction as the import. It reports the stages in order, reports success only after every download and statement succeeded, and reports a distinct failure for failed downloads and failed imports; after success the wallet replicates from the recovered state only if it is asked to.",
  ["inputs", "fault_sequences"], "every database content and every failure of download or import",
  "Tests check a non-empty voucher table only.",
  ["recover.py", "model.py", "resource.py"],
  [("emptiness", "model.py:is_empty/call_if_empty"), ("stages", "recover.py:StatefulRecoverer.recover")])
p("P27", "One recovery at a time, and every requester learns how it ended",
  "A request to recover while a recovery from the same capability is going on joins it and receives its progress; a request naming a different capability is refused on its own connection and leaves the running recovery alone. Every joined client is told each state change and has its connection closed when the recovery ends, also when it fails.",
  ["schedules", "fault_sequences"], "every interleaving of requests, progress and failure",
  "Tests use one or two clients in a fixed order.",
  ["resource.py"],
  [("recovery protocol", "resource.py:RecoverFactory/RecoverProtocol")])
p("P28", "Replication keeps running until it is stopped",
  "Each replication job taken from the queue is attempted, a failing job is reported and does not end the processing of later jobs, and stopping the service cancels it without waiting forever. At startup unreplicated events are uploaded if any of them is important or they are large, and a snapshot is requested when the replica has none or has become too large. Committing an important change (one involving vouchers or tokens) or a large amount of changes requests an upload.",
  ["fault_sequences", "schedules"], "every sequence of job failures and every moment of stopping",
  "Tests never fail a job and go on.",
  ["replicate.py"],
  [("service", "replicate.py:_ReplicationService")])
p("P29", "Every HTTP resource is behind the node's API token",
  "No resource of the HTTP interface except the authorization wrapper itself is reachable without presenting the node's API token in the documented scheme; the token is compared in constant time, read from the node's configuration and an absent or wrong credential gives an unauthorized response without running any handler.",
  ["inputs", "configurations"], "every path and every authorization header",
  "Tests try a few paths with no or a wrong token.",
  ["private.py", "resource.py"],
  [("authorization", "private.py:create_private_tree/TokenChecker"), ("tree", "resource.py:from_configuration/authorizationless_resource_tree")])
p("P30", "HTTP requests are validated before they have any effect",
  "A request that submits a voucher, a price query, or a recovery is acted on only after its body parsed as the documented structure with values of the right types, and any other body gives a client error and changes nothing. Voucher names that are not valid vouchers are refused on every route, and unknown vouchers give not-found.",
  ["inputs"], "every request body and path segment",
  "Tests sample malformed bodies for single routes.",
  ["resource.py", "validators.py"],
  [("handlers", "resource.py:_VoucherCollection/_CalculatePrice/RecoverProtocol")])
p("P31", "Secrets do not leak into logs or error messages",
  "Values of capabilities, tokens, passes, blinding material, lease secrets, the signing key and the API token are never passed to a logging call and never made part of the text of an exception the package raises (other than the one that brings the user's own replica capability to the user who asked), and errors built from failed grid requests have capabilities in the address scrubbed before they are raised.",
  ["inputs", "fault_sequences"], "every log statement and every error path",
  "Log contents are hardly asserted.",
  ["tahoe.py", "controller.py", "replicate.py", "eliot.py", "_storage_server.py", "_storage_client.py"],
  [("scrubbing", "tahoe.py:TahoeAPIError/_scrub_cap"), ("logging", "every log call")])
p("P32", "The replica's write capability stays private",
  "Setting up replication creates one replica directory at most once, stores its write capability only in the node's private directory before telling anyone about it, and returns only the read capability derived from it. Concurrent set-up attempts are excluded by a lock that is released however the attempt ends, and a set-up that fails leaves replication not configured.",
  ["schedules", "fault_sequences"], "every interleaving and failure of set-up requests",
  "Tests run set-up once without failures.",
  ["replicate.py", "_plugin.py", "resource.py", "config.py"],
  [("set-up", "replicate.py:setup_tahoe_lafs_replication"), ("plugin", "_plugin.py:setup_replication")])
p("P33", "The storage server never discloses its signing key",
  "The announcement a storage server publishes contains only the issuer address and the public key derived from its signing key. The signing key itself is read from the configured file and flows nowhere but into the derivation of the public key and the verification of passes.",
  ["configurations"], "every server configuration",
  "Tests compare announcement fields but not flows.",
  ["_plugin.py", "_storage_server.py"],
  [("announcement", "_plugin.py:ZKAPAuthorizer.get_storage_server")])
p("P34", "Lease maintenance reaches every object below the root",
  "Traversal starting from the node's root capability visits every directory reachable from it once, also through cycles, and reports every child that has a storage index, files and directories, and the root itself. Objects without a storage index are skipped, and no child is dropped because of another one.",
  ["inputs", "programs"], "every directory graph",
  "Hypothesis generates small trees without sharing or cycles.",
  ["lease_maintenance.py"],
  [("traversal", "lease_maintenance.py:visit_storage_indexes/iter_storage_indexes")])
p("P35", "Exactly the leases about to expire are renewed, on every server",
  "For every visited object and every storage server the lease is renewed when any share stored there has less than the minimum lease time remaining and not otherwise, with the same secrets the uploader uses. The run is reported as finished only after all visited objects were handled on all servers, it records the size of every share set it observed, and a request that fails makes the run fail instead of counting as a renewed lease.",
  ["inputs", "fault_sequences"], "every set of servers, shares and expiry times",
  "Tests sample expiry times with a single server failing never.",
  ["lease_maintenance.py"],
  [("renewal", "lease_maintenance.py:renew_leases/renew_leases_on_server/renew_lease/needs_lease_renew")])
p("P36", "Lease maintenance keeps being scheduled and never overlaps itself",
  "After each maintenance run, successful or failed, exactly one next run is scheduled after an interval sampled for it, and never while a run is still going on. The first run is scheduled from the recorded time of the last one, which is written after a run; stopping the service cancels the scheduled run and schedules no other.",
  ["schedules", "fault_sequences", "crash_points"], "every outcome of a run and every moment of stopping",
  "Tests let one run succeed.",
  ["lease_maintenance.py", "_plugin.py"],
  [("timer", "lease_maintenance.py:_FuzzyTimerService/lease_maintenance_service"), ("last run", "lease_maintenance.py:read_time_from_path/write_time_to_path")])
p("P37", "Downloads are atomic and only transient errors are retried",
  "Downloaded data appears under its final name only after the whole response with a success status was written to a temporary file in full. Grid operations other than downloads are retried while they fail with an error classified as transient (too few servers, or the node refusing the connection), with the data sent from the start each time, and any other error is raised at once; a response with an unexpected status is always an error and never taken for data.",
  ["fault_sequences", "inputs"], "every response status and failure at any point of a transfer",
  "Tests have a grid that answers at once.",
  ["tahoe.py"],
  [("download", "tahoe.py:download"), ("retry", "tahoe.py:async_retry")])
p("P38", "What is written is read back under the same names and types",
  "The serialised forms of events, snapshots, vouchers and of their states are written with the same keys, tags and encodings with which they are read; every state which can be stored or shown has exactly one tag and every tag is understood by the reader. Positional columns selected from the database are taken apart in the order they are selected.",
  ["inputs"], "every value of every serialised type",
  "Round trips are tested for generated values of some types only.",
  ["replicate.py", "model.py", "_json.py"],
  [("events", "replicate.py:EventStream.to_bytes/from_bytes"), ("vouchers", "model.py:Voucher.to_json_v1/from_json/from_row")])
p("P39", "Quoted prices are the prices that will be charged",
  "The price calculator prices every given file size as the full set of shares the node's configured encoding makes of it, using the same pricing function and pass value that spending uses, and adds them up. Its HTTP answer states that sum and the lease period the node maintains, and only for whole sizes which are not negative. The cost of the replica and of a new snapshot are calculated in the same way when it is decided whether a snapshot is due.",
  ["inputs", "configurations"], "all file sizes and encoding parameters",
  "Tests recompute the formula with the same helper functions.",
  ["pricecalculator.py", "resource.py", "storage_common.py"],
  [("calculator", "pricecalculator.py:PriceCalculator.calculate"), ("HTTP", "resource.py:_CalculatePrice")])
p("P40", "Unlinkability of spent tokens to the redeemed voucher",
  "An issuer and a storage server who share everything they see cannot link a spent pass to the voucher whose redemption produced it.",
  ["programs", "inputs"], "all strategies of colluding issuer and server",
  "It is a cryptographic indistinguishability claim about a probabilistic protocol.",
  ["controller.py", "spending.py"],
  [("blinding", "controller.py:RistrettoRedeemer")])
p("P41", "Lease maintenance happens often enough that no lease expires",
  "Over any period in which the client runs, the intervals drawn for lease maintenance and the time the runs take are such that every lease is renewed before it expires.",
  ["schedules", "histories"], "all sampled intervals, run times and server availabilities",
  "It depends on wall-clock durations and random samples.",
  ["lease_maintenance.py"],
  [("interval", "lease_maintenance.py:lease_maintenance_config")])
p("P42", "A recovered wallet equals the original wallet",
  "The wallet recovered from a replica has exactly the vouchers and tokens that the original held at the last replicated change.",
  ["histories"], "all histories of wallet changes and all replica contents",
  "It is equality of database contents after executing arbitrary recorded statements.",
  ["replicate.py", "recover.py"],
  [("replica", "replicate.py"), ("recovery", "recover.py")])
p("P43", "Every part of a node uses the one wallet of that node",
  "Within a node process, the storage client, the HTTP interface and the background services (lease maintenance, replication, expiration of the spending accounting) all use the same wallet: the one the plugin remembers for the node's own configuration. It is opened from the database in the node's private directory only when none is remembered yet, it is remembered before anything uses it and never replaced, and nothing else opens a wallet of its own. What is replicated is the database of this wallet.",
  ["configurations", "schedules"], "every order in which the parts of a node ask for the wallet, any number of times",
  "Tests build a part at a time with a store made for it.",
  ["_plugin.py", "model.py", "resource.py", "replicate.py"],
  [("wallet", "_plugin.py:open_store/ZKAPAuthorizer._get_store"), ("services", "_plugin.py:ZKAPAuthorizer/maintenance services")])
p("P44", "What the HTTP interface reports is what the wallet knows",
  "A request for a voucher is answered with exactly the voucher asked for and the state which the wallet and the payment controller know of it: the stored state, except that a pending voucher is shown as redeeming, unpaid or failed when the controller knows that of its latest attempt. The list has every voucher of the wallet once, in the same form. The lease maintenance spending reported is that of the maintenance which ended last, the token total is the number of tokens available, and the version is the package's own.",
  ["inputs", "histories"], "every voucher, wallet content and history of attempts",
  "Tests ask for one voucher in each of a few states.",
  ["resource.py", "controller.py", "model.py"],
  [("voucher", "resource.py:_VoucherCollection/VoucherView"), ("transient states", "controller.py:PaymentController.incorporate_transient_state"), ("spending", "resource.py:_LeaseMaintenanceResource")])
p("P45", "Wallet values are well-formed by construction",
  "Vouchers, tokens, passes, voucher states, records of lease maintenance and replicated changes cannot be made from values which do not have the documented form: voucher numbers (44), blinding and unblinded tokens (128) and both parts of a pass (88) are byte strings of exactly that length of base64 text, the number of tokens expected for a voucher and the pass value are integers above zero, redemption counters are integers of at least zero, times are timezone-aware, the state of a voucher is one of the six documented ones, and arguments of replicated statements are of the types SQLite stores. Instances cannot be changed afterwards and validation is never switched off. Every time the wallet reads from its clock is timezone-aware. Values of the documented form, in either base64 alphabet for tokens, are accepted.",
  ["inputs"], "every value of every field",
  "Tests construct values of the right form.",
  ["validators.py", "model.py", "replicate.py", "_base64.py", "_storage_client.py", "_storage_server.py"],
  [("validators", "validators.py:base64_bytes/bounded_integer/aware_datetime_validator"), ("fields", "model.py:Voucher/UnblindedToken/Pass/Pending"), ("arguments", "replicate.py:Change")])
p("P46", "Wrapping an operation for logging does not change it",
  "An operation which is wrapped so that it is logged, or so that it is given the connection to the storage server, is performed exactly once for each call, with exactly the caller's arguments (and, for the latter, a reference obtained for this call); the caller gets its result once it is finished, and if it fails, exactly the exception it raised. Nothing is retried, swallowed, replaced or left running by the wrapper.",
  ["inputs", "fault_sequences"], "every operation, argument and outcome",
  "Tests run the wrapped operations where they succeed; what a wrapper does with failures, keyword arguments and unusual results is not sampled.",
  ["eliot.py", "_storage_client.py"],
  [("wrappers", "eliot.py:log_call/log_call_deferred/log_call_coroutine"), ("reference", "_storage_client.py:with_rref")])
p("P47", "The server's metrics reach the file its operator configured",
  "When a metrics file and an interval are configured, the metrics of just the storage server which was made for this configuration are written to that file at that interval, on the node's reactor, for as long as the server runs: a write which fails is given up, whatever the reason, and the next one is still made. When either is not configured nothing is written. All metrics of the server belong to the collection which is written, and the server works on the storage server which Tahoe-LAFS supplies.",
  ["inputs", "fault_sequences", "histories"], "every configuration and every sequence of failing writes",
  "Tests let one write succeed and one fail.",
  ["_plugin.py", "_storage_server.py"],
  [("schedule", "_plugin.py:ZKAPAuthorizer.get_storage_server"), ("writer", "_plugin.py:make_safe_writer"), ("metrics", "_storage_server.py:_make_histogram")])
p("P48", "Replication support does not change how the database behaves",
  "The connection and cursor which record changes behave, for all else, like the ones they wrap: reading results and their counts, closing and dumping give exactly what the wrapped object gives for the same arguments; a statement given to them is executed exactly once with its arguments, whether changes are being recorded or not; their cursors wrap cursors of the same database, and entering the connection begins a transaction of it without ending another. A connection records changes from the start exactly if this was asked for. A snapshot consists of every statement of the database's dump, in order, however it is taken.",
  ["inputs", "histories"], "every statement, result, number of rows and state of recording",
  "Tests compare a few generated statements and one snapshot.",
  ["replicate.py", "model.py"],
  [("cursor", "replicate.py:_ReplicationCapableCursor"), ("connection", "replicate.py:_ReplicationCapableConnection"), ("snapshot", "replicate.py:snapshot/statements_to_snapshot/connection_to_statements"), ("store", "model.py:VoucherStore.snapshot")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
