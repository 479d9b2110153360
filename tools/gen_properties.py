import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
W="None of the 7 unit tests opens a connection; "
p("C01","Commands reach the server as well-formed packets of any size",
 "Every packet the client sends arrives at the server as fragments of at most 16,777,215 bytes whose declared lengths match, ending with a fragment shorter than that maximum (an empty one when the payload is an exact multiple), and the reassembled payload is byte for byte the command that was issued. Sequence numbers start at 0 for each command, continue the exchange during login, and increase by one modulo 256 from fragment to fragment. This holds however the transport accepts the bytes (partial writes, pauses).",
 ["inputs","schedules"],"all command payloads and sizes, all ways a transport accepts bytes",
 W+"payload sizes around multiples of 16 MiB and partial writes are never exercised.",
 ["src/connection/io.rs","src/connection/query.rs","src/connection/prepared_statement.rs"],
 [("write_packet","src/connection/io.rs"),("execute_command","src/connection/query.rs")],["byte stream written to Stream"])
p("C02","Received data does not depend on how the transport fragments it",
 "What the user receives (login outcome, columns, rows, summaries, errors) depends only on the packets the server sent, never on how the transport splits, merges or delays their bytes. Payloads of every size are delivered complete and unaltered, including rows of 16,777,215 bytes or more (split over several fragments, exact multiples included) and large rows that start with byte 0xFE.",
 ["inputs","schedules"],"all packet payloads, sizes and read chunkings",
 W+"no packet is ever read from a stream in the tests.",
 ["src/connection/io.rs","src/connection/result_set.rs"],
 [("read_chunk_to_buf / read_packet_to_buf","src/connection/io.rs"),("end-of-rows test","src/connection/result_set.rs")],["ResultSet rows, OkPacket"])
p("C03","Packets with a wrong sequence number are rejected",
 "When a packet or fragment from the server carries a sequence number other than the one that is due, the operation reading it returns an out-of-sync error; no row, summary or login success is ever produced from it. Correctly numbered exchanges, including ones that wrap past 255, are never rejected.",
 ["inputs","histories"],"every position in every exchange, every wrong number",
 W+"sequence checking is never executed.",
 ["src/connection/io.rs"],[("read_packet_to_buf","src/connection/io.rs")],["Result of the reading call"])
p("C04","Every command gets its own response, whatever was left unread before",
 "On one connection, for every history of queries, executes, prepares and prepared executions that server and transport serve correctly, each call returns exactly the response the server gave to that call. This holds when earlier result sets were dropped half-read or unread, when a call failed with a server or conversion error, when `execute_query`/`execute` was used on a statement that returns rows, and when a statement produced several result sets; `disconnect` then still sends a single quit command.",
 ["histories"],"all interleavings of calls and of how far each result is consumed",
 W+"the pending-result state is never exercised, let alone over histories.",
 ["src/connection/result_set.rs","src/connection/query.rs","src/connection/prepared_statement.rs","src/connection/io.rs"],
 [("cleanup / pending_result","src/connection/result_set.rs"),("execute_command, write_command","src/connection/query.rs")],["values returned per call vs tag sent in that call"])
p("C05","An interrupted exchange never leads to a stale answer",
 "If an operation ends early (its future is dropped, it times out, or the transport fails or closes at any byte), no later operation on that connection returns rows, a summary or a server error belonging to an earlier command: it either answers for its own command or returns an error. The interrupted operation itself reports an error or nothing, never success with partial data.",
 ["fault_sequences","histories"],"every byte position and poll at which an exchange can be cut, every following call",
 W+"cancellation, timeouts and transport faults are never produced.",
 ["src/connection/io.rs","src/connection/result_set.rs","src/connection/query.rs","src/connection/timeout.rs"],
 [("read_packet / write_packet","src/connection/io.rs"),("cleanup","src/connection/result_set.rs")],["results of calls after the interruption"])
p("C06","Text-protocol rows decode to the values the server sent",
 "For every column type a server sends, decoding a text-protocol row gives the exact value: integers over their full signed or unsigned range, floats, strings and blobs byte for byte, dates, datetimes and times with sign, more than 24 hours and microseconds, and NULL distinct from empty. Input that cannot be such a value is an error and never a different value.",
 ["inputs"],"all column types, flags, values and NULL patterns",
 "The parse test has five literals for three types; type dispatch, ranges, NULLs and multi-column rows are not touched.",
 ["src/types/value/text.rs","src/connection/types/protocol.rs"],
 [("deserialize_text","src/types/value/text.rs"),("TextProtocol","src/connection/types/protocol.rs")],["Vec<Value> rows from Connection::query"])
p("C07","Binary-protocol rows decode to the values the server sent",
 "For every column type a server sends, decoding a prepared-statement row gives the exact value in every encoding length the protocol allows (dates of 0/4/7/11 bytes, times of 0/8/12 bytes), honours the unsigned flag and the NULL bitmap for any number of columns, and equals what the text protocol yields for the same data. Input that ends before its declared contents is an error.",
 ["inputs"],"all column types, flags, values, encodings, column counts and NULL patterns",
 "No test decodes a binary value.",
 ["src/types/value/bin.rs","src/connection/types/protocol.rs","src/connection/types/null_bitmap.rs"],
 [("deserialize_bin","src/types/value/bin.rs"),("NullBitmap","src/connection/types/null_bitmap.rs")],["Vec<Value> rows from PreparedStatement::query"])
p("C08","Result sets deliver all rows once, in order, with their metadata",
 "Iterating a result set yields each row exactly once, in server order, then the end, and keeps reporting the end; `collect`, `one`, `next`, `finish` and `finish_into_inner` agree on that sequence, and the columns carry the server's names, tables, types and flags. The summary obtained at the end carries the status and warning count of the server's terminating packet. This holds for servers with and without the deprecate-EOF capability, and for zero columns, zero rows, long names and statements without rows.",
 ["inputs","histories","configurations"],"all result shapes, both EOF conventions, all orders of consumer calls",
 W+"no result set is ever read.",
 ["src/connection/result_set.rs","src/connection/packets/ok.rs","src/connection/packets/column_def.rs","src/connection/query.rs"],
 [("ResultSet::next/collect/one/finish","src/connection/result_set.rs"),("read_eof/read_old_eof","src/connection/packets/ok.rs"),("ColumnDef","src/connection/packets/column_def.rs")],["ResultSet API"])
p("C09","Prepared-statement parameters reach the server unchanged",
 "Executing a prepared statement sends the server exactly the given values: right statement id, type and unsigned flag per parameter, NULL marking, and a value encoding that a server decodes to the same value, also when large byte strings are sent as separate long data. A wrong number of parameters is rejected with nothing sent, and any sequence of executions of one statement behaves this way.",
 ["inputs","histories"],"all value lists, counts, sizes and execution sequences",
 "No test serialises a parameter or executes a statement.",
 ["src/connection/prepared_statement.rs","src/connection/packets/stmt_execute_request.rs","src/connection/packets/stmt_send_long_data.rs","src/types/value/bin.rs","src/connection/io.rs"],
 [("StmtExecuteRequest","src/connection/packets/stmt_execute_request.rs"),("send_long_data","src/connection/io.rs")],["COM_STMT_EXECUTE / COM_STMT_SEND_LONG_DATA bytes"])
p("C10","Server errors surface faithfully and leave the connection usable",
 "An error packet from the server, at any point of any exchange (greeting, login, query, prepare, execution, in the middle of the rows, while `cleanup` skips unread rows), is reported as a server error with the same code, SQL state and message, never as data or success. After an error to a command, including one in the middle of rows, the result reports its end and the next command on that connection works; an error that ends rows the user abandoned is never reported as the answer to a later command.",
 ["fault_sequences","histories"],"every protocol position at which a server may send an error, all codes, states and messages",
 "No test parses an error packet.",
 ["src/connection/packets/err.rs","src/connection/result_set.rs","src/connection/auth.rs","src/connection/init.rs","src/connection/prepared_statement.rs"],
 [("ErrPacket","src/connection/packets/err.rs"),("ResultSet::read/next","src/connection/result_set.rs")],["Error::Server contents; following commands"])
p("C11","Statement summaries carry the server's numbers exactly",
 "For every OK response, the returned summary has exactly the server's affected-row count, last insert id (full 64-bit range), status flags, warning count and message. This is the same for `execute_query`, prepared `execute`, `query` of a statement without rows, and model inserts.",
 ["inputs"],"all OK packets in all length encodings",
 "No test parses an OK packet.",
 ["src/connection/packets/ok.rs","src/connection/io.rs","src/connection/parse_buf.rs"],
 [("OkPacket::read_ok","src/connection/packets/ok.rs")],["OkPacket accessors"])
p("C12","Login succeeds exactly when the server accepted valid credentials",
 "Connecting returns success only after the server has sent its final OK for this login, and returns an error when the server refuses at any stage. For each supported method (native, caching SHA-2 with fast and full authentication, clear text), with or without an authentication switch and for empty and non-empty passwords, the proof sent is the one a server computing it from the same password and challenge accepts.",
 ["inputs","configurations","fault_sequences"],"all passwords, challenges, plugins, switch paths and refusal points",
 "No test performs a login or computes a scramble.",
 ["src/connection/auth.rs","src/connection/init.rs","src/utils/scramble.rs","src/connection/types/auth_plugin.rs","src/connection/packets/handshake_response.rs","src/connection/packets/auth_switch_request.rs"],
 [("continue_auth","src/connection/auth.rs"),("scramble_native/scramble_sha256","src/utils/scramble.rs")],["Connection::connect result vs server verdict"])
p("C13","The password is never exposed beyond what the options allow",
 "Unless clear text is allowed by the options, no byte sequence the client sends over an insecure transport contains the password, whatever the server demands: a clear-text request is refused, and full SHA-2 authentication sends it only RSA-encrypted, to the pinned key if one is configured. When a plugin is forced, a server demanding another one gets an error and no credentials for the other method.",
 ["inputs","configurations","fault_sequences"],"all server behaviours during login, all option combinations",
 "No test logs in; hostile servers are never simulated.",
 ["src/connection/auth.rs","src/connection/types/auth_plugin.rs","src/connection/options.rs"],
 [("gen_data","src/connection/types/auth_plugin.rs"),("full authentication","src/connection/auth.rs")],["all bytes written by the client"])
p("C14","Login negotiates within the server's abilities and states the identity",
 "The login packet names exactly the configured user, database and plugin and announces no ability the server did not offer, and is laid out so that a server parsing it by the announced abilities recovers those fields. The connection then reports the server's connection id, version, MariaDB flag and the common capabilities, and the packet limit that was configured or asked from the server.",
 ["inputs","configurations"],"all greetings (capability sets, versions, challenge lengths) and options",
 "No test parses a greeting or builds a login packet.",
 ["src/connection/init.rs","src/connection/packets/handshake.rs","src/connection/packets/handshake_response.rs","src/connection/options.rs","src/connection/data.rs"],
 [("HandshakePacket","src/connection/packets/handshake.rs"),("HandshakeResponse","src/connection/packets/handshake_response.rs"),("read_settings","src/connection/query.rs")],["login packet bytes; Connection::data()"])
p("C15","Malformed server data is an error: no panic, hang or huge allocation",
 "Whatever bytes a server sends, at any stage (greeting, login, result header, column definitions, rows, statement metadata, skipped rows), the client returns an ordinary result or an error in bounded time. It never panics, never aborts, never loops without consuming input, and never allocates memory out of proportion to the data received.",
 ["inputs","fault_sequences"],"all byte sequences in place of any server packet",
 "Tests feed only five well-formed literals.",
 ["src/connection/parse_buf.rs","src/connection/packets","src/connection/init.rs","src/connection/result_set.rs","src/types/value","src/utils/crypt.rs"],
 [("ParseBuf checked_*","src/connection/parse_buf.rs"),("packet parsers","src/connection/packets")],["panics, aborts, allocation counters, virtual clock"])
p("C16","Every wait on the server is bounded by the configured timeout",
 "If the server or transport stops making progress at any point, reading, writing or flushing, the pending call fails with a timed-out I/O error once the configured timeout has passed, and not before; a server that answers each packet within the timeout never causes one. Without the `time` feature the same holds with the user's `sleep` function, which is called with the configured timeout.",
 ["schedules","fault_sequences","configurations"],"every stall position and delay, both timer configurations",
 "No test uses the clock.",
 ["src/connection/timeout.rs","src/connection/io.rs","src/connection/init.rs"],
 [("Timeout","src/connection/timeout.rs"),("Timeout::new around every read/write","src/connection/io.rs")],["virtual time at which calls return"])
p("C17","The async pool never shares an item and never exceeds its size",
 "At any moment each item of an async pool of size N is held by at most one user, at most N items exist, and every item given out was created by the pool and handed over intact (the same item, not dropped or duplicated). Returned items are reused before new ones are created, and dropping the pool drops each remaining item exactly once.",
 ["schedules","histories"],"all interleavings of get, return, cancellation and failure across tasks and threads",
 "No test uses the pools.",
 ["src/pool/async_pool.rs","src/pool/pool_item.rs"],
 [("PoolTake::poll, items counter","src/pool/async_pool.rs"),("PoolItem::drop","src/pool/pool_item.rs")],["creation/drop/hold events of instrumented items"])
p("C18","The async pool always makes progress for its waiters",
 "Whenever an item is returned to the pool, or the creation of an item fails or is cancelled, a task waiting for an item is woken and can obtain one; no waiter stays asleep while an item or free capacity is available. Failed, cancelled or panicked creations and cancelled waiters never reduce the pool's capacity or consume a wake-up that another waiter needed.",
 ["schedules","fault_sequences","histories"],"all interleavings of waiting, returning, failing and cancelling",
 "No test uses the pools; a lost wake-up needs a specific interleaving.",
 ["src/pool/async_pool.rs","src/pool/pool_item.rs"],
 [("wakers queue, put","src/pool/async_pool.rs")],["wakers of pending get() futures; capacity obtained after faults"])
p("C19","Pooled connections are handed out clean and alive",
 "A connection taken from an async pool answers its user's commands correctly whatever its previous user left behind: half-read results, dropped futures, server errors. A connection whose exchange was broken off (transport error, timeout, cancelled mid-packet) is not given to the next user; the pool opens a fresh one in its place.",
 ["histories","fault_sequences"],"all ways a previous user can leave a connection",
 "No test combines pool and connection.",
 ["src/pool/async_pool.rs","src/pool/pool_item.rs","src/connection/mod.rs","src/connection/result_set.rs"],
 [("AsyncPoolContent for Connection","src/connection/mod.rs"),("put","src/pool/async_pool.rs"),("cleanup","src/connection/result_set.rs")],["answers to commands on re-taken connections"])
p("C20","The sync pool hands out clean exclusive buffers and stays bounded",
 "Every item taken from a sync pool is empty as freshly reset, is held by one user at a time, and has capacity shrunk to the configured cap after it was returned; at most N items are kept and the surplus is dropped. Contents left in a returned buffer are dropped exactly once, from any number of threads.",
 ["schedules","histories"],"all interleavings of take, fill and return",
 "No test uses the pools.",
 ["src/pool/sync_pool.rs","src/pool/pool_item.rs"],
 [("SyncPool::put/get","src/pool/sync_pool.rs"),("Vec reset","src/pool/sync_pool.rs")],["buffer contents, capacities, element drop counts"])
p("C21","Value conversions are lossless or fail",
 "For every supported Rust type, converting into a database value and back gives the original (microsecond precision for times), including signs, extremes and None; converting a value of another kind is an error. A date, time or string that the Rust type cannot represent, in either direction, is an error rather than a different or wrapped value.",
 ["inputs"],"all values of all supported types",
 "No test converts a value.",
 ["src/types/value/conversion.rs","src/types/hex.rs"],
 [("From/TryInto impls","src/types/value/conversion.rs")],["results of From/TryFrom/TryInto"])
p("C22","Escaped strings and identifiers read back as the original",
 "A string escaped with StringEscape and read by a MySQL tokenizer is one string literal denoting the original text, whatever it contains; an identifier escaped with IdentifierEscape is one quoted identifier denoting the original minus the characters and trailing whitespace documented as removed. UnquotedIdentifierEscape keeps exactly the allowed characters in order.",
 ["inputs"],"all Unicode strings",
 "The tests check about twenty literals; injection safety is a statement about all strings.",
 ["src/types/value/text.rs"],[("StringEscape, IdentifierEscape, UnquotedIdentifierEscape","src/types/value/text.rs")],["Display output re-read by an independent tokenizer"])
p("C23","Displayed values are SQL literals of the same value",
 "Formatting any database value gives a valid SQL literal that denotes exactly that value: numbers parse back to the same number, byte strings (also empty) to the same bytes, dates, datetimes and times (sign, over 24 hours, microseconds, any representable amount of days) to the same fields, and NULL to NULL. Formatting never panics.",
 ["inputs"],"all values, extremes included",
 "The display test has eight literals.",
 ["src/types/value/text.rs"],[("Display for Value","src/types/value/text.rs")],["Display output re-parsed independently"])
p("C24","Hex text round-trips and bad hex is an error",
 "For every byte string, the hex type's text form parses back to the same bytes through every entry point (string parsing, byte parsing, serialisation and deserialisation, database value), with upper or lower case and with or without the 0x prefix. Input of odd length or with other characters, including very short and non-ASCII input, is an error, never a panic.",
 ["inputs"],"all byte strings and all input texts, all serde data sources",
 "One eleven-byte example is tested; serde is not tested.",
 ["src/types/hex.rs"],[("FromStr, try_from_hex, serde impls","src/types/hex.rs")],["parse/format results"])
p("C25","Migrations run exactly once, in order, and the table tells the truth",
 "Moving to a version applies each missing migration up to it exactly once in ascending order and reverts each applied one above it exactly once in descending order, and afterwards the bookkeeping table lists exactly the applied migrations. If a migration fails, the call returns its error, nothing after it runs, and a later or restarted migrator continues from what the table says; versions compare numerically by major, minor, patch.",
 ["histories","fault_sequences","inputs"],"all migration lists, starting tables, command sequences and failure points",
 "No test runs the migrator.",
 ["src/migrator/migrator_inner.rs","src/migrator/migration.rs","src/migrator/model.rs","src/migrator/mod.rs"],
 [("up_to_version/down_to_version/to_version","src/migrator/migrator_inner.rs"),("Version ordering","src/migrator/migration.rs")],["log of up/down calls and of SQL executed by a table-keeping server"])
p("C26","Derived models query and map every field to the right column",
 "The query generated for a derived model selects every field's column once, joining each referenced table, transitively and even when the same table is referenced several times, on its own key under its own alias. Reading rows back fills every field from its own column regardless of the order of columns in the result, ignores columns that match no field, and reports a missing column or unconvertible value as an error.",
 ["programs","inputs"],"all derivable model shapes and all column orders and row contents",
 "One test compares two generated strings; the mapping is never run.",
 ["macros/src/lib.rs","macros/src/parse.rs","src/model/into_query.rs","src/model/from_query_result.rs","src/model/plain.rs"],
 [("derive macros","macros/src/lib.rs"),("build_query","src/model/into_query.rs"),("set_mapping","src/model/from_query_result.rs")],["generated SQL evaluated by a small engine; mapped structs"])
p("C27","Active models insert and update exactly the values that were set",
 "Inserting an active model sends one insert naming exactly the set fields, each bound to its own value, inserts referenced new models first and uses their key (given or generated) as the reference, and returns the generated id. Updating changes exactly the set fields of the row with the model's primary key, and an update with nothing set sends nothing; errors stop the operation before dependent statements are sent.",
 ["programs","inputs","fault_sequences"],"all model shapes, all subsets of set fields, all server errors",
 "No test inserts or updates.",
 ["src/model/active_model","macros/src/lib.rs"],
 [("NamedValue::into_insert/into_update","src/model/active_model/named_value.rs"),("ActiveReference","src/model/active_model/active_reference.rs"),("UpdateModel","src/model/active_model/update_model.rs")],["SQL and bound parameters seen by the server"])
p("C28","RSA keys parse and encrypt so that the key's owner can decrypt",
 "For every well-formed RSA public key in PEM (PKCS#1 or PKCS#8, any line breaks) or DER, parsing yields its modulus and exponent, and encrypting any message that fits OAEP with SHA-1 gives a ciphertext of the modulus length that the private key decrypts to the message, for every modulus length and padded with a fresh random seed each time. Messages that do not fit and malformed key data are errors, never panics.",
 ["inputs"],"all key sizes, encodings, messages and corruptions",
 "No test parses a key or encrypts.",
 ["src/utils/crypt.rs"],[("PublicKey","src/utils/crypt.rs"),("OaepPadding","src/utils/crypt.rs")],["decryption with the private key in the harness"])
p("C29","Any conforming stream can carry a connection",
 "The client works over every transport that honours the async read/write contract: one that sends nothing until flushed, accepts or delivers single bytes, or reports not-ready at any call. Everything sent is flushed before the client waits for an answer, end of stream and I/O errors are reported as I/O errors with their kind, and the TCP transport connects to the configured host and port with the configured no-delay setting.",
 ["configurations","schedules","fault_sequences"],"all conforming streams",
 "No test uses a stream.",
 ["src/connection/io.rs","src/connection/mod.rs"],[("write_packet","src/connection/io.rs"),("TcpStream impl of Stream","src/connection/mod.rs")],["calls made on the stream; loopback sockets"])
p("C30","Using the library never causes undefined behaviour or data races",
 "No use of the library's public API, single- or multi-threaded, performs an out-of-bounds, uninitialised, misaligned or dangling access, a double drop, or a data race: buffers, pooled items and parsed packets are always valid when accessed. Memory taken for pooled items and buffers is released when they are dropped.",
 ["inputs","schedules"],"all API uses, packet contents and thread interleavings",
 "Tests run without sanitizers and reach none of the unsafe blocks.",
 ["src/pool/pool_item.rs","src/pool/sync_pool.rs","src/connection/parse_buf.rs","src/connection/serialization.rs","src/connection/packets/err.rs"],
 [("ManuallyDrop in PoolItem","src/pool/pool_item.rs"),("raw pointer casts","src/connection/parse_buf.rs"),("set_len","src/pool/sync_pool.rs"),("from_utf8_unchecked","src/connection/packets/err.rs")],["Miri and AddressSanitizer reports"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    n=[q for q in x['statement'].split('. ') if q]; 
    if len(n)>3: print(x['id'],len(n))
print(len(P))
