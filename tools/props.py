# The table of properties; tools/gen.py writes properties.jsonl and MANIFEST.json from it.
STEP = "bounded exhaustive state exploration of the real code against a reference model"
NOT_APPLICABLE = []
PROPS = []
def P(**k): PROPS.append(k)

# ---------------------------------------------------------------- SQL statement builder
P(id="S01", title="Every SQL placeholder gets the argument that was given with it",
  statement="For any sequence of builder calls, the rendered statement has exactly as many placeholders as arguments, the arguments are in the order of the placeholders, and each placeholder carries the argument that was given together with its fragment. In the numbered dialect the placeholders are $1..$n without gap or repetition from left to right, in the others they are question marks, and an escaped question mark in a fragment is a literal question mark in every dialect. This holds through sub queries, unions, common table expressions, value lists, updates and multi-row inserts.",
  over=["inputs", "histories", "configurations"],
  quant="all sequences of builder calls up to a depth, in numbered and unnumbered dialects, with 0-3 arguments per fragment",
  why="The tests render a few dozen fixed statements; the alignment of arguments has to survive every order in which clauses are added, because a clause's text and its arguments are inserted in the middle of what is already there.",
  files=["xsql/stmt.go", "xsql/dialect.go"], mech=[("argument insertion offset of a clause", "xsql/stmt.go addChunk"), ("placeholder numbering", "xsql/dialect.go writePg")],
  observe=["String()", "Args()"], technique="exhaustive enumeration of builder-call sequences on the real builder; marker oracle and reference model", level="model_checking",
  note="Complete up to the depth reported in the evidence; every sequence is run on the real builder and compared with marker names carried by the arguments, so the oracle does not depend on a model of the builder. Fragments come from a fixed alphabet; fragments without arguments contain only escaped question marks.")
P(id="S02", title="A built SQL statement is the one the calls describe, clauses in order",
  statement="The text of a statement consists of exactly the clauses and fragments that were asked for, each once, with clauses in the order SQL needs whatever the order of the calls, and list items and conditions in call order joined by their separators. Rendering does not change a statement: it can be rendered again, extended and rendered again, with or without line breaks, and only white space differs. Destinations bound to columns are kept in the order of the columns.",
  over=["inputs", "histories"], quant="all sequences of builder calls up to a depth, with the statement rendered after each call",
  why="The tests check a fixed set of statements built in a natural order; clause placement is a function of all earlier calls, and rendering in between changes the internal cache.",
  files=["xsql/stmt.go"], mech=[("clause positions", "xsql/stmt.go addChunk, Expr"), ("cached rendering invalidated on change", "xsql/stmt.go Invalidate")],
  observe=["String()", "Args()", "Dest()"], technique="exhaustive enumeration of builder-call sequences on the real builder against a clause model", level="model_checking",
  note="Complete up to the depth in the evidence over a fixed alphabet of calls; white space beside brackets and commas is not compared. Expression and sub query calls are made where a list or condition clause is open.")
P(id="S03", title="A cached SQL text is only ever used for the statement it was made for",
  statement="Statements that differ in any clause, fragment or dialect never render the text of one another, whatever was rendered before in the process, and whether the earlier statements were closed or not. A query cached under a name is built once per dialect and name and returned unchanged until the cache is cleared; clearing affects only later lookups.",
  over=["histories", "inputs"], quant="all histories of up to 3-4 statements from a set of nearly coinciding programs, and all sequences of cache operations, in two dialects; up to 250000 statements and 2100 kept queries in one process",
  why="Tests use one process-wide cache in an order that never meets two statements with the same key; the property is about all pairs and orders.",
  files=["xsql/stmt.go", "xsql/cache.go"], mech=[("cache of rendered statements", "xsql/stmt.go String"), ("cache of named queries", "xsql/cache.go")],
  observe=["String()", "GetOrCreateQuery"], technique="exhaustive enumeration of histories over the real caches, compared with cache-free rendering", level="model_checking",
  note="Complete for histories of the stated length over a set of near-coinciding programs; a name is assumed to stand for one statement.")
P(id="S04", title="Clones, merged and recycled statements never share or lose content",
  statement="Changing, rendering or closing one statement never changes the text, arguments or destinations of another, no matter whether the other was cloned from it, merged into it as sub query or union, or created from recycled memory. A closed statement's memory may be reused at any time and a text returned earlier stays as it was. A clone is equivalent to its original at the moment of cloning and can be continued independently.",
  over=["histories"], quant="all sequences of start, extend, clone, merge, close and render over two open statements, with every answer of the recycling pools within a deviation bound; up to 1100 statements open at once",
  why="Which object a pool hands out depends on the scheduler and collector; tests see only the usual answer and never compare all open statements after each step.",
  files=["xsql/stmt.go", "xsql/pool.go"], mech=[("recycling of statements and buffers", "xsql/pool.go"), ("copying on clone", "xsql/stmt.go Clone")],
  observe=["String()", "Args()", "Dest()"], technique="exhaustive enumeration of histories and pool answers on the real code; returned buffers are poisoned", level="model_checking",
  note="Complete to the depth in the evidence. sync.Pool is replaced by a pool whose answers are enumerated; buffers returned to the byte-buffer pool are overwritten.")
P(id="S05", title="Statements built concurrently do not affect each other",
  statement="Goroutines that each build, clone, merge, render and close their own statements, with shared dialects, shared query names and recycled memory, always obtain the same text and arguments as they would alone. There is no data race between them, and concurrent lookups of a named query all return the text of that name.",
  over=["schedules"], quant="all interleavings of two or three goroutines at synchronisation operations up to a preemption bound",
  why="A test run takes one schedule; the pools and caches shared by all statements are only stressed under particular interleavings.",
  files=["xsql/stmt.go", "xsql/pool.go", "xsql/cache.go", "xsql/dialect.go"], mech=[("shared pools", "xsql/pool.go"), ("shared cache", "xsql/cache.go, xsql/dialect.go")],
  observe=["String()", "Args()", "race detector"], technique="stateless exploration of thread interleavings of the real code with bounded preemptions, race detector as monitor", level="model_checking",
  note="Complete within the preemption bound in the evidence at the granularity of sync, atomic and pool operations; accesses between them are covered by the race detector (happens-before) on every explored schedule.")
P(id="S06", title="Running a statement sends it once and always gives the connection back",
  statement="Running a built statement sends exactly its text and arguments once, under the context given, reports every error of the database or of conversion, calls the row handler exactly once for every row delivered before an error, in order, with the destinations filled from that row, and stops at the first handler or scan error. Whatever happens, including a handler panic, no result set, connection or transaction is left open by the call, and the closing variants release the statement exactly once.",
  over=["fault_sequences", "inputs"], quant="all ways of running a statement on a pool, connection or transaction, result sets of 0-3 rows, every single fault at every driver operation, a panic at every row; results of up to 70001 rows with a failure at their ends and in the middle",
  why="Tests run a handful of queries against a driver that never fails midway.",
  files=["xsql/executor.go"], mech=[("row loop and closing", "xsql/executor.go Query, QueryRow, Exec")],
  observe=["driver log", "open connections and result sets"], technique="exhaustive fault enumeration over the real executor with a scripted driver", level="fault_enumeration",
  note="Every fault position of every run is enumerated with a scripted database/sql driver; database/sql itself is trusted.")
# ---------------------------------------------------------------- query parameters
P(id="Q03", title="A query parameter name identifies the shape of the query, and only it",
  statement="Within one query, two parameter sets have the same name exactly when they agree on the positions set, the enumerated values, the flags, the kind of paging and the set of columns tested for NULL, since the name selects the cached SQL text. The name depends on nothing else: not on argument values, on the order in which columns are listed, on earlier uses of the parameter set or on when the name was asked for. Asking for the name changes nothing the caller can see.",
  over=["histories", "inputs"], quant="all sequences of parameter-set calls up to a depth, with name requests and resets in between; all pairs of reached shapes; sets of many parameters",
  why="Tests compare a handful of names; a collision or instability is a statement about all pairs of histories.",
  files=["params.go"], mech=[("name of a parameter set", "params.go Name"), ("name kept between calls", "params.go")], observe=["Name()"],
  technique="exhaustive enumeration of call histories on the real code; injectivity over all reached shapes", level="model_checking",
  note="Complete to the depth in the evidence over an alphabet of calls. One known finding is listed: null column lists with the same concatenation.")
P(id="Q04", title="Query parameters hand the query exactly the arguments that were set",
  statement="After any sequence of calls, the arguments are the values set, in call order, with paging values last; position, enumeration, flag, NULL-column, limit and offset queries answer exactly what was set; a page size of zero means the default. Setting a position after paging, paging twice or a position beyond the supported range is refused, and after a reset the object is indistinguishable from a new one. Arguments that were handed out before, and argument lists that were passed in, stay as they are. The parameters found among the arguments of a call are the first there.",
  over=["histories", "inputs"], quant="all sequences of parameter-set calls from a 35-call alphabet up to a depth; sets of many parameters",
  why="Tests exercise a few sequences; the bookkeeping has several fields that must agree after every order of calls.",
  files=["params.go"], mech=[("builder", "params.go QueryParamsBuilder")], observe=["Args()", "IsSet()", "GetEnum()", "Page()", "GetNullColumns()"],
  technique=STEP, level="model_checking", note="Complete to the depth in the evidence; the observable state is compared with the model after every call.")
P(id="Q05", title="A pagination cursor reads back as the position it was made from",
  statement="A cursor position encoded to its text form and decoded again yields the same entries, and each typed accessor returns the original value, including 64-bit identifiers beyond floating-point precision, and its zero value for absent entries. Text that is not a cursor is refused with an error or decodes to the data it states; it never panics.",
  over=["inputs"], quant="all cursor positions of up to 2-3 entries from a boundary alphabet, and all truncations and one-character corruptions of their encodings; cursors of many entries and long values",
  why="Tests encode one or two cursors with small numbers.",
  files=["query.go"], mech=[("cursor encoding", "query.go CursorPosition")], observe=["CursorPosition accessors"],
  technique=STEP, level="model_checking", note="Complete over the stated alphabet; positions have at least one entry.")
# ---------------------------------------------------------------- values
P(id="V01", title="Column values survive storing and reading back, or fail with an error",
  statement="Every column type, converted to a database value and scanned back from every form the type accepts from a driver (native, text or bytes), yields the same value; the empty value is stored as NULL where the type says so, and NULL, like empty text where it is accepted, reads as the empty value. A number out of the column type's range and anything malformed is refused with an error and never silently altered.",
  over=["inputs"], quant="all values of a boundary domain per type, in all driver representations; all ill-typed and out-of-range database values; lengths of texts and lists up to 70000, at both sides of the usual limits",
  why="Tests cover a few values per type in one representation.",
  files=["types.go", "id.go", "time.go"], mech=[("Value and Scan methods", "types.go, id.go, time.go")], observe=["Scan", "Value"],
  technique="exhaustive enumeration of value domains times driver representations on the real code", level="model_checking",
  note="Complete over the boundary domains (all powers of two and ten with neighbours, all strings over a 29-atom alphabet up to length 2-3, instants x zones).")
P(id="V02", title="Scanning a row does not depend on what the variable held before",
  statement="Scanning a database value into a variable that was already used gives exactly what scanning into a fresh variable gives, including for NULL and after failed scans. Values handed out earlier, and copies of the variable made before, keep their contents even when the driver reuses its buffer.",
  over=["histories", "inputs"], quant="all sequences of three scans (well-formed, NULL, malformed) per column type with buffer reuse after each",
  why="Tests scan into fresh variables; row loops reuse them.",
  files=["types.go", "id.go", "time.go"], mech=[("Scan methods", "types.go, id.go, time.go")], observe=["destination variable", "earlier copies"],
  technique="exhaustive enumeration of scan histories on the real code against fresh-variable scans", level="model_checking", note="Complete for the stated length over a set of database values per type. After a malformed value only later scans are compared.")
P(id="V03", title="Column values survive JSON encoding and decoding",
  statement="Every column type encodes to valid JSON that decodes to the same value (a float to six decimals), alone, inside a structure and inside a list, whether the destination is new or was used before; identifiers and 64-bit numbers keep every digit. Every accepted text form of a number denotes exactly that number, malformed text is refused, and the text of a number is its decimal form.",
  over=["inputs"], quant="all values of the boundary domains, in three containers, into fresh and used destinations; lists and texts of many lengths, at both sides of the usual limits",
  why="Tests encode single examples.",
  files=["types.go", "id.go", "time.go"], mech=[("MarshalJSON and UnmarshalJSON", "types.go, id.go, time.go")], observe=["json.Marshal", "json.Unmarshal"],
  technique="exhaustive enumeration of value domains and containers on the real code", level="model_checking", note="Complete over the boundary domains. Floating-point columns are compared to six decimals, which is what they print; null list and map columns read back empty.")
P(id="I01", title="Identifiers and identifier lists behave as plain values and exact sets",
  statement="An identifier always reports one and the same number in every form (number, text, database value, JSON), and setting, scanning, decoding or resetting one variable never changes another. Lists keep every identifier added, at the end and in order of adding, without aliasing between lists made from one another; membership, overlap, concatenation and list scanning agree with set operations on the numbers. Text parses to an identifier exactly when it is a decimal number in range, and invalid text gives an error or the invalid identifier.",
  over=["histories", "inputs"], quant="all sequences of operations on three identifier variables and three lists up to a depth, over boundary values; sets of up to 530 (2100) identifiers",
  why="Tests check single operations; the text cached inside an identifier must agree with its number after every history.",
  files=["id.go"], mech=[("cached text of an identifier", "id.go"), ("list operations", "id.go IDArray")], observe=["UInt64()", "String()", "Value()", "JSON"],
  technique=STEP, level="model_checking", note="Complete to the depth in the evidence.")
P(id="I02", title="Values can be read from several goroutines at the same time",
  statement="Using one and the same identifier, list of identifiers, column value, time, map, error, cursor, record, table or table description from several goroutines, in ways that do not change it, or changing a copy of it, is free of data races, and each use gives the result it gives on its own, however the value was made.",
  over=["schedules", "inputs"], quant="all pairs of uses, the second followed by any third one, of 16 kinds of values, in all interleavings within 2 (thorough 3) preemptions, with race detection",
  why="Tests use a value from one goroutine; values that compute something on first use, or share memory with their copies, look right there.",
  files=["id.go", "types.go", "time.go", "query.go", "merge.go", "schema/schema.go"], mech=[("text of an identifier is kept on first use", "id.go idptr.String"), ("list operations", "id.go IDArray"), ("statements of a table", "schema/schema.go TableInfo")],
  observe=["results of the uses", "race detector"], technique="exhaustive exploration of interleavings of the real code under a controlled scheduler with race detection", level="model_checking",
  note="Complete within the stated preemption bound; switches happen at locks and between uses, and the race detector watches what is between them.")
P(id="T01", title="Times keep the instant to the millisecond, in UTC, through every form",
  statement="A time made from an instant in any zone denotes that instant in UTC truncated to its documented precision, and reading it back from its text, JSON, database or integer form yields the same instant; the zero time is stored as NULL, printed as empty text and read back as zero. Truncation is downwards, before and after the epoch, and adding a duration gives the instant that is that much later.",
  over=["inputs"], quant="all instants of a grid of seconds, sub-second parts and zones, through every constructor and form",
  why="Tests use the current time and one or two fixed dates.",
  files=["time.go"], mech=[("constructors and formats", "time.go")], observe=["UTC()", "String()", "Value()", "JSON"],
  technique="exhaustive enumeration of an instant grid on the real code against integer arithmetic", level="model_checking", note="Complete over the grid (years 1 to 9999, both sides of the epoch and of second and millisecond boundaries, seven zones).")
P(id="M01", title="Merging records takes set fields from the source and keeps the rest",
  statement="Merging one record into another overwrites exactly the fields that are set in the source and keeps all others, for identifiers, times, nullable and plain columns, metadata and nested records. The source is unchanged, and later changes to either record's own fields do not show in the other. Metadata and sets of values merged with their own Merge hold every key of both, the later value winning, and what reads them in order gives every key once, in order.",
  over=["inputs"], quant="all combinations of set and unset fields of two records, and all chains of two (thorough three) merges of metadata and sets over three keys",
  why="Tests merge a few pairs.", files=["merge.go", "types.go"], mech=[("merge transformers", "merge.go"), ("sets", "types.go Metadata, KVSet")], observe=["merged record"],
  technique="exhaustive enumeration of field combinations on the real code against a field-wise model", level="model_checking", note="Complete over all combinations of the record's fields.")
P(id="E01", title="Missing rows are recognised, however the error was wrapped",
  statement="An error counts as not-found exactly when the database's no-rows error, its message or a typed not-found error is somewhere in its chain, however often and by whatever wrapper it was wrapped; no other error and no nil error ever counts. Checking an error for a missing row never loses it: nil stays nil, every cause stays reachable, and a missing row comes back as a typed not-found error that names the table and identifier it was checked with.",
  over=["inputs"], quant="all chains of up to 4 (thorough 6) wrappers over all base errors, with every kind of identifier; chains of up to 70 (300) wrappers", why="Tests check single wrapped errors.",
  files=["types.go"], mech=[("classification", "types.go IsNotFoundError, CheckNotFoundError")], observe=["IsNotFoundError", "CheckNotFoundError", "errors.Is/As"],
  technique="exhaustive enumeration of error chains on the real code", level="model_checking", note="Complete to the chain length in the evidence.")

# ---------------------------------------------------------------- provider and transactions
P(id="P01", title="A transaction is all or nothing and separate from its provider",
  statement="A provider's transaction is started with exactly the requested options, and every statement run through it goes, under its own context, to that transaction on its one connection, while statements of the provider itself and of other transactions never do. A commit that reports success makes exactly the transaction's statements take effect; rollback, close and cancelling the context leave none of them; a failed begin, statement or commit is reported as an error, never as success. Ending a transaction twice, nesting one, or ending one on the plain provider does nothing to the database and nested begins and ends without a transaction are errors. A transaction has the name and connection string of its provider, its connection goes back to the pool when it ends, and after closing everything nothing stays open.",
  over=["histories", "fault_sequences"], quant="all sequences of provider operations up to a depth on a provider and two transactions, with every single database failure; transactions of up to 10001 statements, and as many one after the other",
  why="Tests use a mock or a live database with one well-behaved transaction; isolation of statements and honest reporting must survive every order of operations and a failure at any of them.",
  files=["prov.go"], mech=[("choice of pool or transaction for each statement", "prov.go"), ("begin, commit, rollback, close", "prov.go BeginTx, Commit, Rollback, Close")],
  observe=["driver log", "returned errors"], technique="exhaustive enumeration of operation histories and failures of the real provider over a scripted database/sql driver", level="model_checking",
  note="Complete to the depth and fault bound in the evidence; what takes effect is computed from the log of a scripted driver, database/sql itself is trusted.")
P(id="P02", title="Closing a provider is safe at any moment and ends its keep-alive",
  statement="A provider pings its database on every tick of its keep-alive timer, also after a ping has failed, until it is closed. Closing it, once or several times, from any goroutine and at any moment relative to ticks, pings, statements and transactions, never panics, blocks or races; it ends the keep-alive, closes the database, and later statements and begins are errors. Closing a transaction never closes the provider.",
  over=["schedules", "fault_sequences"], quant="all interleavings, within a preemption bound, of closing with ticks, pings that fail or not, statements, transactions and another close; up to 1025 checks of the connection, with patterns of failures",
  why="The timer fires once a minute, so no test meets a tick during Close; use after close happens only under particular schedules.",
  files=["prov.go"], mech=[("keep-alive goroutine and its stop", "prov.go keepAlive, Close")],
  observe=["driver log", "panics, blocked goroutines, race detector"], technique="stateless exploration of thread interleavings of the real provider with a controlled timer, bounded preemptions, race detector as monitor", level="model_checking",
  note="Complete within the preemption bound in the evidence at the granularity of synchronisation operations; timer ticks are delivered by the scheduler.")
P(id="Q01", title="A list query returns every row in order, or an error and no result",
  statement="Single-row and list queries, with or without pages and cursors, send exactly the given text and arguments once, under the context given, on the pool, connection, transaction or provider given. They return all rows the database delivered, in order and each converted to a new object, or else an error and no result at all: a failure of the query, a failure midway through the rows, and a row that does not convert are errors. A missing row is reported as not-found. A result object is set exactly once and only on success, with the next offset or cursor exactly when the page is full. Whatever happens, including a panic of the row converter, no result set or connection stays in use.",
  over=["inputs", "fault_sequences"], quant="all query forms, targets, argument forms, result sizes and page sizes up to a bound, every single failure of the driver, every bad row, a panic at every row; results of up to 70001 rows with a failure at their ends and in the middle",
  why="A truncated list looks like a short one: tests have no database that fails between two rows.",
  files=["query.go"], mech=[("row loop, error check after it and closing", "query.go"), ("page arithmetic", "query.go ExecuteQueryWithPagination, ExecuteQueryWithCursor")],
  observe=["returned list and error", "driver log", "open result sets and connections in use"], technique="exhaustive fault enumeration over the real query functions with a scripted driver", level="fault_enumeration",
  note="Every failure position within the bound in the evidence is enumerated; whether a failure to close a result set shows is left open.")
P(id="Q02", title="Walking through pages visits every row exactly once and ends",
  statement="Following the next offset or the next cursor from page to page, starting anywhere and with any page size including the default one, visits every remaining row of an unchanging table exactly once and in order, and stops after the last page; the position of the last page is empty. This holds whether parameters are passed as a parameter set, as plain or as named arguments, and for IDs beyond 53 bits in cursors. A query without a limit never reports a next page.",
  over=["inputs", "histories"], quant="all walks over tables up to a size, for every page size and start, in both paging modes and all argument forms; walks over up to 70001 rows",
  why="Off-by-one errors show only for particular combinations of rows and page size, such as an exactly full last page.",
  files=["query.go", "params.go", "types.go"], mech=[("next offset and cursor", "query.go"), ("paging arguments", "params.go SetPage, SetCursor"), ("cursor encoding", "types.go")],
  observe=["rows seen", "next offset, cursor"], technique="exhaustive enumeration of page walks of the real code over a model table", level="model_checking",
  note="Complete for tables up to the size in the evidence, plus the default page size around its multiples.")
# ---------------------------------------------------------------- ID generator
P(id="F01", title="Generated IDs are unique and increase, whatever the clock and schedule",
  statement="IDs taken from one generator, by any number of goroutines, are all distinct, and an ID taken after another call returned is greater than that call's ID, whatever the clock does meanwhile: stand still, jump ahead, or go back. The greatest ID generated is reported as the last one, an ID reported as last was generated, and the first ID stays the first. There is no data race.",
  over=["schedules", "inputs"], quant="all interleavings of two or three goroutines within a preemption bound, with all clock histories within a deviation bound, near and far from the end of a millisecond's sequence; all clock histories of one goroutine to a depth",
  why="Uniqueness depends on the clock going back exactly when the sequence of a millisecond is used up or between the readings of two goroutines; a test with the real clock never arranges this.",
  files=["pkg/flake/flake.go"], mech=[("sequence and elapsed time under the mutex", "pkg/flake/flake.go NextID")],
  observe=["returned IDs", "LastID, FirstID", "race detector"], technique="stateless exploration of thread interleavings and clock histories of the real generator, bounded preemptions and clock deviations, race detector as monitor", level="model_checking",
  note="Complete within the bounds in the evidence; the clock and sleeping are controlled through the package's clock variable and instrumented synchronisation.")
P(id="F02", title="An ID tells its machine, sequence and time of generation",
  statement="Decomposing an ID gives back the parts it is made of, which fill the 63 bits of the layout without overlap; the machine part is the configured machine, and the time of an ID is, to the millisecond, between the start and the end of the call that generated it, in UTC, for every start time and up to the last millisecond the layout can hold, through the generator and through a provider with any of the supported generators. Beyond that the generator refuses rather than wraps around. A start time in the future, an unknown machine or one that is not accepted is refused.",
  over=["inputs", "configurations"], quant="all combinations of start times, machines, clock readings at the ends of the layout, and sequence numbers; all pairs of bits for decomposition",
  why="Layout errors show at the far ends of the time range or for particular machine and sequence numbers only.",
  files=["pkg/flake/flake.go", "prov.go"], mech=[("bit layout", "pkg/flake/flake.go toID, Decompose"), ("time of an ID", "pkg/flake/flake.go IDTime, prov.go IDTime")],
  observe=["Decompose", "IDTime"], technique="exhaustive enumeration of configurations and clock readings of the real generator", level="model_checking",
  note="Complete over the listed configurations; the clock is controlled.")
# ---------------------------------------------------------------- migrations
P(id="R01", title="Migrations run in order, once, and the recorded version tells the truth",
  statement="A migration run, directly or while opening a provider, executes exactly the migrations of the directory that lie between the recorded (or forced) version and the requested one (or the last), in order, upwards or downwards, and success means that the database is at that version and not dirty. Whatever operation of the database fails, and wherever the process dies, what was executed is a prefix of that, a failure is reported, and the recorded version and dirty mark tell how far it came, so that later runs, forced ones too, do the rest and nothing twice. Two programs that migrate at the same time do it once between them without an error or a deadlock. A run that failed does not leave the lock of the migrations held once its process is gone, no run closes the caller's database, leaves transactions, result sets or pooled connections behind, and the name of the directory may contain any characters.",
  over=["fault_sequences", "crash_points", "schedules", "histories"], quant="all histories of up to 2 (thorough 3) runs over two sets of migrations with an error or a crash before or after each database operation (1, thorough 2), all interleavings of two instances within 3 (thorough 4) preemptions, and a list of directory names and forms; up to 140 (520) migrations, version numbers beyond 32 bits, long files",
  why="Tests migrate an empty database of a live server once; a failure between two statements, a crash, a concurrent instance and odd directory names are out of their reach.",
  files=["migrate/migrate.go", "db.go"], mech=[("running the migrations", "migrate/migrate.go Migrate"), ("migrating while opening", "db.go Open, NewProvider")],
  observe=["executed migrations", "recorded version and dirty mark", "error", "connections of the pool", "lock"], technique="exhaustive fault and crash injection at every database operation, and exhaustive scheduling of two instances, of the real migration code against a model of the database server", level="fault_enumeration",
  note="The database is a model behind database/sql that keeps the versions table, the advisory lock and transactions; the drivers of golang-migrate run for real on top of it.")
# ---------------------------------------------------------------- catalogue of the database
P(id="C01", title="Listing a schema describes exactly the tables, views and keys it has",
  statement="Listing tables, views or foreign keys gives, for each of those that the filters admit and no others, exactly what the catalogue of the database says: names, types, nullability, lengths (0 without a limit) and positions of columns in the order of their positions, indexes with their columns, the primary key when it is a single column, and with dependencies every table reachable over foreign keys from those asked for. It does so, under the context given, on a pool, a provider, a single connection or a transaction, for names with any characters (in the columns of an index, any but a comma), and for every shape of the foreign keys, cycles included. Any failure of the database and any row that cannot be read is an error and no result, and a listing leaves nothing open.",
  over=["inputs", "fault_sequences", "configurations"], quant="all graphs of foreign keys over three tables with all filters, all combinations of listed kinds of columns and indexes, all combinations of 13 unusual names, and every failure (1, thorough 2) or bad value at every operation, on four kinds of executors; catalogues of up to 260 tables, columns, indexes and keys",
  why="Tests list one live database, or none at all; cyclic or chained dependencies, unusual names, hidden columns, a failure in the middle, and an executor with one connection do not occur there.",
  files=["schema/provider.go", "schema/postgres.go", "schema/sqlserver.go", "schema/schema.go"],
  mech=[("listing tables and dependencies", "schema/provider.go ListTables, discover"), ("views", "schema/provider.go ListViews"), ("columns and indexes", "schema/provider.go readColumnsSchema, readIndexesSchema"), ("queries", "schema/postgres.go, schema/sqlserver.go")],
  observe=["ListTables", "ListViews", "ListForeignKeys", "open row sets and connections"], technique="exhaustive enumeration of catalogues, filters and failures of the real provider against a model of the catalogue of the database", level="fault_enumeration",
  note="The catalogue is a model behind database/sql that answers the queries of the provider by what they ask for; the SQL text itself is not executed.")
P(id="C02", title="Listings do not depend on earlier or concurrent listings",
  statement="What a listing through a schema provider returns depends only on its arguments and on the catalogue of the database at that time: not on the listings made through the same provider before, in whatever order, nor on the ones that run at the same time, which are free of data races. Results returned earlier stay as they were, and so do the lists given as filters.",
  over=["histories", "schedules"], quant="all sequences of 3 (thorough 4) listings from a menu of ten, with the catalogue changing in between among three versions; and all interleavings of two listings within 2 (thorough 3) preemptions",
  why="Tests use a provider for one listing, so what it keeps from one call to the next, and what two calls share, is never seen.",
  files=["schema/provider.go"], mech=[("listing tables and dependencies", "schema/provider.go ListTables, discover")],
  observe=["ListTables", "ListViews", "ListForeignKeys"], technique="exhaustive exploration of operation sequences and of interleavings under a controlled scheduler with race detection, on the real provider over a model of the catalogue", level="model_checking",
  note="Complete within the stated depth and preemption bound; switches happen at the operations of the database, and the race detector watches what is between.")
P(id="C03", title="A table description makes statements on its own table and columns",
  statement="The statements that a table description starts, in any dialect, name its table and, where no others are asked for, exactly its columns in their order, with those asked to be null replaced and the others prefixed; its lists of columns do the same. They always follow the description as it is at that moment, whatever was asked of it before, and neither the description nor the arguments are changed. The tag of a column states its name, type, length, nullability, indexes, primary key and reference.",
  over=["histories", "inputs"], quant="all sequences of 2 (thorough 3) uses from a menu of nine with all listed arguments, and with the columns, the table name or the dialect changed in between; and all combinations of the attributes of a column; descriptions of up to 530 columns",
  why="Tests ask one description one thing each; what it keeps from an earlier use, and arguments that share content with it, do not show.",
  files=["schema/schema.go", "xsql/dialect.go"], mech=[("statements of a table", "schema/schema.go TableInfo"), ("tags", "schema/schema.go Column.Tag")],
  observe=["Builder.String", "Builder.Args", "AllColumns", "AliasedColumns", "Column.Tag"], technique="exhaustive exploration of operation sequences of the real code against a reference model", level="model_checking",
  note="Complete within the stated depth and alphabets.")
P(id="G01", title="Generated code compiles and reads the tables it was made from",
  statement="For every supported column type, name and combination of options and definitions, on one or several schemas whose tables have distinct names, the generator writes model and schema packages (imports completed as goimports does) that compile and are the same each time. The descriptions state the schema, name, primary key, columns, indexes and dialect of exactly the tables asked for, without dropped columns; models have one field per column, named and typed as the definitions say, and read every value the column can hold, and NULL where allowed. An unreadable catalogue, missing definitions and files that cannot be written are errors.",
  over=["configurations", "inputs", "fault_sequences"], quant="all listed combinations of provider, options, definitions, schemas and failures, on tables with every type under every kind of column name; every listed value of every column; tables of up to 300 columns, up to 129 tables, long names",
  why="Tests compare fragments of the text for one catalogue; whether the code compiles, agrees with the catalogue and reads every value only shows by compiling and running it.",
  files=["internal/cli/schema/schema.go", "internal/cli/schema/template.go", "internal/cli/schema/types.go"], mech=[("generation", "internal/cli/schema/schema.go GenerateCmd"), ("templates", "internal/cli/schema/template.go"), ("types", "internal/cli/schema/types.go toGoType")],
  observe=["generated packages, compiled and run against a fake database"], technique="exhaustive enumeration of configurations of the generator; what it generates is compiled and run on every listed row", level="model_checking",
  note="Complete over the listed configurations, types and values; names that are not plain identifiers are outside.")
P(id="G02", title="Printed schemas hold everything that was listed, or report an error",
  statement="The commands that print columns, tables, views and foreign keys ask for exactly what was named, and print all of it and nothing else, in the order listed: as JSON or YAML one document that reads back as the same schema, as text one row per column, index, key or name with every attribute. An error of a request or of a write is reported.",
  over=["inputs", "configurations", "fault_sequences"], quant="every command, format and filter over all catalogues of up to two tables, two views and two keys of every size within the bound, with a failure of every request and of every write; many rows and long names",
  why="Tests print one catalogue to memory; what is lost for other sizes, combinations and failing outputs does not show.",
  files=["internal/cli/schema/schema.go", "pkg/print/print.go", "pkg/print/schema.go"], mech=[("commands", "internal/cli/schema/schema.go"), ("formats", "pkg/print/print.go Object"), ("tables", "pkg/print/schema.go")],
  observe=["output of the commands"], technique="exhaustive enumeration of catalogues, commands and failing writes on the real code; the output is read back", level="model_checking",
  note="Complete within the stated sizes.")
P(id="A01", title="The program does what was asked and its exit status tells whether it did",
  statement="Run as a program, xdbcli logs in with the data source of the flag, or else of the environment, to the database named on the command line, prints or writes the result for exactly the schemas, tables and views named, however the lists are given, and ends with status 0. Whatever response of the server is an error, breaks off or does not come because the connection is lost, and if the output cannot be written or the arguments are not right, it either still gives the complete result or ends with another status and a message, having printed and written nothing of the result. It always ends, never asks the server to change anything, and never prints the password of a data source that can be used, with debug messages neither.",
  over=["inputs", "configurations", "fault_sequences"], quant="every command with every form of its lists, format and place of the data source, on both database systems, with every kind of failure at every response of the server, singly and in a row, every output that cannot be written and every kind of wrong arguments",
  why="Tests call the commands with a catalogue in memory; the program, its flags, the connection and the exit status are not run, and a failure in the middle of a conversation cannot be had from a healthy server.",
  files=["cmd/xdbcli/main.go", "internal/cli/cli.go", "internal/cli/schema/schema.go", "db.go", "schema/provider.go"], mech=[("exit status", "cmd/xdbcli/main.go realMain"), ("data source and database", "internal/cli/cli.go AfterApply, DB, SchemaProvider"), ("commands", "internal/cli/schema/schema.go")],
  observe=["exit status, output and files of the process", "logins and statements received by loopback servers"], technique="exhaustive enumeration of command lines and of faults at every response of a loopback server, the built program run as a process on each", level="model_checking",
  note="Complete over the listed command lines and faults; the servers are stubs of the PostgreSQL and SQL Server protocols that answer by evaluating the queries over system tables.")
# ---------------------------------------------------------------- notifications
P(id="N01", title="Notifications of a topic reach the callback of that topic",
  statement="From the moment the server listens to a topic until its context ends or the listener is closed, every notification of the topic that arrives is passed to the callback given for it, once, in order, with its channel, its text and the object it holds, and to no other callback, however other topics are listened to, end, fail or are notified meanwhile, and across a lost connection. A second listen of an open topic and a refused one are errors, their callbacks are not called and nothing else changes. After its context has ended a topic is no longer listened to and can be listened to again. Callbacks may use the listener. After Close nothing is left running, and listening is an error.",
  over=["schedules", "fault_sequences"], quant="all interleavings with at most 2 (thorough 3) departures from the default order of a listener, its topics, a notifying server, ending contexts, lost connections, failures and a close, with every choice of a select; up to 300 notifications and up to 33 topics at once, payloads of up to 7990 bytes",
  why="There are no tests of the listener; which goroutine takes a notification is up to the scheduler.",
  files=["pkg/notifier/listener.go"], mech=[("passing on notifications", "pkg/notifier/listener.go Listen"), ("decoding", "pkg/notifier/listener.go parsePayload")],
  observe=["calls of the callbacks", "goroutines left"], technique="stateless exploration of all schedules within a delay bound of the real listener, with the race detector, on a model of pq.Listener", level="model_checking",
  note="Complete within the delay bound; pq.Listener is replaced by a model of its documented behaviour.")
# ---------------------------------------------------------------- opening
P(id="D01", title="Opening reaches the requested database as the given user, or fails cleanly",
  statement="Opening a data source, whether given directly, quoted, from a file or from the environment, logs in to the named server with exactly the user, password and other settings of the data source, and to the requested database if one is given and else to the one of the data source, whatever characters they contain and whatever form the data source has. The returned connection string leads to the same place, and parsing it reports its driver, host, user, password, parameters, and the database it leads to. A source that cannot be resolved or parsed, an unknown driver with a requested database, a refused login and failing migrations are errors with no provider, and leave no connection open.",
  over=["inputs", "configurations", "fault_sequences"], quant="all combinations of drivers, forms of data sources, users, passwords, databases with special characters, requested databases, places of the source, and failures; names, passwords and lists of parameters of many lengths",
  why="Tests parse two or three plain connection strings and cannot log in anywhere; mistakes appear only for the characters and forms that meet the rewriting of the string.",
  files=["db.go", "migrate/migrate.go"], mech=[("setting the requested database", "db.go Open"), ("parsing", "db.go ParseConnectionString"), ("closing on failure", "db.go Open, NewProvider")],
  observe=["login received by loopback servers", "open connections"], technique="exhaustive enumeration of data sources and failures against loopback servers that speak the login part of both protocols", level="model_checking",
  note="Complete over the listed alphabets; the servers are loopback stubs of the PostgreSQL and SQL Server login protocols driven by the real drivers.")
