# Generates /verif/properties.jsonl (kept as a script so that statements are easy to review and edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
RE='src/events/row_events/'
p('C01','Numeric and temporal column values decode exactly',
 'Every numeric (TINYINT to BIGINT, FLOAT, DOUBLE), YEAR, DATE, TIME, DATETIME and TIMESTAMP cell of a row event, including the fractional-second types with 0 to 6 digits, decodes to exactly the value that the binary log format assigns to its bytes and consumes exactly the bytes of that column. Negative TIME values (unsupported) and cells whose bytes are cut off are reported as an error, never as a value or a panic.',
 ['inputs'],'for all byte contents, all column types of these families and all values of the column metadata',
 'The row decoder has no test at all for these types; a test would sample a few dates, while a wrong shift, modulus, divisor or byte order shows up only for particular bit patterns and precisions.',
 [RE+'col_parser.rs',RE+'row_parser.rs',RE+'mysql_value.rs'],
 [('parse_year .. parse_timestamp2, parse_fractional_part',RE+'col_parser.rs'),('parse_cell type dispatch',RE+'row_parser.rs')],
 observe=['cells of WriteRowsEvent/UpdateRowsEvent/DeleteRowsEvent returned by EventParser::parse_event'])
p('C02','DECIMAL values decode to exact decimal text',
 'A DECIMAL(p,s) cell decodes to its exact decimal text: a minus sign exactly for negative values, the integral part without leading zeros (a single 0 if it is zero), and, when s > 0, a point followed by exactly s fractional digits. It consumes exactly the bytes of the column, and an impossible precision/scale or missing bytes are an error.',
 ['inputs'],'for all precisions, scales and byte contents','Seven tests sample a handful of numbers; group boundaries (multiples of 9 digits), zero groups in the middle, leading zero groups and negative values combine into far more cases.',
 [RE+'decimal.rs'],[('parse_decimal: sign bit, 9-digit groups, zero padding',RE+'decimal.rs')],observe=['MySqlValue::Decimal cells'])
p('C03','String, BLOB, BIT, ENUM and SET cells decode exactly',
 'VARCHAR/CHAR/BINARY text, BLOB/TEXT/JSON/GEOMETRY bytes, BIT(n), ENUM and SET cells decode to exactly their stored content: the length prefix has the width given by the column metadata, BIT yields its n bits with the most significant bit first, and CHAR columns that really are ENUM, SET or long CHAR are recognised as such. A cut-off cell, invalid UTF-8 text or an impossible size in the metadata is an error.',
 ['inputs'],'for all byte contents, lengths and metadata values','Only three samples of the CHAR/ENUM/SET resolution are tested; the 255/256 length switch, bit order for partial bytes and long CHAR lengths need exact boundary values.',
 [RE+'col_parser.rs',RE+'actual_string_type.rs','src/extensions.rs',RE+'row_parser.rs'],
 [('parse_string, parse_blob, parse_bit',RE+'col_parser.rs'),('get_actual_string_type',RE+'actual_string_type.rs'),('read_string, read_bitmap_big_endian, read_sized_uint','src/extensions.rs')],
 observe=['MySqlValue::String/Blob/Bit/Enum/Set cells'])
p('C04','Row images: every row, every column, in the right place',
 'A rows event (version 1 or 2) yields the table id, flags and column bitmaps it carries and all of its rows in order: each row has one cell per table column, where a column left out of the row image or NULL is absent and every other column holds its own value. For updates the n-th before image is paired with the n-th after image, each under its own column bitmap; a row that is cut off or does not fit the table makes the whole event an error, so rows are never dropped or shifted silently.',
 ['inputs'],'for all table shapes, column bitmaps, NULL patterns, row counts and extra-data lengths',
 'No test parses a rows event; the interplay of present-bitmap, NULL-bitmap (indexed by included columns only) and many rows cannot be sampled densely.',
 [RE+'row_parser.rs',RE+'write_rows_event.rs',RE+'update_rows_event.rs',RE+'delete_rows_event.rs','src/extensions.rs'],
 [('parse_row: skipped_columns vs null bitmap',RE+'row_parser.rs'),('parse_row_data_list / parse_update_row_data_list loop',RE+'row_parser.rs'),('parse_head extra data',RE+'row_parser.rs'),('read_bitmap_little_endian','src/extensions.rs')],
 observe=['rows, columns_present, columns_before_update, columns_after_update of rows events'])
p('C05','Table map events decode exactly',
 'A table map event decodes to exactly the table id, database name, table name, column types, per-column type metadata (with the width and byte order of each column type) and nullability bitmap that it carries, with one metadata entry and one nullability flag per column. Cut-off or inconsistent content is an error.',
 ['inputs'],'for all table map event bodies','There is no test for table map events; metadata widths differ per column type, so errors appear only for particular type sequences.',
 ['src/events/table_map_event.rs','src/constants/column_type.rs','src/extensions.rs'],
 [('TableMapEvent::parse, parse_metadata','src/events/table_map_event.rs'),('ColumnType::from_code','src/constants/column_type.rs'),('read_len_enc_num','src/extensions.rs')],
 observe=['fields of TableMapEvent'])
p('C06','Optional table metadata decodes exactly',
 'When a table map event carries optional metadata, each field (signedness of the numeric columns, charsets, column names, ENUM and SET members, geometry types, primary keys, visibility) decodes to exactly the values in its own block, fields that are not sent stay unset, and no field reads bytes of another. A block that is cut off or has an unknown type is an error.',
 ['inputs'],'for all sequences of metadata blocks and column types','No test covers it; twelve block types with nested length-encoded lists give an unbounded input space.',
 ['src/metadata/table_metadata.rs','src/metadata/metadata_type.rs','src/metadata/default_charset.rs','src/extensions.rs'],
 [('TableMetadata::parse and its list parsers','src/metadata/table_metadata.rs'),('MetadataType::from_code','src/metadata/metadata_type.rs')],
 observe=['TableMapEvent.table_metadata'])
p('C07','Checksum bytes are stripped exactly when checksums are on',
 'Event bodies are decoded from exactly the bytes of the event: with CRC32 checksums on, the last four bytes never reach an event body, and with checksums off none is dropped. The checksum setting changes exactly when a format description event announces another one (and not before the event that announces it has been decoded), and an unsupported or missing checksum is an error.',
 ['inputs','histories'],'for all event sequences and event lengths, starting with either setting','Tests parse event bodies directly, never through the event parser; a history of format description events followed by other events is needed.',
 ['src/events/event_parser.rs','src/events/format_description_event.rs','src/constants/checksum_type.rs'],
 [('EventParser::parse_event','src/events/event_parser.rs'),('FormatDescriptionEvent::parse','src/events/format_description_event.rs'),('ChecksumType::from_code','src/constants/checksum_type.rs')],
 state=[('checksum_type','checksum setting in force for the next event','src/events/event_parser.rs')],observe=['events returned by EventParser::parse_event'])
p('C08','Row events use the latest table map of their table',
 'Each event is decoded according to its type code (unknown codes yield the unknown event), and each rows event is decoded with the most recent table map event received for its table id, whatever other events, tables or failed events came in between. A rows event whose table was never mapped is an error, and no other event changes the known table maps.',
 ['inputs','histories'],'for all sequences of events through one parser','The parser is never tested with more than one event; stale or missing mappings need multi-event histories with re-used table ids.',
 ['src/events/event_parser.rs','src/events/event_type.rs',RE+'row_parser.rs'],
 [('EventParser::parse_event dispatch and cache update','src/events/event_parser.rs'),('EventType::from_code','src/events/event_type.rs')],
 state=[('table_map','latest table map per table id','src/events/event_parser.rs')],observe=['EventParser::parse_event'])
p('C09','Binlog files are read completely and in order',
 'Reading a binlog file yields every event in it, in file order, each decoded from exactly its own header and body bytes whatever its size, and iteration ends only when the file has no further complete event. A wrong file signature, an impossible event length or a malformed event is reported as an error and never ends the iteration silently.',
 ['inputs'],'for all file contents','No test opens a binlog file; large events (above the 32 KiB buffer), stale buffer contents and malformed events in the middle need specific files.',
 ['src/binlog_reader.rs','src/events/event_header.rs'],
 [('BinlogReader::new, read_event, next','src/binlog_reader.rs'),('EventHeader::parse','src/events/event_header.rs')],
 state=[('payload_buffer','reused buffer for small events','src/binlog_reader.rs')],observe=['BinlogReader iterator'])
p('C10','Network stream packets become events, errors or the end',
 'While streaming, each packet from the server yields exactly one result: an OK packet yields the event decoded from the bytes after the status byte, an error packet yields an error, an end-of-file packet ends the stream, and any other status yields an error. A failure to read a packet yields an error and never ends the stream silently.',
 ['inputs','fault_sequences'],'for all packet sequences, including connection failures at any byte','There is no network test; a stream that ends silently on an error looks like a normal end to every example.',
 ['src/binlog_events.rs','src/responses/response_type.rs','src/responses/error_packet.rs'],
 [('BinlogEvents::next, read_event, read_error','src/binlog_events.rs')],observe=['BinlogEvents iterator'])
p('C11','Header and non-row event bodies decode exactly',
 'The event header and the query, rotate, intvar, user variable, xid, heartbeat, rows query and format description events decode to exactly the fields that the binary log format assigns to their bytes. A body that is cut off or has invalid UTF-8 text is an error.',
 ['inputs'],'for all header and body bytes','A single user variable sample is tested; field order, widths, optional parts and the checksum announcement vary per event.',
 ['src/events/event_header.rs','src/events/query_event.rs','src/events/rotate_event.rs','src/events/intvar_event.rs','src/events/uservar_event.rs','src/events/xid_event.rs','src/events/heartbeat_event.rs','src/events/rows_query_event.rs','src/events/format_description_event.rs'],
 [('parse of each event','src/events/')],observe=['BinlogEvent variants returned by EventParser::parse_event'])
p('C12','GTID events decode exactly',
 'MySQL GTID events, MySQL previous-GTIDs events, MariaDB GTID events and MariaDB GTID list events decode to exactly the flags, source or domain and server ids, transaction numbers and intervals that they carry; previous-GTIDs intervals, sent with an exclusive end, are represented with an inclusive end. Cut-off content and empty intervals are an error.',
 ['inputs'],'for all event bodies','One previous-GTIDs sample is tested; nothing checks byte order, exclusive ends for several sources, or which id comes from the header.',
 ['src/providers/mysql/events/gtid_event.rs','src/providers/mysql/events/prev_gtids_event.rs','src/providers/mariadb/events/gtid_event.rs','src/providers/mariadb/events/gtid_list_event.rs','src/providers/mysql/gtid/uuid.rs'],
 [('parse of each GTID event','src/providers/'),('Uuid::new text form','src/providers/mysql/gtid/uuid.rs')],observe=['MySqlGtidEvent, MySqlPrevGtidsEvent, MariaDbGtidEvent, MariaDbGtidListEvent'])
p('C13','Adding a GTID adds exactly that transaction',
 'Adding a MySQL GTID to a GTID set makes the set contain exactly the transactions it had before plus that one, leaves other sources untouched, and reports whether it was new. Interval lists built by parsing and adding are always in normal form: sorted, disjoint, non-adjacent intervals with start <= end.',
 ['inputs','histories'],'for all sets and all sequences of additions of transaction ids from 1 to 2^63-2','Tests add a few ids in a few orders; the binary search and the collapse of neighbours depend on exact adjacency patterns among any number of intervals.',
 ['src/providers/mysql/gtid/gtid_set.rs','src/providers/mysql/gtid/uuid_set.rs','src/providers/mysql/gtid/interval.rs'],
 [('UuidSet::add_gtid, find_interval_index, collapse_intervals','src/providers/mysql/gtid/uuid_set.rs'),('GtidSet::add_gtid','src/providers/mysql/gtid/gtid_set.rs')],
 state=[('intervals','executed transactions of one server','src/providers/mysql/gtid/uuid_set.rs')],observe=['GtidSet::add_gtid','GtidSet::uuid_sets','GtidSet Display'])
p('C14','GTID set text is parsed and printed exactly',
 'Parsing a MySQL GTID set text yields exactly the transactions it denotes (union over all its parts, whatever their order or overlap, upper or lower case UUIDs, spaces and line breaks around parts), under one entry per server keyed by the canonical UUID text, and printing a set and parsing it again yields the same set. Malformed UUIDs, numbers or ranges are errors.',
 ['inputs'],'for all texts and sets','Eight tests sample fixed strings.',
 ['src/providers/mysql/gtid/gtid_set.rs','src/providers/mysql/gtid/uuid_set.rs','src/providers/mysql/gtid/uuid.rs','src/providers/mysql/gtid/interval.rs','src/providers/mysql/gtid/gtid.rs'],
 [('GtidSet::parse and Display','src/providers/mysql/gtid/gtid_set.rs'),('Uuid::parse','src/providers/mysql/gtid/uuid.rs'),('UuidSet::new, collapse_intervals','src/providers/mysql/gtid/uuid_set.rs'),('Interval, UuidSet Display','src/providers/mysql/gtid/')],
 observe=['GtidSet::parse','GtidSet Display'])
p('C15','MariaDB GTID lists keep the last position per domain',
 'Adding a GTID to a MariaDB GTID list replaces the entry of its domain or appends a new one, and changes nothing else. Parsing accepts exactly comma-separated domain-server-sequence triples with distinct domains, printing is its inverse, and malformed text is an error.',
 ['inputs','histories'],'for all lists, GTIDs and texts','Tests sample a few lists of at most three domains.',
 ['src/providers/mariadb/gtid/gtid_list.rs','src/providers/mariadb/gtid/gtid.rs'],
 [('GtidList::add_gtid, parse, Display','src/providers/mariadb/gtid/gtid_list.rs')],observe=['GtidList'])
p('C16','GTID dump requests describe exactly the executed set',
 'The request that starts MySQL GTID replication carries exactly the current GTID set: every server UUID once as its 16 bytes, every interval with its end sent as exclusive bound, and counts and the data length that match what follows, after the flags, server id, file name and position.',
 ['inputs'],'for all GTID sets, file names, positions and server ids','No test serialises a command; the length field and exclusive ends must agree for any number of servers and intervals.',
 ['src/commands/dump_binlog_gtid_command.rs'],[('DumpBinlogGtidCommand::serialize','src/commands/dump_binlog_gtid_command.rs')],observe=['bytes written to the server by BinlogClient::replicate'])
p('C17','Committed binlog position is a safe restart point',
 'Committing an event moves the stored position to the next-event position of its header (kept if that is zero), except that a table map event never moves it (so a restart re-reads the mapping that row events need) and a rotate event sets file name and position to its target. Nothing else in the options changes.',
 ['inputs','histories'],'for all event and commit sequences','commit has no test; which event kinds move the position matters only across a reconnect.',
 ['src/binlog_client.rs'],[('update_binlog_position','src/binlog_client.rs')],state=[('options.binlog.filename/position','restart point','src/binlog_options.rs')],observe=['BinlogClient::commit','BinlogClient.options'])
p('C18','A GTID is recorded only when its transaction has ended',
 'With GTID positioning, the GTID of a transaction joins the stored GTID state exactly when its end is committed: an XID event, a COMMIT or ROLLBACK statement, or a non-empty statement outside an open transaction (opened by BEGIN, or by a MariaDB GTID event without the standalone flag); no other event changes the stored GTID state. Without GTID positioning commits never touch it.',
 ['inputs','histories'],'for all sequences of committed events','commit has no test; recording too early loses the transaction after a crash, which only a crash between particular events reveals.',
 ['src/binlog_client.rs'],[('update_gtid_position, commit_gtid','src/binlog_client.rs')],
 state=[('transaction','inside an open transaction','src/binlog_client.rs'),('maria_gtid, mysql_gtid','last seen GTID','src/binlog_client.rs')],observe=['BinlogClient::commit','BinlogClient.options'])
p('C19','Replication starts exactly where the options say',
 'Starting replication sends the server exactly the requests of the chosen strategy: MariaDB gets its capability setting (and with GTID its GTID state and slave registration) before the dump request, MySQL gets a GTID dump or a position dump, with the stored file name and position and server id 0 when non-blocking. A missing GTID state is an error, and the end-of-log position is read from the server only for the from-end strategy without a stored file name.',
 ['configurations','inputs'],'for all options and server answers','There is no network test; each provider, strategy and blocking mode needs its own conversation.',
 ['src/binlog_client.rs','src/configure.rs','src/providers/mysql/mysql_provider.rs','src/providers/mariadb/mariadb_provider.rs','src/binlog_options.rs'],
 [('replicate','src/binlog_client.rs'),('adjust_starting_position, set_master_heartbeat, set_master_binlog_checksum','src/configure.rs'),('replicate_mysql','src/providers/mysql/mysql_provider.rs'),('replicate_mariadb, register_gtid_slave','src/providers/mariadb/mariadb_provider.rs')],
 observe=['bytes written to the server'])
p('C20','Commands are encoded exactly',
 'Query, register-slave, position dump, SSL request, authentication response and authentication switch requests are encoded byte for byte as the protocol prescribes for their fields: command code, field order, widths, byte order, reserved bytes, terminators, capability flags and length prefixes.',
 ['inputs'],'for all field values','No command is serialised by any test.',
 ['src/commands/query_command.rs','src/commands/register_slave_command.rs','src/commands/dump_binlog_command.rs','src/commands/ssl_request_command.rs','src/commands/authenticate_command.rs','src/commands/auth_plugin_switch_command.rs','src/commands/command_type.rs','src/constants/capability_flags.rs','src/extensions.rs'],
 [('serialize of each command','src/commands/'),('write_null_term_string','src/extensions.rs')],observe=['bytes written to the server'])
p('C21','Packets are framed exactly in both directions',
 'Every packet written is its 3-byte little-endian length, its sequence number and then all of its bytes; reading returns exactly the announced number of bytes and the announced sequence number, consumes nothing beyond them, and a connection that ends early or an empty packet is an error.',
 ['inputs','fault_sequences'],'for all packet contents up to 16 MiB - 1, all stream contents and all points where the stream ends','There is no test with a socket; short writes, partial reads and length bytes above 255 need specific conditions.',
 ['src/packet_channel.rs'],[('read_packet, write_packet','src/packet_channel.rs')],observe=['bytes on the socket'])
p('C22','Authentication proves the password and never reveals it',
 'The authentication response is the one the server verifies for the chosen plugin (mysql_native_password or caching_sha2_password) from password and server scramble, empty for an empty password; requests carry the next sequence number. On an unencrypted connection the password itself is never written, only scrambled or encrypted with the public key of the server, and an unsupported plugin or a refusal of the server is an error.',
 ['inputs','configurations'],'for all passwords, scrambles, plugins and server answers','No test authenticates; a wrong hash order still logs in on servers without cached credentials.',
 ['src/connect.rs','src/extensions.rs','src/constants/auth_plugin_names.rs'],
 [('authenticate, handle_auth_plugin_switch, authenticate_sha_256, get_auth_plugin','src/connect.rs'),('encrypt_password, xor, sha1, sha256','src/extensions.rs')],observe=['bytes written to the server','result of BinlogClient::replicate'])
p('C23','Server errors at any step of the setup are surfaced',
 'If the server answers any request of the connection and replication setup with an error packet, starting replication returns an error, sends nothing further to the server, and never hands out an event stream; the same holds when the connection fails or an expected answer is cut off or missing.',
 ['fault_sequences','configurations'],'for every step of the setup conversation and every strategy','There is no network test; each step has its own response handling.',
 ['src/connect.rs','src/configure.rs','src/providers/mariadb/mariadb_provider.rs','src/extensions.rs','src/responses/error_packet.rs'],
 [('check_error_packet','src/extensions.rs'),('every read_packet followed by check_error_packet','src/connect.rs'),('read_result_set','src/configure.rs')],observe=['result of BinlogClient::replicate'])
p('C24','Server handshake and answers are parsed exactly',
 'The initial handshake, error, authentication switch, end-of-file and result-set row packets decode to exactly the fields they carry: texts end at their terminator, the scramble joins both of its parts, capability flags join all of their parts, and optional parts are read exactly when the flags announce them. A cut-off packet is an error.',
 ['inputs'],'for all packet bytes','No test parses a server packet.',
 ['src/responses/handshake_packet.rs','src/responses/error_packet.rs','src/responses/auth_switch_packet.rs','src/responses/end_of_file_packet.rs','src/responses/result_set_row_packet.rs','src/extensions.rs'],
 [('parse of each packet','src/responses/'),('read_null_term_string, read_len_enc_str, read_len_enc_num','src/extensions.rs')],observe=['bytes written back during authentication','error texts','options after reading the master position'])
p('C25','Decoding never panics, overflows or hangs',
 'Decoding any event bytes or any GTID text ends with a value or an error: it never panics, overflows an integer, indexes out of bounds, loops forever, or allocates a buffer larger than a small multiple of the input because of an announced length.',
 ['inputs','histories'],'for all byte contents, event types, table maps and texts','Tests only use well-formed input; malformed or hostile bytes reach every length, count and index in the decoder.',
 ['src/events/','src/metadata/','src/extensions.rs','src/providers/','src/responses/'],
 [('bounds, overflow and termination obligations of every decoder','src/events/'),('check_remaining before allocation','src/extensions.rs')],observe=['EventParser::parse_event, BinlogReader, GtidSet::parse, GtidList::parse'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
