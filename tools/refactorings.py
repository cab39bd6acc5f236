"""Edits of /repo that keep the behaviour: (name, [(file under src, old, new)]). tools/run_refactorings.py checks that they stay quiet."""
R = []
def r(name, *edits): R.append((name, list(edits)))

r('helper-charge-check', ('events/row_events/row_parser.rs',
'''    let table = match table_map.get(&table_id) {
        Some(x) => x,
        None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
    };

    check_columns_number(table, columns_present)?;
''', '''    let table = find_table(table_map, table_id)?;

    check_columns_number(table, columns_present)?;
'''), ('events/row_events/row_parser.rs', '''/// Gets number of bits set''', '''fn find_table(table_map: &HashMap<u64, TableMapEvent>, table_id: u64) -> Result<&TableMapEvent, Error> {
    match table_map.get(&table_id) {
        Some(x) => Ok(x),
        None => Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
    }
}

/// Gets number of bits set'''))
r('helper-cell-type', ('events/row_events/row_parser.rs', '''            let mut column_type = table_map.column_types[i];
            let mut metadata = table_map.column_metadata[i];
            if ColumnType::from_code(column_type)? == ColumnType::String {
                get_actual_string_type(&mut column_type, &mut metadata);
            }
            row.push(Some(parse_cell(cursor, column_type, metadata)?));''', '''            row.push(Some(parse_present(cursor, table_map, i)?));'''),
 ('events/row_events/row_parser.rs', '''fn parse_cell(''', '''fn parse_present(
    cursor: &mut Cursor<&[u8]>,
    table_map: &TableMapEvent,
    i: usize,
) -> Result<MySqlValue, Error> {
    let mut column_type = table_map.column_types[i];
    let mut metadata = table_map.column_metadata[i];
    if ColumnType::from_code(column_type)? == ColumnType::String {
        get_actual_string_type(&mut column_type, &mut metadata);
    }
    parse_cell(cursor, column_type, metadata)
}

fn parse_cell('''))
r('row-loop-match', ('events/row_events/row_parser.rs', '''    let mut skipped_columns = 0;
    for i in 0..table_map.column_types.len() {
        // Data is missing if binlog_row_image != full
        if !columns_present[i] {
            skipped_columns += 1;
            row.push(None);
        }
        // Column is present and has null value
        else if null_bitmap[i - skipped_columns] {
            row.push(None);
        }''', '''    let mut present_index = 0;
    for i in 0..table_map.column_types.len() {
        // Data is missing if binlog_row_image != full
        if !columns_present[i] {
            row.push(None);
            continue;
        }
        let is_null = null_bitmap[present_index];
        present_index += 1;
        // Column is present and has null value
        if is_null {
            row.push(None);
        }'''))
r('bits-number-loop', ('events/row_events/row_parser.rs', '''    bitmap.iter().filter(|&x| *x == true).count()''', '''    let mut count = 0;
    for bit in bitmap {
        if *bit {
            count += 1;
        }
    }
    count'''))
r('bits-number-deref', ('events/row_events/row_parser.rs', '''    bitmap.iter().filter(|&x| *x == true).count()''', '''    bitmap.iter().filter(|x| **x).count()'''))
r('bitmap-helper', ('extensions.rs', '''    check_remaining(cursor, bits_number / 8)?;
    let mut result = vec![false; bits_number];
    let bytes_number = (bits_number + 7) / 8;
    for i in 0..bytes_number {
        let value = cursor.read_u8()?;
        for y in 0..8 {
            let index = (i << 3) + y;''', '''    check_remaining(cursor, bits_number / 8)?;
    let mut result = vec![false; bits_number];
    let bytes_number = bitmap_size(bits_number);
    for i in 0..bytes_number {
        let value = cursor.read_u8()?;
        for y in 0..8 {
            let index = i * 8 + y;'''), ('extensions.rs', '''/// Reads bitmap in little-endian bytes order''', '''fn bitmap_size(bits_number: usize) -> usize {
    (bits_number + 7) / 8
}

/// Reads bitmap in little-endian bytes order'''))
r('bitmap-while', ('extensions.rs', '''    for i in 0..bytes_number {
        let value = cursor.read_u8()?;
        for y in 0..8 {
            let index = (i << 3) + y;
            if index == bits_number {
                break;
            }
            result[index] = (value & (1 << y)) > 0;
        }
    }''', '''    let mut i = 0;
    while i < bytes_number {
        let value = cursor.read_u8()?;
        for y in 0..8 {
            let index = (i << 3) + y;
            if index >= bits_number {
                break;
            }
            result[index] = (value >> y) & 1 == 1;
        }
        i += 1;
    }'''))
r('lenenc-match', ('extensions.rs', '''    if first_byte < 0xFB {
        Ok(first_byte as usize)
    } else if first_byte == 0xFB {
        Err(Error::String(
            "Length encoded integer cannot be NULL.".to_string(),
        ))
    } else if first_byte == 0xFC {
        Ok(cursor.read_u16::<LittleEndian>()? as usize)
    } else if first_byte == 0xFD {
        Ok(cursor.read_u24::<LittleEndian>()? as usize)
    } else if first_byte == 0xFE {
        Ok(cursor.read_u64::<LittleEndian>()? as usize)
    } else {
        let value = format!("Unexpected length-encoded integer: {}", first_byte).to_string();
        Err(Error::String(value))
    }''', '''    match first_byte {
        0..=0xFA => Ok(first_byte as usize),
        0xFB => Err(Error::String(
            "Length encoded integer cannot be NULL.".to_string(),
        )),
        0xFC => Ok(cursor.read_u16::<LittleEndian>()? as usize),
        0xFD => Ok(cursor.read_u24::<LittleEndian>()? as usize),
        0xFE => Ok(cursor.read_u64::<LittleEndian>()? as usize),
        _ => {
            let value = format!("Unexpected length-encoded integer: {}", first_byte).to_string();
            Err(Error::String(value))
        }
    }'''))
r('lenenc-early', ('extensions.rs', '''    if first_byte < 0xFB {
        Ok(first_byte as usize)
    } else if first_byte == 0xFB {
        Err(Error::String(
            "Length encoded integer cannot be NULL.".to_string(),
        ))
    } else if first_byte == 0xFC {''', '''    if first_byte < 0xFB {
        return Ok(first_byte as usize);
    }
    if first_byte == 0xFB {
        return Err(Error::String(
            "Length encoded integer cannot be NULL.".to_string(),
        ));
    }
    if first_byte == 0xFC {'''))
r('lenstr-direct', ('extensions.rs', '''    Ok(read_string(cursor, length)?)''', '''    let value = read_string(cursor, length)?;
    Ok(value)'''))
r('xor-iter', ('extensions.rs', '''    let mut result = vec![0u8; slice1.len()];
    for i in 0..result.len() {
        result[i] = slice1[i] ^ slice2[i % slice2.len()];
    }
    result''', '''    let mut result = Vec::with_capacity(slice1.len());
    for i in 0..slice1.len() {
        result.push(slice1[i] ^ slice2[i % slice2.len()]);
    }
    result'''))
r('password-helper', ('extensions.rs', '''        AuthPlugin::MySqlNativePassword => {
            let password_hash = sha1(password.as_bytes());
            let concat_hash = [scramble.as_bytes().to_vec(), sha1(&password_hash)].concat();
            xor(&password_hash, &sha1(&concat_hash))
        }''', '''        AuthPlugin::MySqlNativePassword => native_password(password, scramble),'''), ('extensions.rs', '''pub fn sha1(value''', '''fn native_password(password: &String, scramble: &String) -> Vec<u8> {
    let password_hash = sha1(password.as_bytes());
    let concat_hash = [scramble.as_bytes().to_vec(), sha1(&password_hash)].concat();
    xor(&password_hash, &sha1(&concat_hash))
}

pub fn sha1(value'''))
r('add-gtid-match', ('providers/mysql/gtid/uuid_set.rs', '''        if !added {
            let interval = Interval::new(gtid.transaction_id, gtid.transaction_id);
            self.intervals.insert(index, interval);
        }
        if self.intervals.len() > 1 {
            collapse_intervals(&mut self.intervals);
        }
        Ok(true)''', '''        if !added {
            self.intervals
                .insert(index, Interval::new(gtid.transaction_id, gtid.transaction_id));
        }
        self.merge();
        Ok(true)'''), ('providers/mysql/gtid/uuid_set.rs', '''    /// Adds a gtid value to the UuidSet.''', '''    fn merge(&mut self) {
        if self.intervals.len() > 1 {
            collapse_intervals(&mut self.intervals);
        }
    }

    /// Adds a gtid value to the UuidSet.'''))
r('add-gtid-local', ('providers/mysql/gtid/uuid_set.rs', '''        let index = find_interval_index(&self.intervals, gtid.transaction_id);
        let mut added = false;''', '''        let id = gtid.transaction_id;
        let mut added = false;
        let index = find_interval_index(&self.intervals, id);'''), ('providers/mysql/gtid/uuid_set.rs', '''            let interval = Interval::new(gtid.transaction_id, gtid.transaction_id);''', '''            let interval = Interval::new(id, id);'''))
r('search-loop', ('providers/mysql/gtid/uuid_set.rs', '''        result_index = (left_index + right_index) / 2;''', '''        result_index = left_index + (right_index - left_index) / 2;'''))
r('collapse-while', ('providers/mysql/gtid/uuid_set.rs', '''    while index < intervals.len() - 1 {''', '''    while index + 1 < intervals.len() {'''))
r('gtid-interval-helper', ('providers/mysql/gtid/gtid_set.rs', '''                let range = token.split('-').collect::<Vec<&str>>();
                let interval = match range.len() {
                    1 => Interval::new(range[0].parse()?, range[0].parse()?),
                    2 => Interval::new(range[0].parse()?, range[1].parse()?),
                    _ => return Err(Error::String(format!("Invalid interval format {}", token))),
                };
                if interval.start == 0
                    || interval.start > interval.end
                    || interval.end >= i64::MAX as u64
                {
                    return Err(Error::String(format!("Invalid interval range {}", token)));
                }
                intervals.push(interval);''', '''                intervals.push(parse_interval(token)?);'''), ('providers/mysql/gtid/gtid_set.rs', '''impl fmt::Display for GtidSet {''', '''fn parse_interval(token: &str) -> Result<Interval, Error> {
    let range = token.split('-').collect::<Vec<&str>>();
    let interval = match range.len() {
        1 => Interval::new(range[0].parse()?, range[0].parse()?),
        2 => Interval::new(range[0].parse()?, range[1].parse()?),
        _ => return Err(Error::String(format!("Invalid interval format {}", token))),
    };
    if interval.start == 0
        || interval.start > interval.end
        || interval.end >= i64::MAX as u64
    {
        return Err(Error::String(format!("Invalid interval range {}", token)));
    }
    Ok(interval)
}

impl fmt::Display for GtidSet {'''))
r('gtid-list-position', ('providers/mariadb/gtid/gtid_list.rs', '''        for i in 0..self.gtids.len() {
            if self.gtids[i].domain_id == gtid.domain_id {
                self.gtids[i] = gtid;
                return false;
            }
        }
        self.gtids.push(gtid);
        true''', '''        match self.gtids.iter().position(|x| x.domain_id == gtid.domain_id) {
            Some(i) => {
                self.gtids[i] = gtid;
                false
            }
            None => {
                self.gtids.push(gtid);
                true
            }
        }'''))
r('gtid-list-itermut', ('providers/mariadb/gtid/gtid_list.rs', '''        for i in 0..self.gtids.len() {
            if self.gtids[i].domain_id == gtid.domain_id {
                self.gtids[i] = gtid;
                return false;
            }
        }''', '''        for existing in self.gtids.iter_mut() {
            if existing.domain_id == gtid.domain_id {
                *existing = gtid;
                return false;
            }
        }'''))
r('gtid-list-insert', ('providers/mariadb/gtid/gtid_list.rs', '''            if domain_map.contains(&domain_id) {
                return Err(Error::String(format!(
                    "GtidList must consist of unique domain ids"
                )));
            } else {
                domain_map.insert(domain_id);
            }
''', '''            if !domain_map.insert(domain_id) {
                return Err(Error::String(format!(
                    "GtidList must consist of unique domain ids"
                )));
            }
'''))
r('reader-helper', ('binlog_reader.rs', '''            match self.parser.parse_event(&header, &vec) {
                Ok(binlog_event) => Ok((header, binlog_event)),
                Err(error) => Err(malformed_event(error)),
            }
        } else {''', '''            let binlog_event = self.parser.parse_event(&header, &vec).map_err(malformed_event)?;
            Ok((header, binlog_event))
        } else {'''))
r('reader-next', ('binlog_reader.rs', '''        let result = self.read_event();
        if let Err(error) = &result {
            if let Error::IoError(io_error) = error {
                if let ErrorKind::UnexpectedEof = io_error.kind() {
                    return None;
                }
            }
        }
        Some(result)''', '''        match self.read_event() {
            Err(Error::IoError(e)) if e.kind() == ErrorKind::UnexpectedEof => None,
            result => Some(result),
        }'''))
r('reader-length-helper', ('binlog_reader.rs', '''        if (header.event_length as usize) < EVENT_HEADER_SIZE {
            return Err(Error::String("Invalid binary log event length".to_string()));
        }

        let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;''', '''        let payload_length = payload_length(&header)?;'''), ('binlog_reader.rs', '''/// The whole event was read,''', '''fn payload_length(header: &EventHeader) -> Result<usize, Error> {
    if (header.event_length as usize) < EVENT_HEADER_SIZE {
        return Err(Error::String("Invalid binary log event length".to_string()));
    }
    Ok(header.event_length as usize - EVENT_HEADER_SIZE)
}

/// The whole event was read,'''))
r('handshake-helper', ('responses/handshake_packet.rs', '''        let mut capability_flags_1 = vec![0u8; 2];
        cursor.read_exact(&mut capability_flags_1)?;
''', '''        let capability_flags_1 = read_bytes(&mut cursor, 2)?;
'''), ('responses/handshake_packet.rs', '''        let mut capability_flags_3 = vec![0u8; 4];
        cursor.read_exact(&mut capability_flags_3)?;
''', '''        let capability_flags_3 = read_bytes(&mut cursor, 4)?;
'''), ('responses/handshake_packet.rs', '''impl HandshakePacket {''', '''fn read_bytes(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<Vec<u8>, Error> {
    let mut bytes = vec![0u8; size];
    cursor.read_exact(&mut bytes)?;
    Ok(bytes)
}

impl HandshakePacket {'''))
r('handshake-numbers', ('responses/handshake_packet.rs', '''        if (server_capabilities & capability_flags::SECURE_CONNECTION) > 0 {''', '''        let secure_connection = server_capabilities & capability_flags::SECURE_CONNECTION != 0;
        if secure_connection {'''))
r('connect-ask', ('connect.rs', '''            let (packet, _seq_num) = channel.read_packet()?;
            check_error_packet(&packet, "Authentication error.")?;
            return Ok(());
        }

        let mut password''', '''            return self.expect_ok(channel, "Authentication error.");
        }

        let mut password'''), ('connect.rs', '''        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
        let (packet, _seq_num) = channel.read_packet()?;
        check_error_packet(&packet, "Authentication error.")?;
        Ok(())
    }''', '''        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
        self.expect_ok(channel, "Authentication error.")
    }

    fn expect_ok(&self, channel: &mut PacketChannel, message: &str) -> Result<(), Error> {
        let (packet, _seq_num) = channel.read_packet()?;
        check_error_packet(&packet, message)?;
        Ok(())
    }'''))
r('connect-plugin-match', ('connect.rs', '''        if auth_plugin_name == auth_plugin_names::MY_SQL_NATIVE_PASSWORD {
            return Ok(AuthPlugin::MySqlNativePassword);
        }
        if auth_plugin_name == auth_plugin_names::CACHING_SHA2_PASSWORD {
            return Ok(AuthPlugin::CachingSha2Password);
        }
        let message = format!("{} auth plugin is not supported.", auth_plugin_name);
        Err(Error::String(message.to_string()))''', '''        match auth_plugin_name.as_str() {
            auth_plugin_names::MY_SQL_NATIVE_PASSWORD => Ok(AuthPlugin::MySqlNativePassword),
            auth_plugin_names::CACHING_SHA2_PASSWORD => Ok(AuthPlugin::CachingSha2Password),
            _ => {
                let message = format!("{} auth plugin is not supported.", auth_plugin_name);
                Err(Error::String(message))
            }
        }'''))
r('configure-execute', ('configure.rs', '''        let command = QueryCommand::new(query.to_string());
        channel.write_packet(&command.serialize()?, 0)?;
        let (packet, _) = channel.read_packet()?;
        check_error_packet(&packet, "Setting master heartbeat error.")?;
        Ok(())
    }''', '''        Self::execute(channel, query, "Setting master heartbeat error.")
    }

    fn execute(channel: &mut PacketChannel, query: String, message: &str) -> Result<(), Error> {
        let command = QueryCommand::new(query);
        channel.write_packet(&command.serialize()?, 0)?;
        let (packet, _) = channel.read_packet()?;
        check_error_packet(&packet, message)?;
        Ok(())
    }'''), ('configure.rs', '''        let command =
            QueryCommand::new("SET @master_binlog_checksum= @@global.binlog_checksum".to_string());
        channel.write_packet(&command.serialize()?, 0)?;
        let (packet, _) = channel.read_packet()?;
        check_error_packet(&packet, "Setting master_binlog_checksum error.")?;
''', '''        Self::execute(
            channel,
            "SET @master_binlog_checksum= @@global.binlog_checksum".to_string(),
            "Setting master_binlog_checksum error.",
        )?;
'''))
r('configure-rows-helper', ('configure.rs', '''        loop {
            // Skip through metadata
            let (packet, _) = channel.read_packet()?;
            check_error_packet(&packet, "Reading result set metadata error.")?;
            if packet[0] == ResponseType::END_OF_FILE {
                break;
            }
        }
''', '''        self.skip_metadata(channel)?;
'''), ('configure.rs', '''    fn read_result_set(''', '''    fn skip_metadata(&self, channel: &mut PacketChannel) -> Result<(), Error> {
        loop {
            // Skip through metadata
            let (packet, _) = channel.read_packet()?;
            check_error_packet(&packet, "Reading result set metadata error.")?;
            if packet[0] == ResponseType::END_OF_FILE {
                break;
            }
        }
        Ok(())
    }

    fn read_result_set('''))
r('mariadb-loop', ('providers/mariadb/mariadb_provider.rs', '''    let command = QueryCommand::new("SET @slave_gtid_strict_mode=0".to_string());
    channel.write_packet(&command.serialize()?, 0)?;
    let (packet, _) = channel.read_packet()?;
    check_error_packet(&packet, "Setting @slave_gtid_strict_mode error.")?;

    let command = QueryCommand::new("SET @slave_gtid_ignore_duplicates=0".to_string());
    channel.write_packet(&command.serialize()?, 0)?;
    let (packet, _) = channel.read_packet()?;
    check_error_packet(&packet, "Setting @slave_gtid_ignore_duplicates error.")?;
''', '''    for name in ["@slave_gtid_strict_mode", "@slave_gtid_ignore_duplicates"] {
        let command = QueryCommand::new(format!("SET {}=0", name));
        channel.write_packet(&command.serialize()?, 0)?;
        let (packet, _) = channel.read_packet()?;
        check_error_packet(&packet, &format!("Setting {} error.", name))?;
    }
'''))
r('client-commit-helper', ('binlog_client.rs', '''                if x.sql_statement.is_empty() {
                    return;
                }
                if x.sql_statement == "BEGIN" {
                    self.transaction = true;
                } else if x.sql_statement == "COMMIT" || x.sql_statement == "ROLLBACK" {
                    self.commit_gtid();
                } else if !self.transaction {
                    // Auto-commit query like DDL
                    self.commit_gtid();
                }''', '''                self.update_from_query(&x.sql_statement);'''), ('binlog_client.rs', '''    fn update_binlog_position(''', '''    fn update_from_query(&mut self, sql_statement: &str) {
        if sql_statement.is_empty() {
            return;
        }
        match sql_statement {
            "BEGIN" => self.transaction = true,
            "COMMIT" | "ROLLBACK" => self.commit_gtid(),
            _ => {
                if !self.transaction {
                    // Auto-commit query like DDL
                    self.commit_gtid();
                }
            }
        }
    }

    fn update_binlog_position('''))
r('client-position', ('binlog_client.rs', '''            _ => {
                if header.next_event_position > 0 {
                    self.options.binlog.position = header.next_event_position;
                }
            }''', '''            _ if header.next_event_position > 0 => {
                self.options.binlog.position = header.next_event_position;
            }
            _ => {}'''))
r('query-reorder', ('events/query_event.rs', '''        let mut status_variables: Vec<u8> = vec![0; status_variable_length as usize];
        cursor.read_exact(&mut status_variables[0..status_variable_length as usize])?;''', '''        let status_variable_length = status_variable_length as usize;
        let mut status_variables = vec![0u8; status_variable_length];
        cursor.read_exact(&mut status_variables)?;'''))
r('table-map-metadata', ('events/table_map_event.rs', '''        let mut table_metadata = None;
        if cursor.position() < cursor.get_ref().len() as u64 {
            // Table metadata is supported in MySQL 5.6+ and MariaDB 10.5+.
            table_metadata = Some(TableMetadata::parse(cursor, &column_types)?);
        }
''', '''        // Table metadata is supported in MySQL 5.6+ and MariaDB 10.5+.
        let table_metadata = if cursor.position() < cursor.get_ref().len() as u64 {
            Some(TableMetadata::parse(cursor, &column_types)?)
        } else {
            None
        };
'''))
r('table-map-groups', ('events/table_map_event.rs', '''                ColumnType::Geometry => cursor.read_u8()? as u16,
                ColumnType::Json => cursor.read_u8()? as u16,
                ColumnType::TinyBlob => cursor.read_u8()? as u16,
                ColumnType::MediumBlob => cursor.read_u8()? as u16,''', '''                ColumnType::Geometry
                | ColumnType::Json
                | ColumnType::TinyBlob
                | ColumnType::MediumBlob => cursor.read_u8()? as u16,'''))
r('table-map-name-helper', ('events/table_map_event.rs', '''        // Database name is null terminated
        let database_name_length = cursor.read_u8()?;
        let database_name = read_string(cursor, database_name_length as usize)?;
        cursor.seek(SeekFrom::Current(1))?;

        // Table name is null terminated
        let table_name_length = cursor.read_u8()?;
        let table_name = read_string(cursor, table_name_length as usize)?;
        cursor.seek(SeekFrom::Current(1))?;
''', '''        let database_name = TableMapEvent::parse_name(cursor)?;
        let table_name = TableMapEvent::parse_name(cursor)?;
'''), ('events/table_map_event.rs', '''    fn parse_metadata(''', '''    /// Names are null terminated
    fn parse_name(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
        let length = cursor.read_u8()?;
        let name = read_string(cursor, length as usize)?;
        cursor.seek(SeekFrom::Current(1))?;
        Ok(name)
    }

    fn parse_metadata('''))
r('decimal-helper', ('events/row_events/decimal.rs', '''    let length = (uncompressed_integral << 2)
        + COMPRESSED_BYTES[compressed_integral as usize]
        + (uncompressed_fractional << 2)
        + COMPRESSED_BYTES[compressed_fractional as usize];
''', '''    let integral_length = (uncompressed_integral << 2) + COMPRESSED_BYTES[compressed_integral as usize];
    let fractional_length =
        (uncompressed_fractional << 2) + COMPRESSED_BYTES[compressed_fractional as usize];
    let length = integral_length + fractional_length;
'''))
r('decimal-push', ('events/row_events/decimal.rs', '''        result += "-";
        for i in 0..value.len() {
            value[i] ^= 0xFF;
        }''', '''        result += "-";
        for byte in value.iter_mut() {
            *byte = !*byte;
        }'''))
r('parser-checksum-helper', ('events/event_parser.rs', '''        let mut cursor = match self.checksum_type {
            ChecksumType::None => Cursor::new(slice),
            ChecksumType::Crc32 => {
                if slice.len() < CHECKSUM_SIZE {
                    return Err(Error::String("Event has no checksum".to_string()));
                }
                Cursor::new(&slice[0..slice.len() - 4])
            }
        };
''', '''        let mut cursor = Cursor::new(self.strip_checksum(slice)?);
'''), ('events/event_parser.rs', '''    pub fn parse_event(''', '''    fn strip_checksum<'a>(&self, slice: &'a [u8]) -> Result<&'a [u8], Error> {
        match self.checksum_type {
            ChecksumType::None => Ok(slice),
            ChecksumType::Crc32 => {
                if slice.len() < CHECKSUM_SIZE {
                    return Err(Error::String("Event has no checksum".to_string()));
                }
                Ok(&slice[..slice.len() - CHECKSUM_SIZE])
            }
        }
    }

    pub fn parse_event('''))
r('parser-remember', ('events/event_parser.rs', '''        if let BinlogEvent::FormatDescriptionEvent(x) = &binlog_event {
            self.checksum_type = x.checksum_type;
        }

        if let BinlogEvent::TableMapEvent(x) = &binlog_event {
            self.table_map.insert(x.table_id, x.clone()); //todo: optimize
        }
''', '''        match &binlog_event {
            BinlogEvent::FormatDescriptionEvent(x) => {
                self.checksum_type = x.checksum_type;
            }
            BinlogEvent::TableMapEvent(x) => {
                self.table_map.insert(x.table_id, x.clone()); //todo: optimize
            }
            _ => {}
        }
'''))
r('channel-frame', ('packet_channel.rs', '''        let packet_len = packet.len() as u32;
        self.stream.write_u24::<LittleEndian>(packet_len)?;''', '''        self.stream.write_u24::<LittleEndian>(packet.len() as u32)?;'''))
r('channel-size', ('packet_channel.rs', '''        let mut packet: Vec<u8> = vec![0; packet_size as usize];
        self.stream.read_exact(&mut packet)?;

        Ok((packet, seq_num))''', '''        let packet = self.read_body(packet_size as usize)?;
        Ok((packet, seq_num))'''), ('packet_channel.rs', '''    pub fn write_packet(''', '''    fn read_body(&mut self, size: usize) -> Result<Vec<u8>, io::Error> {
        let mut body = vec![0u8; size];
        self.stream.read_exact(&mut body)?;
        Ok(body)
    }

    pub fn write_packet('''))
r('channel-build', ('packet_channel.rs', '''        let packet_len = packet.len() as u32;
        self.stream.write_u24::<LittleEndian>(packet_len)?;
        self.stream.write_u8(seq_num)?;
        self.stream.write_all(packet)?;''', '''        let mut buffer = Vec::with_capacity(PACKET_HEADER_SIZE + packet.len());
        buffer.write_u24::<LittleEndian>(packet.len() as u32)?;
        buffer.push(seq_num);
        buffer.extend_from_slice(packet);
        self.stream.write_all(&buffer)?;'''))
r('events-next', ('binlog_events.rs', '''        match packet[0] {
            ResponseType::OK => Some(self.read_event(&packet)),
            ResponseType::ERROR => Some(self.read_error(&packet)),
            ResponseType::END_OF_FILE => {
                let _ = EndOfFilePacket::parse(&packet[1..]);
                None
            }''', '''        let status = packet[0];
        match status {
            ResponseType::END_OF_FILE => None,
            ResponseType::ERROR => Some(self.read_error(&packet)),
            ResponseType::OK => Some(self.read_event(&packet)),'''), ('binlog_events.rs', '''use crate::responses::end_of_file_packet::EndOfFilePacket;
''', ''))

# ---- second set: smaller rewrites, each function in a style of its own
C='events/row_events/col_parser.rs'
r('date-masks', (C, '''    let day = value % (1 << 5);
    let month = (value >> 5) % (1 << 4);''', '''    let day = value & 0x1F;
    let month = (value >> 5) & 0x0F;'''))
r('time-no-mut', (C, '''    let mut value = (cursor.read_i24::<LittleEndian>()? << 8) >> 8;
''', '''    let value = cursor.read_i24::<LittleEndian>()?;
'''), (C, '''    let second = value % 100;
    value = value / 100;
    let minute = value % 100;
    value = value / 100;
    let hour = value;
    Ok(Time {''', '''    let second = value % 100;
    let minute = (value / 100) % 100;
    let hour = value / 10000;
    Ok(Time {'''))
r('time2-sign', (C, '''    let negative = ((value >> 23) & 1) == 0;
    if negative {''', '''    let positive = (value & 0x80_0000) != 0;
    if !positive {'''))
r('time2-masks', (C, '''    let hour = (value >> 12) % (1 << 10);
    let minute = (value >> 6) % (1 << 6);
    let second = value % (1 << 6);

    Ok(Time {''', '''    let hour = (value >> 12) & 0x3FF;
    let minute = (value >> 6) & 0x3F;
    let second = value & 0x3F;

    Ok(Time {'''))
r('datetime-helper', (C, '''    let mut value = cursor.read_u64::<LittleEndian>()?;
    let second = value % 100;
    value = value / 100;
    let minute = value % 100;
    value = value / 100;
    let hour = value % 100;
    value = value / 100;
    let day = value % 100;
    value = value / 100;
    let month = value % 100;
    value = value / 100;
    let year = value;
''', '''    let mut value = cursor.read_u64::<LittleEndian>()?;
    let second = next_part(&mut value);
    let minute = next_part(&mut value);
    let hour = next_part(&mut value);
    let day = next_part(&mut value);
    let month = next_part(&mut value);
    let year = value;
'''), (C, '''pub fn parse_date_time(''', '''fn next_part(value: &mut u64) -> u64 {
    let part = *value % 100;
    *value /= 100;
    part
}

pub fn parse_date_time('''))
r('datetime-assign-ops', (C, '''    let mut value = cursor.read_u64::<LittleEndian>()?;
    let second = value % 100;
    value = value / 100;
    let minute = value % 100;
    value = value / 100;
    let hour = value % 100;
    value = value / 100;
    let day = value % 100;
    value = value / 100;
    let month = value % 100;
    value = value / 100;
    let year = value;
''', '''    let mut value = cursor.read_u64::<LittleEndian>()?;
    let second = value % 100;
    value /= 100;
    let minute = value % 100;
    value /= 100;
    let hour = value % 100;
    value /= 100;
    let day = value % 100;
    value /= 100;
    let month = value % 100;
    let year = value / 100;
'''))
r('datetime2-masks', (C, '''    let year_month = (value >> 22) % (1 << 17);
    let year = year_month / 13;
    let month = year_month % 13;
    let day = (value >> 17) % (1 << 5);
    let hour = (value >> 12) % (1 << 5);
    let minute = (value >> 6) % (1 << 6);
    let second = value % (1 << 6);
''', '''    let year_month = (value >> 22) & 0x1FFFF;
    let year = year_month / 13;
    let month = year_month - year * 13;
    let day = (value >> 17) & 0x1F;
    let hour = (value >> 12) & 0x1F;
    let minute = (value >> 6) & 0x3F;
    let second = value & 0x3F;
'''))
r('fraction-match', (C, '''    let length = (metadata + 1) / 2;
    if length == 0 {
        return Ok(0);
    }

    let fraction = cursor.read_uint::<BigEndian>(length as usize)?;
    Ok(fraction * u64::pow(100, 3 - length as u32))''', '''    match (metadata + 1) / 2 {
        0 => Ok(0),
        1 => Ok(cursor.read_u8()? as u64 * 10_000),
        2 => Ok(cursor.read_u16::<BigEndian>()? as u64 * 100),
        _ => Ok(cursor.read_u24::<BigEndian>()? as u64),
    }'''))
r('fraction-first-zero', (C, '''    let length = (metadata + 1) / 2;
    if length == 0 {
        return Ok(0);
    }
''', '''    if metadata == 0 {
        return Ok(0);
    }
    let length = (metadata + 1) / 2;
'''))
r('timestamp2-inline', (C, '''    let seconds = cursor.read_u32::<BigEndian>()? as u64;
    let millisecond = parse_fractional_part(cursor, metadata)? / 1000;
    let timestamp = seconds * 1000 + millisecond;
    Ok(timestamp)''', '''    let seconds = u64::from(cursor.read_u32::<BigEndian>()?);
    let micros = parse_fractional_part(cursor, metadata)?;
    Ok(seconds * 1_000 + micros / 1_000)'''))
r('string-match', (C, '''    let length = if metadata < 256 {
        cursor.read_u8()? as usize
    } else {
        cursor.read_u16::<LittleEndian>()? as usize
    };
    Ok(read_string(cursor, length)?)''', '''    let length = match metadata {
        0..=255 => usize::from(cursor.read_u8()?),
        _ => usize::from(cursor.read_u16::<LittleEndian>()?),
    };
    read_string(cursor, length)'''))
r('string-flipped', (C, '''    let length = if metadata < 256 {
        cursor.read_u8()? as usize
    } else {
        cursor.read_u16::<LittleEndian>()? as usize
    };''', '''    let long_prefix = metadata > 255;
    let length = if long_prefix {
        cursor.read_u16::<LittleEndian>()? as usize
    } else {
        cursor.read_u8()? as usize
    };'''))
r('bit-parts', (C, '''    let length = (metadata >> 8) * 8 + (metadata & 0xFF);
    let mut bitmap = read_bitmap_big_endian(cursor, length as usize)?;''', '''    let bytes = (metadata >> 8) as usize;
    let bits = (metadata & 0xFF) as usize;
    let mut bitmap = read_bitmap_big_endian(cursor, bytes * 8 + bits)?;'''))
r('blob-read-vec', (C, '''    let mut vec = vec![0; length];
    cursor.read_exact(&mut vec)?;
    Ok(vec)''', '''    let mut blob: Vec<u8> = vec![0u8; length];
    cursor.read_exact(blob.as_mut_slice())?;
    Ok(blob)'''))
r('year-if', (C, '''    match cursor.read_u8()? as u16 {
        0 => Ok(0),
        value => Ok(1900 + value),
    }''', '''    let value = cursor.read_u8()? as u16;
    if value == 0 {
        return Ok(0);
    }
    Ok(value + 1900)'''))
X='extensions.rs'
r('lenenc-ranges', (X, '''    if first_byte < 0xFB {
        Ok(first_byte as usize)
    } else if first_byte == 0xFB {
        Err(Error::String(
            "Length encoded integer cannot be NULL.".to_string(),
        ))
    } else if first_byte == 0xFC {
        Ok(cursor.read_u16::<LittleEndian>()? as usize)
    } else if first_byte == 0xFD {
        Ok(cursor.read_u24::<LittleEndian>()? as usize)
    } else if first_byte == 0xFE {
        Ok(cursor.read_u64::<LittleEndian>()? as usize)
    } else {
        let value = format!("Unexpected length-encoded integer: {}", first_byte).to_string();
        Err(Error::String(value))
    }''', '''    let value = match first_byte {
        0x00..=0xFA => first_byte as usize,
        0xFC => cursor.read_u16::<LittleEndian>()? as usize,
        0xFD => cursor.read_u24::<LittleEndian>()? as usize,
        0xFE => cursor.read_u64::<LittleEndian>()? as usize,
        0xFB => {
            return Err(Error::String(
                "Length encoded integer cannot be NULL.".to_string(),
            ))
        }
        _ => {
            return Err(Error::String(format!(
                "Unexpected length-encoded integer: {}",
                first_byte
            )))
        }
    };
    Ok(value)'''))
r('remaining-compare-2', (X, '''    let remaining = (cursor.get_ref().len() as u64).saturating_sub(cursor.position());
    if size as u64 > remaining {''', '''    let length = cursor.get_ref().len() as u64;
    let position = cursor.position().min(length);
    let enough = size as u64 <= length - position;
    if !enough {'''))
r('null-term-if-let', (X, '''    if vec.last() == Some(&NULL_TERMINATOR) {
        vec.pop();
    }''', '''    if let Some(&NULL_TERMINATOR) = vec.last() {
        vec.pop();
    }'''))
r('null-term-truncate', (X, '''    if vec.last() == Some(&NULL_TERMINATOR) {
        vec.pop();
    }''', '''    if !vec.is_empty() && vec[vec.len() - 1] == NULL_TERMINATOR {
        vec.truncate(vec.len() - 1);
    }'''))
r('null-term-write', (X, '''    cursor.write(str.as_bytes())?;
    cursor.write_u8(NULL_TERMINATOR)?;
    Ok(())''', '''    let bytes = str.as_bytes();
    cursor.write_all(bytes)?;
    cursor.write_u8(NULL_TERMINATOR)'''))
r('check-error-negated', (X, '''    if packet[0] == ResponseType::ERROR {
        let error = ErrorPacket::parse(&packet[1..])?;
        let message = format!("{} {:?}", message, error).to_string();
        return Err(Error::String(message));
    }
    return Ok(());''', '''    if packet[0] != ResponseType::ERROR {
        return Ok(());
    }
    let error = ErrorPacket::parse(&packet[1..])?;
    Err(Error::String(format!("{} {:?}", message, error)))'''))
r('read-string-split', (X, '''    let mut vec = vec![0; size];
    cursor.read_exact(&mut vec)?;
    Ok(String::from_utf8(vec)?)''', '''    let mut bytes: Vec<u8> = vec![0; size];
    cursor.read_exact(&mut bytes)?;
    let text = String::from_utf8(bytes)?;
    Ok(text)'''))
r('sized-uint-range', (X, '''    if size < 1 || size > 8 {
        return''', '''    if !(1..=8).contains(&size) {
        return'''))
r('sized-uint-match', (X, '''    if size < 1 || size > 8 {
        return Err(Error::String(format!("Invalid integer size {}", size)));
    }
    Ok(cursor.read_uint::<LittleEndian>(size as usize)?)''', '''    match size {
        1..=8 => Ok(cursor.read_uint::<LittleEndian>(size as usize)?),
        _ => Err(Error::String(format!("Invalid integer size {}", size))),
    }'''))
r('bitmap-guard', (X, '''        for y in 0..8 {
            let index = ((bytes_number - i - 1) << 3) + y;
            if index >= bits_number {
                continue;
            }
            result[index] = (value & (1 << y)) > 0;
        }''', '''        let start = (bytes_number - 1 - i) * 8;
        for y in 0..8 {
            if start + y < bits_number {
                result[start + y] = value & (1 << y) != 0;
            }
        }'''))
r('bitmap-push', (X, '''    check_remaining(cursor, bits_number / 8)?;
    let mut result = vec![false; bits_number];
    let bytes_number = (bits_number + 7) / 8;
    for i in 0..bytes_number {
        let value = cursor.read_u8()?;
        for y in 0..8 {
            let index = (i << 3) + y;
            if index == bits_number {
                break;
            }
            result[index] = (value & (1 << y)) > 0;
        }
    }
    Ok(result)''', '''    check_remaining(cursor, bits_number / 8)?;
    let mut result = vec![false; bits_number];
    let mut value = 0u8;
    for index in 0..bits_number {
        if index % 8 == 0 {
            value = cursor.read_u8()?;
        }
        result[index] = (value >> (index % 8)) & 1 == 1;
    }
    Ok(result)'''))
E='commands/../extensions.rs'
r('password-lets', (X, '''            let password_hash = sha1(password.as_bytes());
            let concat_hash = [scramble.as_bytes().to_vec(), sha1(&password_hash)].concat();
            xor(&password_hash, &sha1(&concat_hash))''', '''            let password_hash = sha1(password.as_bytes());
            let mut concat_hash = scramble.as_bytes().to_vec();
            concat_hash.extend_from_slice(&sha1(&password_hash));
            let mask = sha1(&concat_hash);
            xor(&password_hash, &mask)'''))
W='events/row_events/row_parser.rs'
r('head-helper', (W, '''    // Ignore extra data from newer versions of events
    if row_event_version == 2 {
        let extra_data_length = cursor.read_u16::<LittleEndian>()?;
        let skip = extra_data_length as i64 - 2;
        cursor.seek(SeekFrom::Current(skip))?;
    }
''', '''    if row_event_version == 2 {
        skip_extra_data(cursor)?;
    }
'''), (W, '''pub fn parse_row(''', '''/// Ignore extra data from newer versions of events
fn skip_extra_data(cursor: &mut Cursor<&[u8]>) -> Result<(), Error> {
    let extra_data_length = cursor.read_u16::<LittleEndian>()?;
    let skip = extra_data_length as i64 - 2;
    cursor.seek(SeekFrom::Current(skip))?;
    Ok(())
}

pub fn parse_row('''))
r('row-null-index', (W, '''    let mut skipped_columns = 0;
    for i in 0..table_map.column_types.len() {
        // Data is missing if binlog_row_image != full
        if !columns_present[i] {
            skipped_columns += 1;
            row.push(None);
        }
        // Column is present and has null value
        else if null_bitmap[i - skipped_columns] {
            row.push(None);
        }''', '''    let mut null_index = 0;
    for i in 0..table_map.column_types.len() {
        // Data is missing if binlog_row_image != full
        if !columns_present[i] {
            row.push(None);
            continue;
        }
        let is_null = null_bitmap[null_index];
        null_index += 1;
        // Column is present and has null value
        if is_null {
            row.push(None);
        }'''))
r('row-nested', (W, '''        // Data is missing if binlog_row_image != full
        if !columns_present[i] {
            skipped_columns += 1;
            row.push(None);
        }
        // Column is present and has null value
        else if null_bitmap[i - skipped_columns] {
            row.push(None);
        }
        // Column has data
        else {
            let mut column_type = table_map.column_types[i];
            let mut metadata = table_map.column_metadata[i];
            if ColumnType::from_code(column_type)? == ColumnType::String {
                get_actual_string_type(&mut column_type, &mut metadata);
            }
            row.push(Some(parse_cell(cursor, column_type, metadata)?));
        }''', '''        let cell = if !columns_present[i] {
            skipped_columns += 1;
            None
        } else if null_bitmap[i - skipped_columns] {
            None
        } else {
            let mut column_type = table_map.column_types[i];
            let mut metadata = table_map.column_metadata[i];
            if ColumnType::from_code(column_type)? == ColumnType::String {
                get_actual_string_type(&mut column_type, &mut metadata);
            }
            Some(parse_cell(cursor, column_type, metadata)?)
        };
        row.push(cell);'''))
r('cell-or-patterns', (W, '''        ColumnType::String => MySqlValue::String(parse_string(cursor, metadata)?),
        ColumnType::VarChar => MySqlValue::String(parse_string(cursor, metadata)?),
        ColumnType::VarString => MySqlValue::String(parse_string(cursor, metadata)?),''', '''        ColumnType::String | ColumnType::VarChar | ColumnType::VarString => {
            MySqlValue::String(parse_string(cursor, metadata)?)
        }'''), (W, '''        ColumnType::TinyBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
        ColumnType::MediumBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
        ColumnType::LongBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
        ColumnType::Blob => MySqlValue::Blob(parse_blob(cursor, metadata)?),''', '''        ColumnType::TinyBlob
        | ColumnType::MediumBlob
        | ColumnType::LongBlob
        | ColumnType::Blob => MySqlValue::Blob(parse_blob(cursor, metadata)?),'''))
r('cell-type-once', (W, '''    let value = match ColumnType::from_code(column_type)? {''', '''    let column = ColumnType::from_code(column_type)?;
    let value = match column {'''), (W, '''                "Parsing column type {:?} is not supported",
                ColumnType::from_code(column_type)?''', '''                "Parsing column type {:?} is not supported",
                column'''))
r('rows-ok-or-else', (W, '''    let table = match table_map.get(&table_id) {
        Some(x) => x,
        None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
    };

    check_columns_number(table, columns_present)?;''', '''    let table = table_map
        .get(&table_id)
        .ok_or_else(|| Error::String(TABLE_MAP_NOT_FOUND.to_string()))?;
    check_columns_number(table, columns_present)?;'''))
r('rows-let-else', (W, '''    let table = match table_map.get(&table_id) {
        Some(x) => x,
        None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
    };

    check_columns_number(table, columns_present)?;''', '''    let Some(table) = table_map.get(&table_id) else {
        return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string()));
    };

    check_columns_number(table, columns_present)?;'''))
r('rows-end-local', (W, '''    let cells_included = get_bits_number(columns_present);
    let mut rows = Vec::new();
    while cursor.position() < cursor.get_ref().len() as u64 {''', '''    let end = cursor.get_ref().len() as u64;
    let cells_included = get_bits_number(columns_present);
    let mut rows = Vec::new();
    while cursor.position() < end {'''))
r('rows-image-helper', (W, '''        let row_before_update = parse_row(
            cursor,
            table,
            columns_before_update,
            cells_included_before_update,
        )?;
        let row_after_update = parse_row(
            cursor,
            table,
            columns_after_update,
            cells_included_after_update,
        )?;
        rows.push(UpdateRowData::new(row_before_update, row_after_update));''', '''        let before = parse_row(cursor, table, columns_before_update, cells_included_before_update)?;
        let after = parse_row(cursor, table, columns_after_update, cells_included_after_update)?;
        rows.push(UpdateRowData::new(before, after));'''))
r('columns-number-ok-first', (W, '''    if columns.len() != table.column_types.len() {
        return Err(Error::String(
            "The row event doesn't match columns of the table map event".to_string(),
        ));
    }
    Ok(())''', '''    if columns.len() == table.column_types.len() {
        return Ok(());
    }
    Err(Error::String(
        "The row event doesn't match columns of the table map event".to_string(),
    ))'''))
M='metadata/table_metadata.rs'
r('reverted-shift', (M, '''            // The difference from ReadBitmap is that bits are reverted
            result[index] = (value & (1 << (7 - y))) > 0;''', '''            // The difference from ReadBitmap is that bits are reverted
            result[index] = (value & (0x80 >> y)) != 0;'''))
r('numeric-or', (M, '''            ColumnType::Tiny => count += 1,
            ColumnType::Short => count += 1,
            ColumnType::Int24 => count += 1,
            ColumnType::Long => count += 1,
            ColumnType::LongLong => count += 1,
            ColumnType::Float => count += 1,
            ColumnType::Double => count += 1,
            ColumnType::NewDecimal => count += 1,''', '''            ColumnType::Tiny
            | ColumnType::Short
            | ColumnType::Int24
            | ColumnType::Long
            | ColumnType::LongLong
            | ColumnType::Float
            | ColumnType::Double
            | ColumnType::NewDecimal => count += 1,'''))
r('numeric-foreach', (M, '''    for i in 0..column_types.len() {
        match ColumnType::from_code(column_types[i])? {''', '''    for column_type in column_types {
        match ColumnType::from_code(*column_type)? {'''))
r('int-array-inline', (M, '''        let value = read_len_enc_num(cursor)?;
        result.push(value as u32);
    }
    Ok(result)''', '''        result.push(read_len_enc_num(cursor)? as u32);
    }
    Ok(result)'''))
r('metadata-block-helper', (M, '''            let metadata_length = read_len_enc_num(cursor)?;

            check_remaining(cursor, metadata_length)?;
            let mut metadata = vec![0u8; metadata_length];
            cursor.read_exact(&mut metadata)?;
''', '''            let metadata = read_block(cursor)?;
'''), (M, '''fn parse_int_array(''', '''fn read_block(cursor: &mut Cursor<&[u8]>) -> Result<Vec<u8>, Error> {
    let length = read_len_enc_num(cursor)?;
    check_remaining(cursor, length)?;
    let mut block = vec![0u8; length];
    cursor.read_exact(&mut block)?;
    Ok(block)
}

fn parse_int_array('''))
r('type-values-helper', (M, '''        let length = read_len_enc_num(cursor)?;
        let mut type_values = Vec::new();
        for _i in 0..length {
            type_values.push(read_len_enc_str(cursor)?);
        }
        result.push(type_values);''', '''        result.push(parse_values(cursor)?);'''), (M, '''fn parse_default_charser(''', '''fn parse_values(cursor: &mut Cursor<&[u8]>) -> Result<Vec<String>, Error> {
    let length = read_len_enc_num(cursor)?;
    let mut values = Vec::new();
    for _ in 0..length {
        values.push(read_len_enc_str(cursor)?);
    }
    Ok(values)
}

fn parse_default_charser('''))
r('charset-inline', (M, '''    let default_collation = read_len_enc_num(cursor)?;
    let charset_collations = parse_int_map(cursor)?;
    Ok(DefaultCharset::new(
        default_collation as u32,
        charset_collations,
    ))''', '''    let default_collation = read_len_enc_num(cursor)? as u32;
    Ok(DefaultCharset::new(default_collation, parse_int_map(cursor)?))'''))
r('uservar-helper', ('events/uservar_event.rs', '''        let var_type = cursor.read_u8()?;
        let collation = cursor.read_u32::<LittleEndian>()?;

        let value_len = cursor.read_u32::<LittleEndian>()?;
        let value = read_string(cursor, value_len as usize)?;

        let flags = cursor.read_u8()?;

        Ok(Self {
            name,
            value: Some(VariableValue {
                var_type,
                collation,
                value,
                flags,
            }),
        })
    }''', '''        let value = VariableValue::parse(cursor)?;
        Ok(Self {
            name,
            value: Some(value),
        })
    }'''), ('events/uservar_event.rs', '''impl UserVarEvent {''', '''impl VariableValue {
    fn parse(cursor: &mut Cursor<&[u8]>) -> Result<Self, Error> {
        let var_type = cursor.read_u8()?;
        let collation = cursor.read_u32::<LittleEndian>()?;

        let value_len = cursor.read_u32::<LittleEndian>()?;
        let value = read_string(cursor, value_len as usize)?;

        let flags = cursor.read_u8()?;

        Ok(Self {
            var_type,
            collation,
            value,
            flags,
        })
    }
}

impl UserVarEvent {'''))
r('fde-version', ('events/format_description_event.rs', '''        let mut slice: &[u8] = &server_version;
        if let Some(zero_index) = server_version.iter().position(|&b| b == 0) {
            slice = &server_version[..zero_index];
        }
        let server_version = std::str::from_utf8(slice)?.to_string();''', '''        let length = server_version
            .iter()
            .position(|&b| b == 0)
            .unwrap_or(server_version.len());
        let server_version = std::str::from_utf8(&server_version[..length])?.to_string();'''))
r('fde-match', ('events/format_description_event.rs', '''        let mut slice: &[u8] = &server_version;
        if let Some(zero_index) = server_version.iter().position(|&b| b == 0) {
            slice = &server_version[..zero_index];
        }''', '''        let slice: &[u8] = match server_version.iter().position(|&b| b == 0) {
            Some(zero_index) => &server_version[..zero_index],
            None => &server_version,
        };'''))
r('header-lets', ('events/event_header.rs', '''        Ok(Self {
            timestamp: cursor.read_u32::<LittleEndian>()?,
            event_type: cursor.read_u8()?,
            server_id: cursor.read_u32::<LittleEndian>()?,''', '''        let timestamp = cursor.read_u32::<LittleEndian>()?;
        let event_type = cursor.read_u8()?;
        let server_id = cursor.read_u32::<LittleEndian>()?;
        Ok(Self {
            timestamp,
            event_type,
            server_id,'''))
r('rows-query-shared', ('events/rows_query_event.rs', '''        cursor.seek(SeekFrom::Current(1))?;

        let mut query = String::new();
        cursor.read_to_string(&mut query)?;

        Ok(Self { query })''', '''        cursor.seek(SeekFrom::Current(1))?;
        Self::parse_mariadb(cursor)'''))
r('query-status', ('events/query_event.rs', '''        let mut status_variables: Vec<u8> = vec![0; status_variable_length as usize];
        cursor.read_exact(&mut status_variables[0..status_variable_length as usize])?;''', '''        let mut status_variables = vec![0u8; status_variable_length as usize];
        cursor.read_exact(&mut status_variables)?;'''))
G='providers/mysql/gtid/'
r('uuid-format', (G+'uuid.rs', '''        let mut uuid = hex::encode(data);
        uuid.insert(20, '-');
        uuid.insert(16, '-');
        uuid.insert(12, '-');
        uuid.insert(8, '-');
        Self { data, uuid }''', '''        let hex = hex::encode(data);
        let uuid = format!(
            "{}-{}-{}-{}-{}",
            &hex[0..8],
            &hex[8..12],
            &hex[12..16],
            &hex[16..20],
            &hex[20..32]
        );
        Self { data, uuid }'''))
r('uuid-loop', (G+'uuid.rs', '''        uuid.insert(20, '-');
        uuid.insert(16, '-');
        uuid.insert(12, '-');
        uuid.insert(8, '-');''', '''        for index in [20, 16, 12, 8] {
            uuid.insert(index, '-');
        }'''))
r('find-match', (G+'uuid_set.rs', '''        if interval.end < transaction_id {
            left_index = result_index + 1;
        } else if transaction_id < interval.start {
            right_index = result_index;
        } else {
            return result_index;
        }''', '''        if interval.start <= transaction_id && transaction_id <= interval.end {
            return result_index;
        }
        if transaction_id > interval.end {
            left_index = result_index + 1;
        } else {
            right_index = result_index;
        }'''))
r('find-mid', (G+'uuid_set.rs', '''        result_index = (left_index + right_index) / 2;''', '''        result_index = left_index + (right_index - left_index) / 2;'''))
r('collapse-max', (G+'uuid_set.rs', '''            if right_end > left.end {
                left.end = right_end;
            }''', '''            left.end = left.end.max(right_end);'''))
r('collapse-index', (G+'uuid_set.rs', '''    while index < intervals.len() - 1 {
        let right_start = intervals[index + 1].start;
        let right_end = intervals[index + 1].end;
''', '''    while index + 1 < intervals.len() {
        let right = &intervals[index + 1];
        let (right_start, right_end) = (right.start, right.end);
'''))
r('uuid-set-early', (G+'uuid_set.rs', '''        let mut added = false;
        if index < self.intervals.len() {
            let interval = &mut self.intervals[index];
            if interval.start == gtid.transaction_id + 1 {
                interval.start = gtid.transaction_id;
                added = true;
            } else if interval.end + 1 == gtid.transaction_id {
                interval.end = gtid.transaction_id;
                added = true;
            } else if interval.start <= gtid.transaction_id && gtid.transaction_id <= interval.end {
                return Ok(false);
            }
        }''', '''        let mut added = false;
        let id = gtid.transaction_id;
        if index < self.intervals.len() {
            let interval = &mut self.intervals[index];
            if interval.start <= id && id <= interval.end {
                return Ok(false);
            }
            if interval.start == id + 1 {
                interval.start = id;
                added = true;
            } else if interval.end + 1 == id {
                interval.end = id;
                added = true;
            }
        }'''))
r('gset-display-sort', (G+'gtid_set.rs', '''        uuids.sort();
        write!(f, "{}", uuids.join(","))''', '''        uuids.sort_unstable();
        let text = uuids.join(",");
        f.write_str(&text)'''))
r('gset-add-match', (G+'gtid_set.rs', '''        let uuid_set = self
            .uuid_sets
            .entry(gtid.source_id.uuid.clone())
            .or_insert(UuidSet::new(gtid.source_id.clone(), Vec::new()));

        Ok(uuid_set.add_gtid(gtid)?)''', '''        let key = gtid.source_id.uuid.clone();
        let empty = UuidSet::new(gtid.source_id.clone(), Vec::new());
        let uuid_set = self.uuid_sets.entry(key).or_insert(empty);
        uuid_set.add_gtid(gtid)'''))
r('gset-add-or-insert-with', (G+'gtid_set.rs', '''            .or_insert(UuidSet::new(gtid.source_id.clone(), Vec::new()));''', '''            .or_insert_with(|| UuidSet::new(gtid.source_id.clone(), Vec::new()));'''))
r('interval-display-match', (G+'interval.rs', '''        if self.start == self.end {
            write!(f, "{}", self.start)
        } else {
            write!(f, "{}-{}", self.start, self.end)
        }''', '''        write!(f, "{}", self.start)?;
        if self.start != self.end {
            write!(f, "-{}", self.end)?;
        }
        Ok(())'''))
r('glist-parse-helper', ('providers/mariadb/gtid/gtid_list.rs', '''            let components = gtid.split('-').collect::<Vec<&str>>();
            if components.len() != 3 {
                return Err(Error::String(format!("Invalid gtid format {}", gtid)));
            }
            let domain_id: u32 = components[0].parse()?;
            let server_id: u32 = components[1].parse()?;
            let sequence: u64 = components[2].parse()?;

            if domain_map.contains(&domain_id) {
                return Err(Error::String(format!(
                    "GtidList must consist of unique domain ids"
                )));
            } else {
                domain_map.insert(domain_id);
            }

            gtids.push(Gtid::new(domain_id, server_id, sequence));''', '''            let gtid = parse_gtid(gtid)?;

            if domain_map.contains(&gtid.domain_id) {
                return Err(Error::String(format!(
                    "GtidList must consist of unique domain ids"
                )));
            }
            domain_map.insert(gtid.domain_id);

            gtids.push(gtid);'''), ('providers/mariadb/gtid/gtid_list.rs', '''/// Represents GtidList from MariaDB.''', '''fn parse_gtid(gtid: &str) -> Result<Gtid, Error> {
    let components = gtid.split('-').collect::<Vec<&str>>();
    if components.len() != 3 {
        return Err(Error::String(format!("Invalid gtid format {}", gtid)));
    }
    let domain_id: u32 = components[0].parse()?;
    let server_id: u32 = components[1].parse()?;
    let sequence: u64 = components[2].parse()?;
    Ok(Gtid::new(domain_id, server_id, sequence))
}

/// Represents GtidList from MariaDB.'''))
r('previous-helper', ('providers/mysql/events/prev_gtids_event.rs', '''                let start = cursor.read_u64::<LittleEndian>()?;
                let end = cursor.read_u64::<LittleEndian>()?;
                if end <= start {
                    return Err(Error::String("Invalid interval of gtids".to_string()));
                }
                uuid_set.intervals.push(Interval::new(start, end - 1));''', '''                uuid_set.intervals.push(parse_interval(cursor)?);'''), ('providers/mysql/events/prev_gtids_event.rs', '''impl PreviousGtidsEvent {''', '''fn parse_interval(cursor: &mut Cursor<&[u8]>) -> Result<Interval, Error> {
    let start = cursor.read_u64::<LittleEndian>()?;
    let end = cursor.read_u64::<LittleEndian>()?;
    if end > start {
        Ok(Interval::new(start, end - 1))
    } else {
        Err(Error::String("Invalid interval of gtids".to_string()))
    }
}

impl PreviousGtidsEvent {'''))
r('list-event-vec', ('providers/mariadb/events/gtid_list_event.rs', '''        let mut gtid_list = GtidList::new();
        for _i in 0..gtid_list_len {''', '''        let mut gtids = Vec::new();
        for _i in 0..gtid_list_len {'''), ('providers/mariadb/events/gtid_list_event.rs', '''            let gtid = Gtid::new(domain_id, server_id, sequence);
            gtid_list.gtids.push(gtid);
        }

        Ok(Self { gtid_list })''', '''            gtids.push(Gtid::new(domain_id, server_id, sequence));
        }

        Ok(Self {
            gtid_list: GtidList { gtids },
        })'''))
A='commands/authenticate_command.rs'
r('auth-reserved', (A, '''        for _number in 0..23 {
            cursor.write_u8(0)?;
        }''', '''        cursor.write_all(&[0u8; 23])?;'''))
r('auth-is-some', (A, '''        if let Some(_x) = &options.database {
            client_capabilities |= capability_flags::CONNECT_WITH_DB;
        }

        let client_capabilities = client_capabilities as u32;
''', '''        if options.database.is_some() {
            client_capabilities |= capability_flags::CONNECT_WITH_DB;
        }
        let client_capabilities = client_capabilities as u32;
'''))
r('dump-gtid-helper', ('commands/dump_binlog_gtid_command.rs', '''        let mut data_length = 8; /* Number of uuid_sets */
        for uuid_set in gtid_set.uuid_sets.values() {
            data_length += 16; /* SourceId */
            data_length += 8; /* Number of intervals */
            data_length += uuid_set.intervals.len() * (8 + 8) /* Start-End */;
        }
''', '''        let mut data_length = 8; /* Number of uuid_sets */
        for uuid_set in gtid_set.uuid_sets.values() {
            data_length += 16 + 8 + 16 * uuid_set.intervals.len();
        }
'''))
r('dump-vec', ('commands/dump_binlog_command.rs', '''        let mut vec = Vec::new();
        let mut cursor = Cursor::new(&mut vec);

        cursor.write_u8(CommandType::BinlogDump as u8)?;
        cursor.write_u32::<LittleEndian>(self.binlog_position)?;
        cursor.write_u16::<LittleEndian>(self.flags)?;
        cursor.write_u32::<LittleEndian>(self.server_id)?;
        cursor.write(self.binlog_filename.as_bytes())?;

        Ok(vec)''', '''        let mut vec = Vec::new();
        vec.write_u8(CommandType::BinlogDump as u8)?;
        vec.write_u32::<LittleEndian>(self.binlog_position)?;
        vec.write_u16::<LittleEndian>(self.flags)?;
        vec.write_u32::<LittleEndian>(self.server_id)?;
        vec.extend_from_slice(self.binlog_filename.as_bytes());
        Ok(vec)'''))
r('register-bytes', ('commands/register_slave_command.rs', '''        cursor.write_u8(0)?;
        cursor.write_u8(0)?;
        cursor.write_u8(0)?;
        cursor.write_u16''', '''        for _ in 0..3 {
            cursor.write_u8(0)?;
        }
        cursor.write_u16'''))
B='binlog_client.rs'
r('replicate-if', (B, '''        match provider {
            DatabaseProvider::MariaDB => replicate_mariadb(&mut channel, &self.options, server_id)?,
            DatabaseProvider::MySQL => replicate_mysql(&mut channel, &self.options, server_id)?,
        }

        Ok(BinlogEvents::new(channel, checksum))''', '''        let started = match provider {
            DatabaseProvider::MariaDB => replicate_mariadb(&mut channel, &self.options, server_id),
            DatabaseProvider::MySQL => replicate_mysql(&mut channel, &self.options, server_id),
        };
        started?;

        Ok(BinlogEvents::new(channel, checksum))'''))
r('replicate-server-id', (B, '''        let server_id = if self.options.blocking {
            self.options.server_id
        } else {
            0
        };
''', '''        let server_id = self.dump_server_id();
'''), (B, '''    /// Updates current replication position
''', '''    /// The server ends the stream instead of waiting if the id is zero
    fn dump_server_id(&self) -> u32 {
        match self.options.blocking {
            true => self.options.server_id,
            false => 0,
        }
    }

    /// Updates current replication position
'''))
r('replicate-reset', (B, '''        // Reset on reconnect
        self.transaction = false;
        self.maria_gtid = None;
        self.mysql_gtid = None;
''', '''        self.reset();
'''), (B, '''    /// Updates current replication position
''', '''    /// Reset on reconnect
    fn reset(&mut self) {
        self.mysql_gtid = None;
        self.maria_gtid = None;
        self.transaction = false;
    }

    /// Updates current replication position
'''))
r('commit-gtid-pairs', (B, '''        if let Some(gtid) = &self.maria_gtid {
            if let Some(list) = &mut self.options.binlog.gtid_list {
                list.add_gtid(gtid.clone());
            }
        }''', '''        if let (Some(gtid), Some(list)) = (&self.maria_gtid, &mut self.options.binlog.gtid_list) {
            list.add_gtid(gtid.clone());
        }'''))
r('commit-gtid-order', (B, '''        self.transaction = false;

        if let Some(gtid) = &self.maria_gtid {
            if let Some(list) = &mut self.options.binlog.gtid_list {
                list.add_gtid(gtid.clone());
            }
        }
        if let Some(gtid) = &self.mysql_gtid {
            if let Some(set) = &mut self.options.binlog.gtid_set {
                set.add_gtid(gtid.clone()).unwrap();
            }
        }''', '''        if let Some(gtid) = &self.mysql_gtid {
            if let Some(set) = &mut self.options.binlog.gtid_set {
                set.add_gtid(gtid.clone()).unwrap();
            }
        }
        if let Some(gtid) = &self.maria_gtid {
            if let Some(list) = &mut self.options.binlog.gtid_list {
                list.add_gtid(gtid.clone());
            }
        }
        self.transaction = false;'''))
r('commit-query-match', (B, '''                if x.sql_statement.is_empty() {
                    return;
                }
                if x.sql_statement == "BEGIN" {
                    self.transaction = true;
                } else if x.sql_statement == "COMMIT" || x.sql_statement == "ROLLBACK" {
                    self.commit_gtid();
                } else if !self.transaction {
                    // Auto-commit query like DDL
                    self.commit_gtid();
                }''', '''                match x.sql_statement.as_str() {
                    "" => {}
                    "BEGIN" => self.transaction = true,
                    "COMMIT" | "ROLLBACK" => self.commit_gtid(),
                    // Auto-commit query like DDL
                    _ if !self.transaction => self.commit_gtid(),
                    _ => {}
                }'''))
r('commit-swap', (B, '''        self.update_gtid_position(event);
        self.update_binlog_position(header, event);''', '''        self.update_binlog_position(header, event);
        self.update_gtid_position(event);'''))
r('connect-result', ('connect.rs', '''        match packet[0] {
            ResponseType::OK => return Ok(()),
            ResponseType::AUTH_PLUGIN_SWITCH => {
                let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
                self.handle_auth_plugin_switch(channel, switch_packet, seq_num.wrapping_add(1), use_ssl)?;
                Ok(())
            }''', '''        let next_seq_num = seq_num.wrapping_add(1);
        match packet[0] {
            ResponseType::OK => Ok(()),
            ResponseType::AUTH_PLUGIN_SWITCH => {
                let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
                self.handle_auth_plugin_switch(channel, switch_packet, next_seq_num, use_ssl)
            }'''))
r('connect-rsa-helper', ('connect.rs', '''        // Extract public key.
        let public_key = &packet[1..];
        let encrypted_password = xor(&password, &scramble.as_bytes());

        let rsa = Rsa::public_key_from_pem(public_key)?;
        let mut encrypted_body = vec![0u8; rsa.size() as usize];
        rsa.public_encrypt(
            &encrypted_password,
            &mut encrypted_body,
            Padding::PKCS1_OAEP,
        )?;
''', '''        let encrypted_body = encrypt_with_key(&password, scramble, &packet[1..])?;
'''), ('connect.rs', '''impl BinlogClient {''', '''fn encrypt_with_key(password: &[u8], scramble: &String, public_key: &[u8]) -> Result<Vec<u8>, Error> {
    let encrypted_password = xor(password, scramble.as_bytes());
    let rsa = Rsa::public_key_from_pem(public_key)?;
    let mut encrypted_body = vec![0u8; rsa.size() as usize];
    rsa.public_encrypt(
        &encrypted_password,
        &mut encrypted_body,
        Padding::PKCS1_OAEP,
    )?;
    Ok(encrypted_body)
}

impl BinlogClient {'''))
r('checksum-first', ('configure.rs', '''        if result_set.is_empty() || result_set[0].cells.is_empty() {
            return Err(Error::String(
                "Could not read master binlog checksum.".to_string(),
            ));
        }

        // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
        // In order to deserialize the event we have to obtain checksum type length in advance.
        Ok(ChecksumType::from_name(&result_set[0].cells[0])?)''', '''        let row = match result_set.first() {
            Some(row) if !row.cells.is_empty() => row,
            _ => {
                return Err(Error::String(
                    "Could not read master binlog checksum.".to_string(),
                ))
            }
        };

        // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
        // In order to deserialize the event we have to obtain checksum type length in advance.
        ChecksumType::from_name(&row.cells[0])'''))
r('heartbeat-nanos', ('configure.rs', '''        let milliseconds = self.options.heartbeat_interval.as_millis();
        let nanoseconds = milliseconds * 1000 * 1000;
        let query = format!("set @master_heartbeat_period={}", nanoseconds);
        let command = QueryCommand::new(query.to_string());''', '''        let nanoseconds = self.options.heartbeat_interval.as_millis() * 1_000_000;
        let command = QueryCommand::new(format!("set @master_heartbeat_period={}", nanoseconds));'''))
r('adjust-guard', ('configure.rs', '''        if self.options.binlog.starting_strategy != StartingStrategy::FromEnd {
            return Ok(());
        }

        // Ignore if position was read before in case of reconnect.
        if !self.options.binlog.filename.is_empty() {
            return Ok(());
        }
''', '''        // Ignore if position was read before in case of reconnect.
        let needed = self.options.binlog.starting_strategy == StartingStrategy::FromEnd
            && self.options.binlog.filename.is_empty();
        if !needed {
            return Ok(());
        }
'''))
r('adjust-row', ('configure.rs', '''        self.options.binlog.filename = result_set[0].cells[0].clone();
        self.options.binlog.position = result_set[0].cells[1].parse()?;
        Ok(())''', '''        let cells = &result_set[0].cells;
        self.options.binlog.filename = cells[0].clone();
        self.options.binlog.position = cells[1].parse()?;
        Ok(())'''))
r('reader-next-match', ('binlog_reader.rs', '''        let result = self.read_event();
        if let Err(error) = &result {
            if let Error::IoError(io_error) = error {
                if let ErrorKind::UnexpectedEof = io_error.kind() {
                    return None;
                }
            }
        }
        Some(result)''', '''        match self.read_event() {
            Err(Error::IoError(e)) if e.kind() == ErrorKind::UnexpectedEof => None,
            result => Some(result),
        }'''))
r('reader-map-err', ('binlog_reader.rs', '''            match self.parser.parse_event(&header, &vec) {
                Ok(binlog_event) => Ok((header, binlog_event)),
                Err(error) => Err(malformed_event(error)),
            }''', '''            let binlog_event = self
                .parser
                .parse_event(&header, &vec)
                .map_err(malformed_event)?;
            Ok((header, binlog_event))'''))
r('reader-magic', ('binlog_reader.rs', '''        if header != MAGIC_NUMBER {
            return Err(Error::String("Invalid binary log file header".to_string()));
        }

        Ok(Self {
            stream,
            parser: EventParser::new(),
            payload_buffer: vec![0; constants::PAYLOAD_BUFFER_SIZE],
        })''', '''        if header == MAGIC_NUMBER {
            Ok(Self {
                stream,
                parser: EventParser::new(),
                payload_buffer: vec![0; constants::PAYLOAD_BUFFER_SIZE],
            })
        } else {
            Err(Error::String("Invalid binary log file header".to_string()))
        }'''))
r('events-next-if', ('binlog_events.rs', '''        let (packet, _) = match self.channel.read_packet() {
            Ok(x) => x,
            Err(e) => return Some(Err(Error::IoError(e))),
        };
        match packet[0] {''', '''        let packet = match self.channel.read_packet() {
            Ok((packet, _)) => packet,
            Err(e) => return Some(Err(e.into())),
        };
        match packet[0] {'''))
r('events-read-event', ('binlog_events.rs', '''        let header = EventHeader::parse(&packet[1..])?;
        let event_slice = &packet[1 + EVENT_HEADER_SIZE..];
        let event = self.parser.parse_event(&header, event_slice)?;
        Ok((header, event))''', '''        let packet = &packet[1..];
        let header = EventHeader::parse(packet)?;
        let event = self.parser.parse_event(&header, &packet[EVENT_HEADER_SIZE..])?;
        Ok((header, event))'''))
r('string-type-flip', ('events/row_events/actual_string_type.rs', '''    if (byte0 & 0x30) != 0x30 {
        /* a long CHAR() field: see #37426 */
        *metadata = byte1 | (((byte0 as u16 & 0x30) ^ 0x30) << 4);
        *column_type = byte0 | 0x30;
    } else {
        if byte0 == ColumnType::Enum as u8 || byte0 == ColumnType::Set as u8 {
            *column_type = byte0;
        }
        *metadata = byte1;
    }''', '''    if (byte0 & 0x30) == 0x30 {
        if byte0 == ColumnType::Enum as u8 || byte0 == ColumnType::Set as u8 {
            *column_type = byte0;
        }
        *metadata = byte1;
        return;
    }

    /* a long CHAR() field: see #37426 */
    *metadata = byte1 | (((byte0 as u16 & 0x30) ^ 0x30) << 4);
    *column_type = byte0 | 0x30;'''))
r('decimal-div-rem', ('events/row_events/decimal.rs', '''    let compressed_integral = integral - (uncompressed_integral * DIGITS_PER_INT);
    let compressed_fractional = scale - (uncompressed_fractional * DIGITS_PER_INT);''', '''    let compressed_integral = integral % DIGITS_PER_INT;
    let compressed_fractional = scale % DIGITS_PER_INT;'''))
r('decimal-iter-mut', ('events/row_events/decimal.rs', '''        for i in 0..value.len() {
            value[i] ^= 0xFF;
        }''', '''        for i in 0..value.len() {
            value[i] = !value[i];
        }'''))
r('decimal-sign-if', ('events/row_events/decimal.rs', '''    let negative = (value[0] & 0x80) == 0;
    value[0] ^= 0x80;

    if negative {
        result += "-";''', '''    let negative = value[0] < 0x80;
    value[0] ^= 0x80;

    if negative {
        result.push('-');'''))
r('error-packet-strip', ('responses/error_packet.rs', '''        let mut sql_state = None;
        if error_message.starts_with('#') {
            sql_state = Some(error_message.chars().skip(1).take(5).collect());
            error_message = error_message.chars().skip(6).collect();
        }
''', '''        let sql_state = if error_message.starts_with('#') {
            let state: String = error_message.chars().skip(1).take(5).collect();
            error_message = error_message.chars().skip(6).collect();
            Some(state)
        } else {
            None
        };
'''))
r('parser-by-helper', ('events/event_parser.rs', '''        if let BinlogEvent::FormatDescriptionEvent(x) = &binlog_event {
            self.checksum_type = x.checksum_type;
        }

        if let BinlogEvent::TableMapEvent(x) = &binlog_event {
            self.table_map.insert(x.table_id, x.clone()); //todo: optimize
        }

        Ok(binlog_event)
    }''', '''        self.remember(&binlog_event);
        Ok(binlog_event)
    }

    fn remember(&mut self, event: &BinlogEvent) {
        match event {
            BinlogEvent::FormatDescriptionEvent(x) => self.checksum_type = x.checksum_type,
            BinlogEvent::TableMapEvent(x) => {
                self.table_map.insert(x.table_id, x.clone());
            }
            _ => {}
        }
    }'''))
r('result-row-loop', ('responses/result_set_row_packet.rs', '''        let len = cursor.get_ref().len() as u64;
        let mut cells = Vec::new();

        while cursor.position() < len {
            cells.push(read_len_enc_str(&mut cursor)?);
        }
''', '''        let mut cells = Vec::new();
        while cursor.position() < packet.len() as u64 {
            let cell = read_len_enc_str(&mut cursor)?;
            cells.push(cell);
        }
'''))
