//! Text descriptions of what the code under test returned, in the words of the oracle.
use crate::oracle::{bits, hex, uuid};
use mysql_cdc::events::binlog_event::BinlogEvent as E;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::row_events::mysql_value::MySqlValue as V;
use mysql_cdc::events::row_events::row_data::RowData;
use mysql_cdc::metadata::default_charset::DefaultCharset;
use mysql_cdc::metadata::table_metadata::TableMetadata;

pub fn header(h: &EventHeader) -> String {
    format!("H[{} {} {} {} {} {}]", h.timestamp, h.event_type, h.server_id, h.event_length, h.next_event_position, h.event_flags)
}
fn value(v: &V) -> String {
    match v {
        V::TinyInt(x) => format!("i1:{}", x),
        V::SmallInt(x) => format!("i2:{}", x),
        V::MediumInt(x) => format!("i3:{}", x),
        V::Int(x) => format!("i4:{}", x),
        V::BigInt(x) => format!("i8:{}", x),
        V::Float(x) => format!("f4:{:08x}", x.to_bits()),
        V::Double(x) => format!("f8:{:016x}", x.to_bits()),
        V::Decimal(x) => format!("dec:{}", x),
        V::String(x) => format!("s:{:?}", x),
        V::Bit(x) => format!("bit:{}", bits(x)),
        V::Enum(x) => format!("enum:{}", x),
        V::Set(x) => format!("set:{}", x),
        V::Blob(x) => format!("blob:{}", hex(x)),
        V::Year(x) => format!("y:{}", x),
        V::Date(x) => format!("d:{}-{}-{}", x.year, x.month, x.day),
        V::Time(x) => format!("t:{}:{}:{}.{}", x.hour, x.minute, x.second, x.millis),
        V::DateTime(x) => format!("dt:{}-{}-{} {}:{}:{}.{}", x.year, x.month, x.day, x.hour, x.minute, x.second, x.millis),
        V::Timestamp(x) => format!("ts:{}", x),
    }
}
fn row(r: &RowData) -> String {
    let v: Vec<String> = r.cells.iter().map(|c| match c { None => "-".to_string(), Some(v) => value(v) }).collect();
    format!("({})", v.join("|"))
}
fn cs(c: &DefaultCharset) -> String { format!("{}{:?}", c.default_charset_collation, c.charset_collations) }
fn metadata(m: &TableMetadata) -> [String; 12] {
    fn f<T: std::fmt::Debug>(x: &Option<T>) -> String { match x { None => String::new(), Some(v) => format!("{:?}", v) } }
    fn b(x: &Option<Vec<bool>>) -> String { match x { None => String::new(), Some(v) => bits(v) + "!" } }
    fn c(x: &Option<DefaultCharset>) -> String { match x { None => String::new(), Some(v) => cs(v) } }
    [b(&m.signedness), c(&m.default_charset), f(&m.column_charsets), f(&m.column_names), f(&m.set_string_values), f(&m.enum_string_values),
     f(&m.geometry_types), f(&m.simple_primary_keys), f(&m.primary_keys_with_prefix), c(&m.enum_and_set_default_charset),
     f(&m.enum_and_set_column_charsets), b(&m.column_visibility)]
}
pub fn event(e: &E) -> String {
    match e {
        E::UnknownEvent => "Unknown".to_string(),
        E::WriteRowsEvent(x) => format!("Write[{} {} {} {} ]{}", x.table_id, x.flags, x.columns_number, bits(&x.columns_present), x.rows.iter().map(row).collect::<String>()),
        E::DeleteRowsEvent(x) => format!("Delete[{} {} {} {} ]{}", x.table_id, x.flags, x.columns_number, bits(&x.columns_present), x.rows.iter().map(row).collect::<String>()),
        E::UpdateRowsEvent(x) => format!("Update[{} {} {} {} {}]{}", x.table_id, x.flags, x.columns_number, bits(&x.columns_before_update), bits(&x.columns_after_update),
            x.rows.iter().map(|r| format!("{}=>{}", row(&r.before_update), row(&r.after_update))).collect::<String>()),
        E::XidEvent(x) => format!("Xid[{}]", x.xid),
        E::IntVarEvent(x) => format!("IntVar[{} {}]", x.intvar_type, x.value),
        E::UserVarEvent(x) => match &x.value {
            None => format!("UserVar[{:?} NULL]", x.name),
            Some(v) => format!("UserVar[{:?} {} {} {:?} {}]", x.name, v.var_type, v.collation, v.value, v.flags),
        },
        E::QueryEvent(x) => format!("Query[{} {} {} {:?} {:?} {:?}]", x.thread_id, x.duration, x.error_code, hex(&x.status_variables), x.database_name, x.sql_statement),
        E::TableMapEvent(x) => format!("TableMap[{} {:?} {:?} {:?} {:?} {} {:?}]", x.table_id, x.database_name, x.table_name, x.column_types, x.column_metadata,
            bits(&x.null_bitmap), x.table_metadata.as_ref().map(metadata)),
        E::RotateEvent(x) => format!("Rotate[{} {:?}]", x.binlog_position, x.binlog_filename),
        E::RowsQueryEvent(x) => format!("RowsQuery[{:?}]", x.query),
        E::HeartbeatEvent(x) => format!("Heartbeat[{:?}]", x.binlog_filename),
        E::FormatDescriptionEvent(x) => format!("Fde[{} {:?} {}]", x.binlog_version, x.server_version, format!("{:?}", x.checksum_type) == "Crc32"),
        E::MySqlGtidEvent(x) => format!("MyGtid[{} {} {}]", x.flags,
            if x.gtid.source_id.uuid == uuid(&x.gtid.source_id.data) { x.gtid.source_id.uuid.clone() } else { format!("{:?}", x.gtid.source_id) }, x.gtid.transaction_id),
        E::MySqlPrevGtidsEvent(x) => {
            let mut v: Vec<_> = x.gtid_set.uuid_sets.iter().map(|(k, s)| {
                let same = s.source_id.uuid == *k && uuid(&s.source_id.data) == *k;
                (if same { k.clone() } else { format!("{} != {:?}", k, s.source_id) }, s.intervals.iter().map(|i| (i.start, i.end)).collect::<Vec<_>>())
            }).collect();
            v.sort();
            format!("PrevGtids{:?}", v)
        }
        E::MariaDbGtidEvent(x) => format!("MariaGtid[{}-{}-{} {}]", x.gtid.domain_id, x.gtid.server_id, x.gtid.sequence, x.flags),
        E::MariaDbGtidListEvent(x) => format!("GtidList{:?}", x.gtid_list.gtids.iter().map(|g| format!("{}-{}-{}", g.domain_id, g.server_id, g.sequence)).collect::<Vec<_>>()),
    }
}
