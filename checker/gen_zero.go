package main

// zeroLits are, by the OID of a type, the name of the type and how its zero value is
// written in SQL.
var zeroLits = map[int]struct{ name, lit string }{
	16:   {"Bool", `false`},
	17:   {"Bytea", `'\x'`},
	18:   {"Char", `''`},
	20:   {"Int8", `0`},
	21:   {"Int2", `0`},
	22:   {"Int2Vector", `''`},
	23:   {"Int4", `0`},
	25:   {"Text", `''`},
	30:   {"OIDVector", `''`},
	114:  {"JSON", `'null'`},
	142:  {"XML", `''`},
	143:  {"XMLArr", `'{}'`},
	199:  {"JSONArr", `'{}'`},
	600:  {"Point", `'(0,0)'`},
	601:  {"LSeg", `'[(0,0),(0,0)]'`},
	602:  {"Path", `'((0,0))'`},
	603:  {"Box", `'(0,0),(0,0)'`},
	604:  {"Polygon", `'((0,0))'`},
	629:  {"LineArr", `'{}'`},
	650:  {"CIDR", `'0.0.0.0/0'`},
	651:  {"CIDRArr", `'{}'`},
	700:  {"Float4", `0`},
	701:  {"Float8", `0`},
	718:  {"Circle", `'<(0,0),0>'`},
	719:  {"CircleArr", `'{}'`},
	774:  {"MACAddr8", `'00:00:00:00:00:00:00:00'`},
	775:  {"MACAddr8Arr", `'{}'`},
	790:  {"Money", `0`},
	791:  {"MoneyArr", `'{}'`},
	829:  {"MACAddr", `'00:00:00:00:00:00'`},
	869:  {"Inet", `'0.0.0.0'`},
	1000: {"BoolArr", `'{}'`},
	1001: {"ByteaArr", `'{}'`},
	1002: {"CharArr", `'{}'`},
	1005: {"Int2Arr", `'{}'`},
	1006: {"Int2VectorArr", `'{}'`},
	1007: {"Int4Arr", `'{}'`},
	1009: {"TextArr", `'{}'`},
	1014: {"BPCharArr", `'{}'`},
	1015: {"VarCharArr", `'{}'`},
	1016: {"Int8Arr", `'{}'`},
	1017: {"PointArr", `'{}'`},
	1018: {"LSegArr", `'{}'`},
	1019: {"PathArr", `'{}'`},
	1020: {"BoxArr", `'{}'`},
	1021: {"Float4Arr", `'{}'`},
	1022: {"Float8Arr", `'{}'`},
	1027: {"PolygonArr", `'{}'`},
	1040: {"MACAddrArr", `'{}'`},
	1041: {"InetArr", `'{}'`},
	1042: {"BPChar", `''`},
	1043: {"VarChar", `''`},
	1082: {"Date", `'0001-01-01'`},
	1083: {"Time", `'00:00:00'`},
	1114: {"Timestamp", `'0001-01-01 00:00:00'`},
	1115: {"TimestampArr", `'{}'`},
	1182: {"DateArr", `'{}'`},
	1183: {"TimeArr", `'{}'`},
	1184: {"Timestamptz", `'0001-01-01 00:00:00'`},
	1185: {"TimestamptzArr", `'{}'`},
	1186: {"Interval", `'00:00:00'`},
	1187: {"IntervalArr", `'{}'`},
	1231: {"NumericArr", `'{}'`},
	1266: {"Timetz", `'00:00:00+00'`},
	1270: {"TimetzArr", `'{}'`},
	1560: {"Bit", `'0'`},
	1561: {"BitArr", `'{}'`},
	1562: {"VarBit", `''`},
	1563: {"VarBitArr", `'{}'`},
	1700: {"Numeric", `0`},
	2950: {"UUID", `'00000000-0000-0000-0000-000000000000'`},
	2951: {"UUIDArr", `'{}'`},
	3614: {"TSVector", `''`},
	3615: {"TSQuery", `''`},
	3643: {"TSVectorArr", `'{}'`},
	3645: {"TSQueryArr", `'{}'`},
	3802: {"JSONB", `'null'`},
	3807: {"JSONBArr", `'{}'`},
	3904: {"Int4Range", `'(,)'`},
	3905: {"Int4RangeArr", `'{}'`},
	3906: {"NumRange", `'(,)'`},
	3907: {"NumRangeArr", `'{}'`},
	3908: {"TsRange", `'(,)'`},
	3909: {"TsRangeArr", `'{}'`},
	3910: {"TsTzRange", `'(,)'`},
	3911: {"TsTzRangeArr", `'{}'`},
	3912: {"DateRange", `'(,)'`},
	3913: {"DateRangeArr", `'{}'`},
	3926: {"Int8Range", `'(,)'`},
	3927: {"Int8RangeArr", `'{}'`},
}
