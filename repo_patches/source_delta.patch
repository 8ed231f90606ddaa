From f4657855816f866eeb3732c39953c1d5749c7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 01/40] fix: scanners store nil when the driver delivers NULL

---
 pgsql/daterangearr.go |  2 +-
 pgsql/hstore.go       |  3 +++
 pgsql/hstorearr.go    |  3 +++
 pgsql/inet.go         |  1 +
 pgsql/int4rangearr.go | 24 ++++++++++++------------
 pgsql/int8rangearr.go | 24 ++++++++++++------------
 pgsql/linearr.go      |  1 +
 pgsql/lsegarr.go      |  1 +
 pgsql/macaddr.go      |  1 +
 pgsql/numrangearr.go  | 24 ++++++++++++------------
 pgsql/pointarr.go     |  1 +
 pgsql/time.go         |  2 ++
 pgsql/timetz.go       |  2 ++
 13 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index fe6d628..b8dac6f 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -59,7 +59,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstore.go b/pgsql/hstore.go
index 4797905..225246d 100644
--- a/pgsql/hstore.go
+++ b/pgsql/hstore.go
@@ -68,6 +68,7 @@ func (v hstoreToStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -122,6 +123,7 @@ func (v hstoreToStringPtrMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -177,6 +179,7 @@ func (v hstoreToNullStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstorearr.go b/pgsql/hstorearr.go
index 3cd6860..2a1a943 100644
--- a/pgsql/hstorearr.go
+++ b/pgsql/hstorearr.go
@@ -98,6 +98,7 @@ func (v hstoreArrayToStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -201,6 +202,7 @@ func (v hstoreArrayToStringPtrMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -305,6 +307,7 @@ func (v hstoreArrayToNullStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/inet.go b/pgsql/inet.go
index f4ae042..68c2841 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -83,6 +83,7 @@ func (v inetToIP) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 8732f6a..41d8679 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -160,7 +160,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 416f928..538e7e1 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -160,7 +160,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/linearr.go b/pgsql/linearr.go
index 5d8e7a0..1f13ae4 100644
--- a/pgsql/linearr.go
+++ b/pgsql/linearr.go
@@ -57,6 +57,7 @@ func (v lineArrayToFloat64Array3Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/lsegarr.go b/pgsql/lsegarr.go
index e7c5a0c..5e556b0 100644
--- a/pgsql/lsegarr.go
+++ b/pgsql/lsegarr.go
@@ -59,6 +59,7 @@ func (v lsegArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/macaddr.go b/pgsql/macaddr.go
index 97d9ce3..a472120 100644
--- a/pgsql/macaddr.go
+++ b/pgsql/macaddr.go
@@ -39,6 +39,7 @@ func (v macAddrToHardwareAddr) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 81557f0..9f43001 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -160,7 +160,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/pointarr.go b/pgsql/pointarr.go
index 79aebda..961f867 100644
--- a/pgsql/pointarr.go
+++ b/pgsql/pointarr.go
@@ -55,6 +55,7 @@ func (v pointArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/time.go b/pgsql/time.go
index eab6d66..f0945de 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -43,6 +43,8 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 		*v.val = data
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 88cc3ea..59e7645 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -43,6 +43,8 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 		*v.val = data
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
-- 
2.43.0


From c388e3c4929cb3119df9e8489c0b0039ed820048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 02/40] fix: inet[] columns are read with the scanners, not the
 valuers

---
 internal/postgres/compatibility.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/compatibility.go b/internal/postgres/compatibility.go
index 115333b..80ba236 100644
--- a/internal/postgres/compatibility.go
+++ b/internal/postgres/compatibility.go
@@ -215,8 +215,8 @@ func init_oid2literal() map[compkey]map[analysis.LiteralType]compentry {
 			analysis.LiteralByteSlice: {},
 		},
 		{oid: oid.InetArr}: {
-			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayFromIPSlice"},
-			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayFromIPNetSlice"},
+			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayToIPSlice"},
+			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayToIPNetSlice"},
 			analysis.LiteralString:     {},
 			analysis.LiteralByteSlice:  {},
 		},
-- 
2.43.0


From 966c1c512d2fdc7e52ed15c0d77a1ffe4ec5e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 03/40] fix: quote the zero value literal of lseg

---
 internal/postgres/oid/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 5bd705d..32dbaf0 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -247,7 +247,7 @@ var TypeToZeroValue = map[OID]string{
 	JSONBArr:      `'{}'`,
 	// Line:          `''`,
 	LineArr:        `'{}'`,
-	LSeg:           `[(0,0),(0,0)]`,
+	LSeg:           `'[(0,0),(0,0)]'`,
 	LSegArr:        `'{}'`,
 	MACAddr:        `'00:00:00:00:00:00'`,
 	MACAddrArr:     `'{}'`,
-- 
2.43.0


From b37e7e5ec564f89523a462ca43a7b9b9e111267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 04/40] fix: scanners report unsupported sources and accept
 text instead of silently dropping the value

---
 pgsql/char.go         | 10 +++++++++
 pgsql/cidr.go         |  2 ++
 pgsql/convert_util.go |  8 +++++++-
 pgsql/date.go         | 47 ++++++++++++++++++++++++++++++++++---------
 pgsql/inet.go         |  4 ++++
 pgsql/json.go         | 11 +++++++---
 pgsql/macaddr.go      |  2 ++
 pgsql/time.go         |  5 +++++
 pgsql/timetz.go       |  5 +++++
 pgsql/xml.go          | 11 +++++++---
 10 files changed, 89 insertions(+), 16 deletions(-)

diff --git a/pgsql/char.go b/pgsql/char.go
index 18ff44b..2682d75 100644
--- a/pgsql/char.go
+++ b/pgsql/char.go
@@ -41,13 +41,18 @@ type charToByte struct {
 func (v charToByte) Scan(src interface{}) error {
 	switch data := src.(type) {
 	case string:
+		*v.val = 0
 		if len(data) > 0 {
 			*v.val = data[0]
 		}
 	case []byte:
+		*v.val = 0
 		if len(data) > 0 {
 			*v.val = data[0]
 		}
+	case nil:
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
@@ -67,13 +72,18 @@ type charToRune struct {
 func (v charToRune) Scan(src interface{}) error {
 	switch data := src.(type) {
 	case string:
+		*v.val = 0
 		if len(data) > 0 {
 			*v.val, _ = utf8.DecodeRuneInString(data)
 		}
 	case []byte:
+		*v.val = 0
 		if len(data) > 0 {
 			*v.val, _ = utf8.DecodeRune(data)
 		}
+	case nil:
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
diff --git a/pgsql/cidr.go b/pgsql/cidr.go
index 3534f53..ae3aeee 100644
--- a/pgsql/cidr.go
+++ b/pgsql/cidr.go
@@ -41,6 +41,8 @@ func (v cidrToIPNet) Scan(src interface{}) error {
 		str = s
 	case nil:
 		return nil
+	default:
+		return srcerror(src)
 	}
 
 	_, ipnet, err := net.ParseCIDR(str)
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2a8fd1a..fdc79b8 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"fmt"
 	"time"
 )
 
@@ -25,7 +26,12 @@ func srcbytes(src interface{}) ([]byte, error) {
 	case nil:
 		return nil, nil
 	}
-	return nil, nil // TODO error
+	return nil, srcerror(src)
+}
+
+// srcerror reports a source whose type the scanners do not support.
+func srcerror(src interface{}) error {
+	return fmt.Errorf("pgsql: unsupported scan source type %T", src)
 }
 
 // parse as single bytes
diff --git a/pgsql/date.go b/pgsql/date.go
index 228712c..af02ddf 100644
--- a/pgsql/date.go
+++ b/pgsql/date.go
@@ -25,10 +25,25 @@ type dateToTime struct {
 }
 
 func (v dateToTime) Scan(src interface{}) error {
-	if t, ok := src.(time.Time); ok {
-		*v.val = t.In(time.UTC)
-	} else {
+	switch data := src.(type) {
+	case time.Time:
+		*v.val = data.In(time.UTC)
+	case []byte:
+		t, err := pgparsedate(data)
+		if err != nil {
+			return err
+		}
+		*v.val = t
+	case string:
+		t, err := pgparsedate([]byte(data))
+		if err != nil {
+			return err
+		}
+		*v.val = t
+	case nil:
 		*v.val = time.Time{}
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
@@ -38,10 +53,17 @@ type dateToString struct {
 }
 
 func (v dateToString) Scan(src interface{}) error {
-	if t, ok := src.(time.Time); ok {
-		*v.val = t.Format(dateLayout)
-	} else {
+	switch data := src.(type) {
+	case time.Time:
+		*v.val = data.Format(dateLayout)
+	case []byte:
+		*v.val = string(data)
+	case string:
+		*v.val = data
+	case nil:
 		*v.val = ""
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
@@ -51,10 +73,17 @@ type dateToByteSlice struct {
 }
 
 func (v dateToByteSlice) Scan(src interface{}) error {
-	if t, ok := src.(time.Time); ok {
-		*v.val = []byte(t.Format(dateLayout))
-	} else {
+	switch data := src.(type) {
+	case time.Time:
+		*v.val = []byte(data.Format(dateLayout))
+	case []byte:
+		*v.val = append([]byte{}, data...)
+	case string:
+		*v.val = []byte(data)
+	case nil:
 		*v.val = nil
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
diff --git a/pgsql/inet.go b/pgsql/inet.go
index 68c2841..70ce135 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -50,6 +50,8 @@ func (v inetToIPNet) Scan(src interface{}) error {
 		str = s
 	case nil:
 		return nil
+	default:
+		return srcerror(src)
 	}
 
 	_, ipnet, err := net.ParseCIDR(str)
@@ -85,6 +87,8 @@ func (v inetToIP) Scan(src interface{}) error {
 	case nil:
 		*v.val = nil
 		return nil
+	default:
+		return srcerror(src)
 	}
 
 	*v.val = net.ParseIP(str)
diff --git a/pgsql/json.go b/pgsql/json.go
index 4f8138c..1688bff 100644
--- a/pgsql/json.go
+++ b/pgsql/json.go
@@ -28,8 +28,13 @@ func (j jsontype) Value() (driver.Value, error) {
 }
 
 func (j jsontype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return json.Unmarshal(b, j.val)
+	switch data := src.(type) {
+	case []byte:
+		return json.Unmarshal(data, j.val)
+	case string:
+		return json.Unmarshal([]byte(data), j.val)
+	case nil:
+		return nil
 	}
-	return nil
+	return srcerror(src)
 }
diff --git a/pgsql/macaddr.go b/pgsql/macaddr.go
index a472120..20459ab 100644
--- a/pgsql/macaddr.go
+++ b/pgsql/macaddr.go
@@ -41,6 +41,8 @@ func (v macAddrToHardwareAddr) Scan(src interface{}) error {
 	case nil:
 		*v.val = nil
 		return nil
+	default:
+		return srcerror(src)
 	}
 
 	mac, err := net.ParseMAC(str)
diff --git a/pgsql/time.go b/pgsql/time.go
index f0945de..ac62704 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -27,6 +27,9 @@ func (v timeToString) Scan(src interface{}) error {
 		*v.val = string(data)
 	case string:
 		*v.val = data
+	case nil:
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
@@ -45,6 +48,8 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 		*v.val = []byte(data)
 	case nil:
 		*v.val = nil
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 59e7645..9989140 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -27,6 +27,9 @@ func (v timetzToString) Scan(src interface{}) error {
 		*v.val = string(data)
 	case string:
 		*v.val = data
+	case nil:
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
@@ -45,6 +48,8 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 		*v.val = []byte(data)
 	case nil:
 		*v.val = nil
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
diff --git a/pgsql/xml.go b/pgsql/xml.go
index dac30b4..57f1437 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -21,10 +21,15 @@ type xmltype struct {
 }
 
 func (x xmltype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return xml.Unmarshal(b, x.val)
+	switch data := src.(type) {
+	case []byte:
+		return xml.Unmarshal(data, x.val)
+	case string:
+		return xml.Unmarshal([]byte(data), x.val)
+	case nil:
+		return nil
 	}
-	return nil
+	return srcerror(src)
 }
 
 func (x xmltype) Value() (driver.Value, error) {
-- 
2.43.0


From 766f9e5e5136e1a281fc6e2fb71e0e2fe16e8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 05/40] fix: scanners copy the driver's bytes instead of
 retaining the buffer

---
 pgsql/any.go    | 4 ++++
 pgsql/time.go   | 2 +-
 pgsql/timetz.go | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pgsql/any.go b/pgsql/any.go
index ade61c8..4e87315 100644
--- a/pgsql/any.go
+++ b/pgsql/any.go
@@ -15,6 +15,10 @@ type anyToEmptyInterface struct {
 }
 
 func (v anyToEmptyInterface) Scan(src interface{}) error {
+	if data, ok := src.([]byte); ok {
+		// the driver may reuse the buffer after Scan returns
+		src = append([]byte{}, data...)
+	}
 	*v.val = src
 	return nil
 }
diff --git a/pgsql/time.go b/pgsql/time.go
index ac62704..5a3d906 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -43,7 +43,7 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timeLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
 	case nil:
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 9989140..088ef8f 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -43,7 +43,7 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timetzLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
 	case nil:
-- 
2.43.0


From 37df631210a2bb75f542a8152ce6e97d4a725cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 06/40] fix: numeric[] scanners reject elements that do not fit
 the destination

---
 pgsql/numericarr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pgsql/numericarr.go b/pgsql/numericarr.go
index 0398a41..8948c18 100644
--- a/pgsql/numericarr.go
+++ b/pgsql/numericarr.go
@@ -213,7 +213,7 @@ func (v numericArrayToInt8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int8s := make([]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -262,7 +262,7 @@ func (v numericArrayToInt16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int16s := make([]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -311,7 +311,7 @@ func (v numericArrayToInt32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int32s := make([]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -460,7 +460,7 @@ func (v numericArrayToUint8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint8s := make([]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -509,7 +509,7 @@ func (v numericArrayToUint16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint16s := make([]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -558,7 +558,7 @@ func (v numericArrayToUint32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint32s := make([]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 40de408fc6022d2fcb73ea427db755b5ef9a0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 07/40] fix: numrange converters keep the fraction and money
 converters the exact amount

---
 pgsql/money.go       | 57 +++++++++++++++++++++++++++++++++++++++-----
 pgsql/moneyarr.go    | 11 ++++-----
 pgsql/numrange.go    | 24 +++++++++----------
 pgsql/numrangearr.go | 24 +++++++++----------
 4 files changed, 79 insertions(+), 37 deletions(-)

diff --git a/pgsql/money.go b/pgsql/money.go
index ca05195..dc6062f 100644
--- a/pgsql/money.go
+++ b/pgsql/money.go
@@ -21,9 +21,7 @@ type moneyFromInt64 struct {
 }
 
 func (v moneyFromInt64) Value() (driver.Value, error) {
-	out := []byte{'$'}
-	out = strconv.AppendFloat(out, float64(v.val)/100.0, 'f', 2, 64)
-	return out, nil
+	return pgAppendMoney(nil, v.val), nil
 }
 
 type moneyToInt64 struct {
@@ -38,12 +36,59 @@ func (v moneyToInt64) Scan(src interface{}) error {
 		return nil
 	}
 
-	data = data[1:] // drop $
-	f64, err := strconv.ParseFloat(string(data), 64)
+	i64, err := pgParseMoney(data)
 	if err != nil {
 		return err
 	}
 
-	*v.val = int64(f64 * 100.0)
+	*v.val = i64
 	return nil
 }
+
+// pgAppendMoney appends the PostgreSQL money literal for the given number of cents.
+func pgAppendMoney(buf []byte, val int64) []byte {
+	digits := strconv.AppendInt(nil, val, 10)
+	if digits[0] == '-' {
+		buf = append(buf, '-')
+		digits = digits[1:]
+	}
+	for len(digits) < 3 {
+		digits = append([]byte{'0'}, digits...)
+	}
+
+	n := len(digits) - 2
+	buf = append(buf, '$')
+	buf = append(buf, digits[:n]...)
+	buf = append(buf, '.')
+	return append(buf, digits[n:]...)
+}
+
+// pgParseMoney parses a PostgreSQL money value, e.g. `-$1,234.56`, and returns it as the number of cents.
+func pgParseMoney(data []byte) (int64, error) {
+	digits := make([]byte, 0, len(data)+2)
+	decimals := -1 // the number of digits after the decimal point
+	for _, c := range data {
+		switch c {
+		case '$', ',': // drop
+		case '.':
+			if decimals >= 0 {
+				return 0, strconv.ErrSyntax
+			}
+			decimals = 0
+		default:
+			digits = append(digits, c)
+			if decimals >= 0 {
+				decimals += 1
+			}
+		}
+	}
+	if decimals > 2 || len(digits) == 0 {
+		return 0, strconv.ErrSyntax
+	} else if decimals < 0 {
+		decimals = 0
+	}
+	for ; decimals < 2; decimals++ {
+		digits = append(digits, '0')
+	}
+	return strconv.ParseInt(string(digits), 10, 64)
+}
diff --git a/pgsql/moneyarr.go b/pgsql/moneyarr.go
index ce857b2..c8ca3f9 100644
--- a/pgsql/moneyarr.go
+++ b/pgsql/moneyarr.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyArrayFromInt64Slice returns a driver.Valuer that produces a PostgreSQL money[] from the given Go []int64.
@@ -35,8 +34,7 @@ func (v moneyArrayFromInt64Slice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for i := 0; i < len(v.val); i++ {
-		out = append(out, '$')
-		out = strconv.AppendFloat(out, float64(v.val[i])/100.0, 'f', 2, 64)
+		out = pgAppendMoney(out, v.val[i])
 		out = append(out, ',')
 	}
 
@@ -57,16 +55,15 @@ func (v moneyArrayToInt64Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data) // elements with a thousands separator are quoted
 	int64s := make([]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
-		elems[i] = elems[i][1:] // drop $
-		f64, err := strconv.ParseFloat(string(elems[i]), 64)
+		i64, err := pgParseMoney(elems[i])
 		if err != nil {
 			return err
 		}
 
-		int64s[i] = int64(f64 * 100.0)
+		int64s[i] = i64
 	}
 
 	*v.val = int64s
diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index 407a48b..9c42ff6 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -562,9 +562,9 @@ type numRangeFromFloat32Array2 struct {
 
 func (v numRangeFromFloat32Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[0]), 'f', -1, 32)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[1]), 'f', -1, 32)
 	out = append(out, ')')
 	return out, nil
 }
@@ -581,15 +581,15 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 32); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 32); err != nil {
 			return err
 		}
 	}
@@ -605,9 +605,9 @@ type numRangeFromFloat64Array2 struct {
 
 func (v numRangeFromFloat64Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, v.val[0], 'f', -1, 64)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, v.val[1], 'f', -1, 64)
 	out = append(out, ')')
 	return out, nil
 }
@@ -624,20 +624,20 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 64); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 64); err != nil {
 			return err
 		}
 	}
 
-	v.val[0] = float64(lo)
-	v.val[1] = float64(hi)
+	v.val[0] = lo
+	v.val[1] = hi
 	return nil
 }
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 9f43001..c1a674b 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -771,9 +771,9 @@ func (v numRangeArrayFromFloat32Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, float64(a[0]), 'f', -1, 32)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, float64(a[1]), 'f', -1, 32)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -798,15 +798,15 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 32); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 32); err != nil {
 				return err
 			}
 		}
@@ -834,9 +834,9 @@ func (v numRangeArrayFromFloat64Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, a[0], 'f', -1, 64)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, a[1], 'f', -1, 64)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -861,21 +861,21 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 64); err != nil {
 				return err
 			}
 		}
 
-		ranges[i][0] = float64(lo)
-		ranges[i][1] = float64(hi)
+		ranges[i][0] = lo
+		ranges[i][1] = hi
 	}
 
 	*v.val = ranges
-- 
2.43.0


From 5e434a1c87a47f070c5aa5efc5986c5d687355b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 08/40] fix: quote and escape text elements of array literals,
 and parse them back

---
 pgsql/chararr.go      | 108 +++++++------------------------------
 pgsql/convert_util.go |  89 +++++-------------------------
 pgsql/tsqueryarr.go   |  72 +++++--------------------
 pgsql/tsvectorarr.go  | 122 ++++++------------------------------------
 pgsql/uuidarr.go      |  58 +++++---------------
 pgsql/varbitarr.go    |  29 ++--------
 6 files changed, 76 insertions(+), 402 deletions(-)

diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index c0992be..98b7ef8 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -55,33 +55,13 @@ func (v charArrayFromString) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	out := make([]byte, 1, (len(v.val)*2)+1)
-	out[0] = '{'
-
+	out := []byte{'{'}
 	for _, r := range v.val {
-		switch r {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
-			out = append(out, '"', byte(r), '"', ',')
-		case '"', '\\':
-			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
-		default:
-			if size := utf8.RuneLen(r); size > 1 {
-				p := make([]byte, size+1, size+1)
-				utf8.EncodeRune(p, r)
-				p[size] = ','
-
-				out = append(out, p...)
-			} else {
-				out = append(out, byte(r), ',')
-			}
-		}
+		out = pgAppendQuote1(out, []byte(string(r)))
+		out = append(out, ',')
 	}
 
-	out[len(out)-1] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -113,25 +93,13 @@ func (v charArrayFromByteSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	out := make([]byte, 1, (len(v.val)*2)+1)
-	out[0] = '{'
-
+	out := []byte{'{'}
 	for _, b := range v.val {
-		switch b {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
-			out = append(out, '"', b, '"', ',')
-		case '"', '\\':
-			out = append(out, '"', '\\', b, '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
-		default:
-			out = append(out, b, ',')
-		}
+		out = pgAppendQuote1(out, []byte{b})
+		out = append(out, ',')
 	}
 
-	out[len(out)-1] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -164,33 +132,13 @@ func (v charArrayFromRuneSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	out := make([]byte, 1, (len(v.val)*2)+1)
-	out[0] = '{'
-
+	out := []byte{'{'}
 	for _, r := range v.val {
-		switch r {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
-			out = append(out, '"', byte(r), '"', ',')
-		case '"', '\\':
-			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
-		default:
-			if size := utf8.RuneLen(r); size > 1 {
-				p := make([]byte, size+1, size+1)
-				utf8.EncodeRune(p, r)
-				p[size] = ','
-
-				out = append(out, p...)
-			} else {
-				out = append(out, byte(r), ',')
-			}
-		}
+		out = pgAppendQuote1(out, []byte(string(r)))
+		out = append(out, ',')
 	}
 
-	out[len(out)-1] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -223,34 +171,14 @@ func (v charArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	out := make([]byte, 1, (len(v.val)*2)+1)
-	out[0] = '{'
-
-	for _, v := range v.val {
-		r, size := utf8.DecodeRuneInString(v)
-		switch r {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
-			out = append(out, '"', byte(r), '"', ',')
-		case '"', '\\':
-			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
-		default:
-			if size > 1 {
-				p := make([]byte, size+1, size+1)
-				utf8.EncodeRune(p, r)
-				p[size] = ','
-
-				out = append(out, p...)
-			} else {
-				out = append(out, byte(r), ',')
-			}
-		}
+	out := []byte{'{'}
+	for _, s := range v.val {
+		_, size := utf8.DecodeRuneInString(s) // one character per element
+		out = pgAppendQuote1(out, []byte(s[:size]))
+		out = append(out, ',')
 	}
 
-	out[len(out)-1] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index fdc79b8..c1c5aa2 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -37,55 +37,24 @@ func srcerror(src interface{}) error {
 // parse as single bytes
 func pgparsearray2(a []byte) (out []byte) {
 	out = make([]byte, 0, len(a))
-
-	a = a[1 : len(a)-1] // drop curly braces
-
-	for i := 0; i < len(a); i++ {
-		if a[i] == '"' {
-			if a[i+1] == '\\' {
-				out = append(out, a[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, a[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if a[i] != ',' {
-			out = append(out, a[i])
+	for _, elem := range pgParseStringArray(a) {
+		if len(elem) == 0 { // NULL or empty?
+			elem = []byte{0}
 		}
+		out = append(out, elem...)
 	}
-
 	return out
 }
 
 // parse as single runes
 func pgparsearray3(a []byte) (out []rune) {
 	out = make([]rune, 0)
-
-	a = a[1 : len(a)-1] // drop curly braces
-	r := bytes.Runes(a)
-
-	for i := 0; i < len(r); i++ {
-		if r[i] == '"' {
-			if r[i+1] == '\\' {
-				out = append(out, r[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, r[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if r[i] != ',' {
-			out = append(out, r[i])
+	for _, elem := range pgParseStringArray(a) {
+		if len(elem) == 0 { // NULL or empty?
+			elem = []byte{0}
 		}
+		out = append(out, bytes.Runes(elem)...)
 	}
-
 	return out
 }
 
@@ -279,7 +248,7 @@ mainloop:
 				}
 			}
 		case 'N': // NULL?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
+			if len(a) > i+3 && string(a[i:i+4]) == `NULL` && (len(a) == i+4 || a[i+4] == ',') {
 				out = append(out, []byte(nil))
 				i = i + 3
 				continue mainloop
@@ -650,44 +619,14 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 	if len(a) == 0 {
 		return out // nothing to do if empty
 	}
-	a = a[1 : len(a)-1] // drop array delimiters
 
-	for i := 0; i < len(a); i++ {
-		switch a[i] {
-		case '"': // quoted element
-			vector := [][]byte{}
-
-			k := i + 1 // vector start
-			for j := k; j < len(a); j++ {
-				if a[j] == '"' { // vector end
-					vector = append(vector, a[k:j])
-					i = j + 1
-					break
-				}
-				if a[j] == ' ' {
-					vector = append(vector, a[k:j])
-					k = j + 1
-				}
-			}
-
-			out = append(out, vector)
-		case 'N': // NULL element?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
-				out = append(out, [][]byte(nil))
-				i = i + 3
-			}
-		default: // unquoted element
-			k, j := i, i // elem start
-			for ; j < len(a); j++ {
-				if a[j] == ',' { // elem end
-					i = j
-					break
-				}
-			}
-			out = append(out, [][]byte{a[k:j]})
+	for _, elem := range pgParseStringArray(a) {
+		if elem == nil { // NULL element?
+			out = append(out, [][]byte(nil))
+		} else {
+			out = append(out, bytes.Split(elem, []byte{' '}))
 		}
 	}
-
 	return out
 }
 
diff --git a/pgsql/tsqueryarr.go b/pgsql/tsqueryarr.go
index 2b8d3e7..4dc80b8 100644
--- a/pgsql/tsqueryarr.go
+++ b/pgsql/tsqueryarr.go
@@ -36,32 +36,13 @@ func (v tsQueryArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		size += len(v.val[i]) // length of the element
+	out := []byte{'{'}
+	for _, s := range v.val {
+		out = pgAppendQuote1(out, []byte(s))
+		out = append(out, ',')
 	}
 
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-		out[pos] = '"'
-		pos += 1
-
-		length := len(v.val[i])
-		copy(out[pos:pos+length], v.val[i])
-		pos += length
-
-		out[pos] = '"'
-		pos += 1
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -99,46 +80,17 @@ func (v tsQueryArrayFromByteSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 2 // len(`NULL`) - 2 double quotes
-		} else {
-			size += len(v.val[i]) // length of the element
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-
-		if v.val[i] == nil {
-			out[pos+0] = 'N'
-			out[pos+1] = 'U'
-			out[pos+2] = 'L'
-			out[pos+3] = 'L'
-			pos += 4
+	out := []byte{'{'}
+	for _, s := range v.val {
+		if s == nil {
+			out = append(out, 'N', 'U', 'L', 'L')
 		} else {
-			out[pos] = '"'
-			pos += 1
-
-			length := len(v.val[i])
-			copy(out[pos:pos+length], v.val[i])
-			pos += length
-
-			out[pos] = '"'
-			pos += 1
+			out = pgAppendQuote1(out, s)
 		}
-
-		out[pos] = ','
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
diff --git a/pgsql/tsvectorarr.go b/pgsql/tsvectorarr.go
index fe117a0..920a704 100644
--- a/pgsql/tsvectorarr.go
+++ b/pgsql/tsvectorarr.go
@@ -1,8 +1,10 @@
 package pgsql
 
 import (
+	"bytes"
 	"database/sql"
 	"database/sql/driver"
+	"strings"
 )
 
 // TSVectorArrayFromStringSliceSlice returns a driver.Valuer that produces a PostgreSQL tsvector[] from the given Go [][]string.
@@ -36,63 +38,17 @@ func (v tsVectorArrayFromStringSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
+	out := []byte{'{'}
+	for _, a := range v.val {
+		if a == nil {
+			out = append(out, 'N', 'U', 'L', 'L')
 		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
+			out = pgAppendQuote1(out, []byte(strings.Join(a, " ")))
 		}
+		out = append(out, ',')
 	}
 
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
-			continue
-		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
-			continue
-		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
-		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -142,63 +98,17 @@ func (v tsVectorArrayFromByteSliceSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
+	out := []byte{'{'}
+	for _, a := range v.val {
+		if a == nil {
+			out = append(out, 'N', 'U', 'L', 'L')
 		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
+			out = pgAppendQuote1(out, bytes.Join(a, []byte{' '}))
 		}
+		out = append(out, ',')
 	}
 
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
-			continue
-		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
-			continue
-		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
-		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
diff --git a/pgsql/uuidarr.go b/pgsql/uuidarr.go
index 7095a42..da3a7b4 100644
--- a/pgsql/uuidarr.go
+++ b/pgsql/uuidarr.go
@@ -104,26 +104,13 @@ func (v uuidArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := 2 + (len(v.val) - 1)
-	for i := 0; i < len(v.val); i++ {
-		size += len(v.val[i])
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-
-		length := len(v.val[i])
-		copy(out[pos:pos+length], v.val[i])
-
-		pos += length
-		out[pos] = ','
+	out := []byte{'{'}
+	for _, s := range v.val {
+		out = pgAppendQuote1(out, []byte(s))
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -161,38 +148,17 @@ func (v uuidArrayFromByteSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := 2 + (len(v.val) - 1)
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 4 // len("NULL")
-		} else {
-			size += len(v.val[i])
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-
-		if v.val[i] == nil {
-			out[pos+0] = 'N'
-			out[pos+1] = 'U'
-			out[pos+2] = 'L'
-			out[pos+3] = 'L'
-			pos += 4
+	out := []byte{'{'}
+	for _, s := range v.val {
+		if s == nil {
+			out = append(out, 'N', 'U', 'L', 'L')
 		} else {
-			length := len(v.val[i])
-			copy(out[pos:pos+length], v.val[i])
-			pos += length
+			out = pgAppendQuote1(out, s)
 		}
-
-		out[pos] = ','
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
diff --git a/pgsql/varbitarr.go b/pgsql/varbitarr.go
index a73bba0..5c7a55c 100644
--- a/pgsql/varbitarr.go
+++ b/pgsql/varbitarr.go
@@ -245,31 +245,10 @@ func (v varBitArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := 2 + (len(v.val) - 1)
-	for i := 0; i < len(v.val); i++ {
-		if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
-		} else {
-			size += len(v.val[i])
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	idx := 1
-	for i := 0; i < len(v.val); i++ {
-		if length := len(v.val[i]); length == 0 {
-			out[idx+0] = '"'
-			out[idx+1] = '"'
-			idx += 2
-		} else {
-			copy(out[idx:idx+length], []byte(v.val[i]))
-			idx += length
-		}
-
-		out[idx] = ','
-		idx += 1
+	out := []byte{'{'}
+	for _, s := range v.val {
+		out = pgAppendQuote1(out, []byte(s))
+		out = append(out, ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
-- 
2.43.0


From d735f59acf531abe11bef8679b526a6712b79d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 09/40] fix: times keep microseconds and the whole zone offset

---
 pgsql/convert_util.go   | 38 ++++++++++++++++++++++++++++++++++----
 pgsql/timestamptzarr.go |  2 +-
 pgsql/timetzarr.go      |  2 +-
 pgsql/tstzrange.go      |  4 ++--
 pgsql/tstzrangearr.go   |  4 ++--
 5 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index c1c5aa2..42ee9b5 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -7,12 +7,13 @@ import (
 	"time"
 )
 
+// The layouts retain PostgreSQL's microsecond resolution and the whole zone offset.
 const (
 	dateLayout        = "2006-01-02"
-	timeLayout        = "15:04:05.999"
-	timetzLayout      = "15:04:05.999-07:00"
-	timestampLayout   = "2006-01-02 15:04:05.999"
-	timestamptzLayout = "2006-01-02 15:04:05.999-07"
+	timeLayout        = "15:04:05.999999"
+	timetzLayout      = "15:04:05.999999-07:00"
+	timestampLayout   = "2006-01-02 15:04:05.999999"
+	timestamptzLayout = "2006-01-02 15:04:05.999999-07:00:00"
 )
 
 var noZone = time.FixedZone("", 0)
@@ -177,6 +178,35 @@ func pgparsedate(a []byte) (time.Time, error) {
 	return time.ParseInLocation(dateLayout, string(a), time.UTC)
 }
 
+// pgparsetimetz parses a timetz, the zone of which PostgreSQL prints as
+// either ±hh, ±hh:mm, or ±hh:mm:ss.
+func pgparsetimetz(a []byte) (time.Time, error) {
+	switch pgzonelen(a) {
+	case len("-07"):
+		return time.Parse("15:04:05-07", string(a))
+	case len("-07:00:00"):
+		return time.Parse("15:04:05-07:00:00", string(a))
+	}
+	return time.Parse("15:04:05-07:00", string(a))
+}
+
+// pgparsetimestamptz parses a timestamptz, the zone of which PostgreSQL prints
+// as either ±hh, ±hh:mm, or ±hh:mm:ss.
+func pgparsetimestamptz(a []byte, loc *time.Location) (time.Time, error) {
+	switch pgzonelen(a) {
+	case len("-07"):
+		return time.ParseInLocation("2006-01-02 15:04:05-07", string(a), loc)
+	case len("-07:00:00"):
+		return time.ParseInLocation("2006-01-02 15:04:05-07:00:00", string(a), loc)
+	}
+	return time.ParseInLocation("2006-01-02 15:04:05-07:00", string(a), loc)
+}
+
+// pgzonelen returns the length of the zone offset at the end of a.
+func pgzonelen(a []byte) int {
+	return len(a) - bytes.LastIndexAny(a, "+-")
+}
+
 func pgParseRange(a []byte) (out [2][]byte) {
 	a = a[1 : len(a)-1] // drop range delimiters
 
diff --git a/pgsql/timestamptzarr.go b/pgsql/timestamptzarr.go
index 7bd4dc3..2457c30 100644
--- a/pgsql/timestamptzarr.go
+++ b/pgsql/timestamptzarr.go
@@ -66,7 +66,7 @@ func (v timestamptzArrayToTimeSlice) Scan(src interface{}) error {
 		}
 
 		ts = ts[1 : len(ts)-1] // drop surrounding double quotes
-		t, err := time.Parse(timestamptzLayout, string(ts))
+		t, err := pgparsetimestamptz(ts, time.Local)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/timetzarr.go b/pgsql/timetzarr.go
index 101ac5e..ad7ae4a 100644
--- a/pgsql/timetzarr.go
+++ b/pgsql/timetzarr.go
@@ -57,7 +57,7 @@ func (v timetzArrayToTimeSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	times := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
-		t, err := time.Parse(timetzLayout, string(elems[i]))
+		t, err := pgparsetimetz(elems[i])
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 6e6ac60..3cae3b4 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -51,14 +51,14 @@ func (v tstzRangeToTimeArray2) Scan(src interface{}) error {
 	if len(elems[0]) > 0 {
 		s := elems[0]
 		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if lo, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		if lo, err = pgparsetimestamptz(s, time.Local); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
 		s := elems[1]
 		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if hi, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		if hi, err = pgparsetimestamptz(s, time.Local); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/tstzrangearr.go b/pgsql/tstzrangearr.go
index 04543f8..085ad8f 100644
--- a/pgsql/tstzrangearr.go
+++ b/pgsql/tstzrangearr.go
@@ -69,11 +69,11 @@ func (v tstzRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		a[1] = a[1][2 : len(a[1])-2]
 
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestamptzLayout, string(a[0]), noZone)
+		t0, err = pgparsetimestamptz(a[0], noZone)
 		if err != nil {
 			return err
 		}
-		t1, err = time.ParseInLocation(timestamptzLayout, string(a[1]), noZone)
+		t1, err = pgparsetimestamptz(a[1], noZone)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 780994f47fe47e546aa5334020fd1f8fc9dfcef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 10/40] fix: inet scanners report bad addresses and keep the
 host part, nil addresses in arrays become NULL

---
 pgsql/cidrarr.go    |  6 +++++-
 pgsql/inet.go       | 28 ++++++++++++++++++++++++----
 pgsql/inetarr.go    | 30 ++++++++++++++++++++++++------
 pgsql/macaddrarr.go |  6 +++++-
 4 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/pgsql/cidrarr.go b/pgsql/cidrarr.go
index 5830403..1e53c28 100644
--- a/pgsql/cidrarr.go
+++ b/pgsql/cidrarr.go
@@ -30,7 +30,11 @@ func (v cidrArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for i := 0; i < len(v.val); i++ {
-		out = append(out, []byte(v.val[i].String())...)
+		if len(v.val[i].IP) == 0 && len(v.val[i].Mask) == 0 {
+			out = append(out, 'N', 'U', 'L', 'L')
+		} else {
+			out = append(out, []byte(v.val[i].String())...)
+		}
 		out = append(out, ',')
 	}
 
diff --git a/pgsql/inet.go b/pgsql/inet.go
index 70ce135..9d6a5f2 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -54,11 +54,11 @@ func (v inetToIPNet) Scan(src interface{}) error {
 		return srcerror(src)
 	}
 
-	_, ipnet, err := net.ParseCIDR(str)
+	ipnet, err := pgparseinet(str)
 	if err != nil {
-		ipnet = &net.IPNet{IP: net.ParseIP(str)}
+		return err
 	}
-	*v.val = *ipnet
+	*v.val = ipnet
 	return nil
 }
 
@@ -91,6 +91,26 @@ func (v inetToIP) Scan(src interface{}) error {
 		return srcerror(src)
 	}
 
-	*v.val = net.ParseIP(str)
+	ipnet, err := pgparseinet(str)
+	if err != nil {
+		return err
+	}
+	*v.val = ipnet.IP
 	return nil
 }
+
+// pgparseinet parses an inet, i.e. a host address with an optional netmask.
+func pgparseinet(str string) (net.IPNet, error) {
+	if ip := net.ParseIP(str); ip != nil {
+		return net.IPNet{IP: ip}, nil
+	}
+
+	ip, ipnet, err := net.ParseCIDR(str)
+	if err != nil {
+		return net.IPNet{}, err
+	}
+	if ip4 := ip.To4(); ip4 != nil && len(ipnet.Mask) == net.IPv4len {
+		ip = ip4
+	}
+	return net.IPNet{IP: ip, Mask: ipnet.Mask}, nil
+}
diff --git a/pgsql/inetarr.go b/pgsql/inetarr.go
index c5f9478..70b936b 100644
--- a/pgsql/inetarr.go
+++ b/pgsql/inetarr.go
@@ -40,7 +40,11 @@ func (v inetArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ipnet := range v.val {
-		out = append(out, []byte(ipnet.String())...)
+		if len(ipnet.IP) == 0 && len(ipnet.Mask) == 0 {
+			out = append(out, 'N', 'U', 'L', 'L')
+		} else {
+			out = append(out, []byte(ipnet.String())...)
+		}
 		out = append(out, ',')
 	}
 
@@ -64,11 +68,14 @@ func (v inetArrayToIPNetSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	ipnets := make([]net.IPNet, len(elems))
 	for i := 0; i < len(elems); i++ {
-		_, ipnet, err := net.ParseCIDR(string(elems[i]))
+		if string(elems[i]) == `NULL` {
+			continue
+		}
+		ipnet, err := pgparseinet(string(elems[i]))
 		if err != nil {
-			ipnet = &net.IPNet{IP: net.ParseIP(string(elems[i]))}
+			return err
 		}
-		ipnets[i] = *ipnet
+		ipnets[i] = ipnet
 	}
 
 	*v.val = ipnets
@@ -89,7 +96,11 @@ func (v inetArrayFromIPSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ip := range v.val {
-		out = append(out, []byte(ip.String())...)
+		if len(ip) == 0 {
+			out = append(out, 'N', 'U', 'L', 'L')
+		} else {
+			out = append(out, []byte(ip.String())...)
+		}
 		out = append(out, ',')
 	}
 
@@ -113,7 +124,14 @@ func (v inetArrayToIPSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	ips := make([]net.IP, len(elems))
 	for i := 0; i < len(elems); i++ {
-		ips[i] = net.ParseIP(string(elems[i]))
+		if string(elems[i]) == `NULL` {
+			continue
+		}
+		ipnet, err := pgparseinet(string(elems[i]))
+		if err != nil {
+			return err
+		}
+		ips[i] = ipnet.IP
 	}
 
 	*v.val = ips
diff --git a/pgsql/macaddrarr.go b/pgsql/macaddrarr.go
index 2a074c6..4fb94a2 100644
--- a/pgsql/macaddrarr.go
+++ b/pgsql/macaddrarr.go
@@ -30,7 +30,11 @@ func (v macAddrArrayFromHardwareAddrSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, mac := range v.val {
-		out = append(out, []byte(mac.String())...)
+		if len(mac) == 0 {
+			out = append(out, 'N', 'U', 'L', 'L')
+		} else {
+			out = append(out, []byte(mac.String())...)
+		}
 		out = append(out, ',')
 	}
 
-- 
2.43.0


From b8513d9a3046e5bbbf37b7d0fe79e705363c8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 11/40] fix: filters never contain dangling operators or empty
 parentheses

---
 filter/filter.go | 54 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index 2e21f61..f6bd287 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -144,6 +144,29 @@ func (c *Constructor) canAndOr() bool {
 	return len(c.filter.where) > 0 && c.filter.where[len(c.filter.where)-1].canAndOr()
 }
 
+// closeParen closes the innermost open parenthesis. If the parentheses would
+// be left empty they are removed together with the operator preceding them.
+func (c *Constructor) closeParen() {
+	c.filter.where = trimAndOr(c.filter.where)
+	if c.canAndOr() {
+		c.filter.where = append(c.filter.where, sqlRParen{})
+	} else if n := len(c.filter.where); n > 0 {
+		c.filter.where = trimAndOr(c.filter.where[:n-1])
+	}
+}
+
+// trimAndOr drops the operators at the end of the list that are missing their right operand.
+func trimAndOr(where []sqlNode) []sqlNode {
+	for n := len(where); n > 0; n-- {
+		switch where[n-1].(type) {
+		case sqlAnd, sqlOr:
+		default:
+			return where[:n]
+		}
+	}
+	return nil
+}
+
 // StrictSwitch switches the strict mode on and off.
 func (c *Constructor) StrictSwitch() { c.strict = !c.strict }
 
@@ -210,6 +233,8 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NULL"})
 			case "<>":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT NULL"})
+			default:
+				c.filter.where = append(c.filter.where, sqlBinary{col: column, op: op, val: value})
 			}
 		case true:
 			switch op {
@@ -217,6 +242,8 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS TRUE"})
 			case "<>":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT TRUE"})
+			default:
+				c.filter.where = append(c.filter.where, sqlBinary{col: column, op: op, val: value})
 			}
 		case false:
 			switch op {
@@ -224,6 +251,8 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS FALSE"})
 			case "<>":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT FALSE"})
+			default:
+				c.filter.where = append(c.filter.where, sqlBinary{col: column, op: op, val: value})
 			}
 		default:
 			c.filter.where = append(c.filter.where, sqlBinary{
@@ -258,7 +287,7 @@ func (c *Constructor) And(nest func()) {
 	if nest != nil {
 		c.filter.where = append(c.filter.where, sqlLParen{})
 		nest()
-		c.filter.where = append(c.filter.where, sqlRParen{})
+		c.closeParen()
 	}
 }
 
@@ -275,7 +304,7 @@ func (c *Constructor) Or(nest func()) {
 	if nest != nil {
 		c.filter.where = append(c.filter.where, sqlLParen{})
 		nest()
-		c.filter.where = append(c.filter.where, sqlRParen{})
+		c.closeParen()
 	}
 }
 
@@ -370,11 +399,15 @@ func (c *Constructor) UnmarshalFQL(str string) error {
 			}
 			c.filter.where = append(c.filter.where, sqlLParen{})
 		case fql.RPAREN:
-			c.filter.where = append(c.filter.where, sqlRParen{})
+			c.closeParen()
 		case fql.AND:
-			c.filter.where = append(c.filter.where, sqlAnd{})
+			if c.canAndOr() {
+				c.filter.where = append(c.filter.where, sqlAnd{})
+			}
 		case fql.OR:
-			c.filter.where = append(c.filter.where, sqlOr{})
+			if c.canAndOr() {
+				c.filter.where = append(c.filter.where, sqlOr{})
+			}
 		case fql.RULE:
 			rule := z.Rule()
 			if col, ok := c.colmap[rule.Key]; ok {
@@ -394,6 +427,9 @@ func (c *Constructor) UnmarshalFQL(str string) error {
 				c.Col(col.Name, cmpop2string[rule.Cmp], val)
 			} else if c.strict {
 				return UnknownColumnKeyError{Key: rule.Key}
+			} else {
+				// no operand, no operator
+				c.filter.where = trimAndOr(c.filter.where)
 			}
 		}
 	}
@@ -477,9 +513,9 @@ var (
 // The ToSQL method implements the gosql.Filter interface.
 func (f *filter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := trimAndOr(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
@@ -512,9 +548,9 @@ var (
 // ToSQL implements the gosql.Filter interface.
 func (f *countFilter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := trimAndOr(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
-- 
2.43.0


From 580fcb32c49cf18e5e32abf8af45241afe17334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 12/40] fix: an IN predicate with no values is valid SQL that
 matches nothing

---
 filter/convenience.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filter/convenience.go b/filter/convenience.go
index b323a6c..0037fd2 100644
--- a/filter/convenience.go
+++ b/filter/convenience.go
@@ -16,6 +16,9 @@ func (sqlIn[T]) canAndOr() bool { return true }
 func (n sqlIn[T]) write(w *sqlWriter) {
 	w.WriteString(n.col)
 	w.WriteString(" IN (")
+	if len(n.vals) == 0 {
+		w.WriteString("NULL") // matches nothing, an empty list is a syntax error
+	}
 	for i := range n.vals {
 		if i > 0 {
 			w.WriteString(",")
-- 
2.43.0


From 4b467fd7e4a6dbc01ec2b35086d6fa5c84acb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 13/40] fix: format all generated code before writing any of
 it, and never truncate an existing file

---
 internal/command/command.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/internal/command/command.go b/internal/command/command.go
index cc94378..2c0213a 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"go/format"
-	"io"
 	"os"
 	"path/filepath"
 	"strings"
@@ -90,6 +89,11 @@ func (cmd *Command) Run() error {
 				return err
 			}
 
+			// make it look pretty
+			if out.src, err = format.Source(out.buf.Bytes()); err != nil {
+				return err
+			}
+
 			outFiles[j] = out
 		}
 		result[i] = outFiles
@@ -126,30 +130,38 @@ type outFile struct {
 	targInfos []*postgres.TargetInfo
 	// the generated code
 	buf bytes.Buffer
+	// the generated code, formatted
+	src []byte
 }
 
+// writeOutFile writes the generated code to a temporary file and then moves that
+// to the output path, if it fails a file that already exists there is left as it was.
 func (cmd *Command) writeOutFile(out *outFile) (err error) {
-	f, err := os.Create(out.path)
+	perm := os.FileMode(0666) // before umask
+	if fi, err := os.Stat(out.path); err == nil {
+		perm = fi.Mode().Perm()
+	}
+
+	tmp := filepath.Join(filepath.Dir(out.path), "."+filepath.Base(out.path)+".tmp")
+	f, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		f.Close()
 		if err != nil {
-			os.Remove(out.path)
+			f.Close()
+			os.Remove(tmp)
 		}
 	}()
 
-	// make it look pretty
-	bs, err := format.Source(out.buf.Bytes())
-	if err != nil {
+	if _, err := f.Write(out.src); err != nil {
 		return err
 	}
-
-	buf := bytes.NewBuffer(bs)
-	if _, err := io.Copy(f, buf); err != nil {
+	if err := f.Sync(); err != nil {
 		return err
 	}
-
-	return f.Sync()
+	if err := f.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tmp, out.path)
 }
-- 
2.43.0


From 2ceab832aada97d2eac1a9cf2e980cd6fecf77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 14/40] fix: pick the operator of a field conditional in a
 fixed order

---
 internal/postgres/postgres.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 4e996c3..c392b0b 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -760,13 +761,19 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		}
 	}
 
-	var comp *compentry
+	// go over the candidates in a fixed order, so that
+	// the same input always produces the same output
+	var rights []oid.OID
 	for key := range c.db.catalog.Operators {
-		if key.Name != oprname || key.Left != coid {
-			continue
+		if key.Name == oprname && key.Left == coid {
+			rights = append(rights, key.Right)
 		}
+	}
+	sort.Slice(rights, func(i, j int) bool { return rights[i] < rights[j] })
 
-		typ, ok := c.db.catalog.Types[key.Right]
+	var comp *compentry
+	for _, right := range rights {
+		typ, ok := c.db.catalog.Types[right]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From fabdafcf79e485fcd60bcea136ca0dbb79ad285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 15/40] fix: refuse to overwrite an input file with the
 generated code

---
 internal/command/command.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/command/command.go b/internal/command/command.go
index 2c0213a..a52030c 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -59,6 +59,13 @@ func (cmd *Command) Run() error {
 		return err
 	}
 
+	inPaths := make(map[string]bool)
+	for _, pkg := range pkgs {
+		for _, file := range pkg.Files {
+			inPaths[file.Path] = true
+		}
+	}
+
 	result := make([][]*outFile, len(pkgs))
 	for i, pkg := range pkgs {
 		outFiles := make([]*outFile, len(pkg.Files))
@@ -66,6 +73,9 @@ func (cmd *Command) Run() error {
 		for j, file := range pkg.Files {
 			out := new(outFile)
 			out.path = cmd.outFilePath(file.Path)
+			if inPaths[out.path] {
+				return fmt.Errorf("output file %q would overwrite an input file", out.path)
+			}
 			out.targInfos = make([]*postgres.TargetInfo, len(file.Matches))
 
 			for k, match := range file.Matches {
-- 
2.43.0


From f0e8bec5025bfd9e17b1a141428ea3f78b819f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 16/40] fix: report an invalid value of the fck tag's base
 option

---
 internal/analysis/analysis.go | 14 +++++++++-----
 internal/analysis/error.go    |  7 +++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index f31d8fa..9825f39 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -627,8 +627,8 @@ stackloop:
 			f.UseDefault = tag.HasOption("sql", "default")
 			f.UseCoalesce, f.CoalesceValue = parseCoalesceInfo(tag)
 
-			if err := parseFilterColumnKey(a, f); err != nil {
-				return err
+			if ecode, eval := parseFilterColumnKey(a, f); ecode > 0 {
+				return a.error(ecode, fvar, "", ftag, "", eval)
 			}
 
 			// Add the field to the list.
@@ -2012,7 +2012,7 @@ func parseFuncName(tagvals []string) FuncName {
 }
 
 // parseFilterColumnKey
-func parseFilterColumnKey(a *analysis, f *FieldInfo) error {
+func parseFilterColumnKey(a *analysis, f *FieldInfo) (ecode errorCode, errval string) {
 	tag := a.cfg.FilterColumnKeyTag.Value
 	sep := a.cfg.FilterColumnKeySeparator.Value
 	base := a.cfg.FilterColumnKeyBase.Value
@@ -2044,7 +2044,11 @@ func parseFilterColumnKey(a *analysis, f *FieldInfo) error {
 			case "sep":
 				sep = optVal
 			case "base":
-				base, _ = strconv.ParseBool(optVal)
+				v, err := strconv.ParseBool(optVal)
+				if err != nil {
+					return errBadFilterColumnKeyTagValue, opt
+				}
+				base = v
 			}
 		}
 	}
@@ -2066,7 +2070,7 @@ func parseFilterColumnKey(a *analysis, f *FieldInfo) error {
 			f.FilterColumnKey = f.Name
 		}
 	}
-	return nil
+	return 0, ""
 }
 
 // joinFieldName
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 20334a3..9ea3b7f 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -238,6 +238,7 @@ const (
 	errIllegalPredicateQuantifier
 	errUnknownColumnQualifier
 	errColumnFieldUnknown
+	errBadFilterColumnKeyTagValue
 )
 
 var error_template_string = `
@@ -569,6 +570,12 @@ var error_template_string = `
     {{Wb "HINT:"}} Columns referenced by the {{W .FieldTypeShort}} directive MUST have a matching field in the "{{W "rel"}}" type. 
 {{ end }}
 
+{{ define "` + errBadFilterColumnKeyTagValue.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Bad filter column key option in tag."}}
+    The "fck" tag option {{R .TagError}} in {{R .FieldDefinition}} from {{Wb .TargetName}} has an invalid value.
+    {{Wb "FIX:"}} Change the value of the {{G "base"}} option to either {{G "true"}} or {{G "false"}}.
+{{ end }}
+
 ` // `
 
 var error_templates = template.Must(template.New("t").Funcs(template.FuncMap{
-- 
2.43.0


From 407e9eaf7af0bb34fbb047899285211dd3ba7650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 17/40] fix: config values do not depend on earlier flags or on
 directory order

---
 internal/config/config.go | 16 +++++-----------
 internal/config/types.go  |  2 +-
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9f15135..2e47130 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -308,23 +308,17 @@ func (c *Config) Validate() (err error) {
 // file (either ".gosql" or ".gosql.json") if such a file exists in that root
 // directory, otherwise confName will be empty.
 func examineDir(path string) (isRoot bool, confName string, err error) {
-	d, err := os.Open(path)
+	entries, err := os.ReadDir(path) // sorted by name
 	if err != nil {
 		return false, "", err
 	}
-	defer d.Close()
 
-	infoList, err := d.Readdir(-1)
-	if err != nil {
-		return false, "", err
-	}
-
-	for _, info := range infoList {
-		name := info.Name()
-		if name == ".git" && info.IsDir() {
+	for _, entry := range entries {
+		name := entry.Name()
+		if name == ".git" && entry.IsDir() {
 			isRoot = true
 		}
-		if (name == ".gosql" || name == ".gosql.json") && !info.IsDir() {
+		if (name == ".gosql" || name == ".gosql.json") && !entry.IsDir() {
 			confName = name
 		}
 	}
diff --git a/internal/config/types.go b/internal/config/types.go
index b8a3a04..2ce2ebd 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -183,7 +183,7 @@ func (t *GoType) Set(value string) error {
 	if i := strings.LastIndex(value, "."); i < 0 {
 		return fmt.Errorf("bad method argument type: %q", value)
 	} else {
-		t.PkgPath, t.Name = value[:i], value[i+1:]
+		t.PkgPath, t.Name, t.IsPtr = value[:i], value[i+1:], false
 		if len(t.PkgPath) > 0 && t.PkgPath[0] == '*' {
 			t.PkgPath = t.PkgPath[1:]
 			t.IsPtr = true
-- 
2.43.0


From dc6ef477223cb61f2d151bfdde421b9e4f17944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 18/40] fix: load the candidates of a function call in a fixed
 order

---
 internal/postgres/postgres.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index c392b0b..8962d6a 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1740,7 +1740,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 		WHERE p.pronargs = 1
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
-		` //`
+		ORDER BY p.oid` //`
 	} else {
 		// pre v11
 		selectProcs = `SELECT
@@ -1753,7 +1753,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 		WHERE p.pronargs = 1
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
-		` //`
+		ORDER BY p.oid` //`
 	}
 	rows, err = db.Query(selectProcs)
 	if err != nil {
-- 
2.43.0


From 77da9d03bd0b4f40f142e211c419faf0342ae1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 19/40] fix: cached type info is complete and specific to the
 package using the type

---
 internal/analysis/analysis.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 9825f39..216180d 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -444,6 +444,11 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		cacheKey = named.String()
 	}
 
+	// The result depends also on the package from which the type is used
+	// and on how the filter column keys are to be constructed.
+	cacheKey = fmt.Sprintf("%s %q %q %t %q", a.pkgPath, cacheKey, a.cfg.FilterColumnKeyTag.Value,
+		a.cfg.FilterColumnKeyBase.Value, a.cfg.FilterColumnKeySeparator.Value)
+
 	relTypeCache.RLock()
 	v := relTypeCache.m[cacheKey]
 	relTypeCache.RUnlock()
@@ -501,10 +506,6 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		rt.Base.IsImported = isImportedType(a, named)
 		rt.IsAfterScanner = typesutil.ImplementsAfterScanner(named)
 		ftyp = named.Underlying()
-
-		relTypeCache.Lock()
-		relTypeCache.m[cacheKey] = rt
-		relTypeCache.Unlock()
 	}
 
 	rt.Base.Kind = analyzeTypeKind(ftyp)
@@ -513,7 +514,18 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}
 
 	styp := ftyp.(*types.Struct)
-	return analyzeFieldInfoList(a, rt, styp)
+	if err := analyzeFieldInfoList(a, rt, styp); err != nil {
+		return err
+	}
+
+	// cache only complete results
+	if named != nil {
+		cached := *rt
+		relTypeCache.Lock()
+		relTypeCache.m[cacheKey] = &cached
+		relTypeCache.Unlock()
+	}
+	return nil
 }
 
 // analyzeFieldInfoList
-- 
2.43.0


From f4f62964709e14ea9c6db65f3cd8e01892c6304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 20/40] fix: between predicates keep NOT, SYMMETRIC and
 ASYMMETRIC

---
 internal/generator/generator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b931130..362fde7 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1409,6 +1409,8 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 // makeSQLBetweenPredicate
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
+	predicate.Not = cond.Predicate.IsOneOf(analysis.NotBetween, analysis.NotBetweenSym, analysis.NotBetweenAsym)
+	predicate.Sym = sqlSYMMETRY[cond.Predicate]
 	predicate.Predicand = makeColRef(cond.ColIdent)
 
 	switch lower := cond.LowerBound.(type) {
@@ -2380,6 +2382,13 @@ var sqlREGEXOP = map[analysis.Predicate]SQL.REGEXOP{
 	analysis.NotMatchi: SQL.NOT_MATCH_CI,
 }
 
+var sqlSYMMETRY = map[analysis.Predicate]SQL.SYMMETRY{
+	analysis.IsBetweenSym:   SQL.SYMMETRIC,
+	analysis.NotBetweenSym:  SQL.SYMMETRIC,
+	analysis.IsBetweenAsym:  SQL.ASYMMETRIC,
+	analysis.NotBetweenAsym: SQL.ASYMMETRIC,
+}
+
 var sqlTRUTH = map[analysis.Predicate]SQL.TRUTH{
 	analysis.IsUnknown:  SQL.UNKNOWN,
 	analysis.NotUnknown: SQL.UNKNOWN,
-- 
2.43.0


From 6c557ae8b371de7ae4c943324b8d3c8fb16c2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 21/40] fix: recognize the isbetweenasym and notbetweenasym
 predicates

---
 internal/analysis/enums.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/analysis/enums.go b/internal/analysis/enums.go
index d93b68e..7d3519d 100644
--- a/internal/analysis/enums.go
+++ b/internal/analysis/enums.go
@@ -355,6 +355,7 @@ var predicates = [...]string{
 // predicateAdjectives is a whitelist of predicate adjectives and adverbs. Used for parsing tags.
 var predicateAdjectives = []string{
 	"between",
+	"betweenasym",
 	"betweensym",
 	"distinct",
 	"false",
-- 
2.43.0


From bda3dff9757269056f7a9b3921ed8d6790f7624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 22/40] fix: apply the limit and offset fallback before the
 arguments are collected

---
 internal/generator/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 362fde7..86cb34f 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -238,6 +238,11 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		g.queryCallStmt,
 		g.queryResultStmt,
 	}
+	if _, ok := g.queryLimitAndOffsetFallback[0].(GO.NoOp); !ok && len(g.inputSliceArgs) > 0 {
+		// the query string statements already use the limit and offset
+		// fields as arguments, the fallback MUST therefore precede them.
+		method.Body.List[0], method.Body.List[1] = method.Body.List[1], method.Body.List[0]
+	}
 
 	if g.cfg.MethodWithContext.Value {
 		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
-- 
2.43.0


From b9fd580cfb0d266cb2a00ba70cb4b8b9ae393f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 23/40] fix: clauses following WHERE come after the filter and
 their arguments are passed

---
 internal/generator/generator.go | 48 ++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 86cb34f..6225913 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1042,13 +1042,30 @@ func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Join != nil {
 		stmt.Join.List = append(stmt.Join.List, g.tableJoinSlice...)
 	}
-	stmt.Where = g.whereClause
-	stmt.Order = g.orderClause
-	stmt.Limit = g.limitClause
-	stmt.Offset = g.offsetClause
+	if qs.Filter != nil {
+		g.sqlTailNode = makeSQLSelectTail(g, qs)
+	} else {
+		stmt.Where = g.whereClause
+		stmt.Order = g.orderClause
+		stmt.Limit = g.limitClause
+		stmt.Offset = g.offsetClause
+	}
 	g.sqlMainNode = stmt
 }
 
+// makeSQLSelectTail returns the clauses that, in a SELECT with a filter, MUST
+// come after the filter's WHERE clause. If there are no such clauses nil is returned.
+func makeSQLSelectTail(g *generator, qs *analysis.QueryStruct) SQL.Node {
+	limit := g.limitClause
+	if qs.IsSelectCountOrExists() && qs.Limit == nil {
+		limit = SQL.LimitClause{} // omit the default
+	}
+	if len(g.orderClause.List) == 0 && limit.Value == nil && g.offsetClause.Value == nil {
+		return nil
+	}
+	return SQL.NodeList{g.orderClause, limit, g.offsetClause}
+}
+
 // buildSQLDeleteStatement builds an SQL.DeleteStatement.
 func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.DeleteStatement{}
@@ -1059,6 +1076,13 @@ func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Using.List = append(stmt.Using.List, g.tableExprSlice()...)
 	}
 
+	if qs.Filter != nil && len(g.outputVals) > 0 {
+		// RETURNING comes after the filter's WHERE clause
+		g.sqlTailNode = SQL.UpdateTail{Returning: SQL.ReturningClause(g.outputVals)}
+		g.sqlMainNode = stmt
+		return
+	}
+
 	stmt.Where = g.whereClause
 	stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
 	g.sqlMainNode = stmt
@@ -1077,6 +1101,8 @@ func buildSQLSelectCountStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Where = g.whereClause
 		stmt.Order = g.orderClause
 		stmt.Offset = g.offsetClause
+	} else {
+		g.sqlTailNode = makeSQLSelectTail(g, qs)
 	}
 
 	g.sqlMainNode = stmt
@@ -1100,6 +1126,7 @@ func buildSQLSelectExistsStatement(g *generator, qs *analysis.QueryStruct) {
 	} else {
 		stmt.Open = true
 		g.closeFilter = true
+		g.sqlTailNode = makeSQLSelectTail(g, qs)
 	}
 
 	g.sqlMainNode = stmt
@@ -1724,7 +1751,7 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 	stmtList = append(stmtList, assign)
 
 	rhsExpr := GO.ExprNode(filterStringVar)
-	if g.closeFilter {
+	if g.closeFilter && g.sqlTailNode == nil {
 		// produce:
 		//	filterString + `)`
 		binAdd := GO.BinaryExpr{Op: GO.BinaryAdd}
@@ -1745,6 +1772,15 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 		assign.Lhs = queryStringVar
 		assign.Rhs = GO.RawStringNode{Prefix: " ", N: g.sqlTailNode, Comment: &GO.LineComment{" `"}}
 		stmtList = append(stmtList, assign)
+
+		if g.closeFilter {
+			// produce:
+			//	queryString += `)`
+			assign := GO.AssignStmt{Token: GO.AssignAdd}
+			assign.Lhs = queryStringVar
+			assign.Rhs = GO.RawStringLit(`)`)
+			stmtList = append(stmtList, assign)
+		}
 	}
 
 	stmtList = append(stmtList, GO.NL{})
@@ -1752,7 +1788,7 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 }
 
 func buildQueryFilterParams(g *generator, qs *analysis.QueryStruct) {
-	if qs.Filter == nil || qs.Kind != analysis.QueryKindUpdate {
+	if qs.Filter == nil || len(g.inputArgs) == 0 {
 		g.queryFilterParams = GO.NoOp{}
 		return
 	}
-- 
2.43.0


From fd4f2e43fa6874f231c8812bee3073686ee68e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 24/40] fix: slice updates with Return or Result return the
 updated rows

---
 internal/generator/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 6225913..d966b33 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1016,6 +1016,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 		columns := append(g.inputCols, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
+		tail.Returning = SQL.ReturningClause(g.outputVals)
 		g.sqlTailNode = SQL.NodeList{alias, tail}
 		g.sqlMainNode = stmt
 		return
-- 
2.43.0


From 84a8f6647c9102136eeb3e7bd6c9b9d191b115fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 25/40] fix: SELECT COUNT keeps its LIMIT

---
 internal/generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index d966b33..0b1a0a6 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1101,6 +1101,9 @@ func buildSQLSelectCountStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Filter == nil {
 		stmt.Where = g.whereClause
 		stmt.Order = g.orderClause
+		if qs.Limit != nil {
+			stmt.Limit = g.limitClause
+		}
 		stmt.Offset = g.offsetClause
 	} else {
 		g.sqlTailNode = makeSQLSelectTail(g, qs)
-- 
2.43.0


From fdd457c1730c21518d9d35009ea553460af1c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 26/40] fix: slice updates qualify the target's columns

---
 internal/generator/generator.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 0b1a0a6..8589374 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -586,6 +586,9 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 	for _, fr := range g.info.Reads {
 		var expr SQL.ValueExpr
 		expr = makeColRef(fr.ColIdent)
+		if qs.IsUpdateSlice() {
+			expr = makeTargetColRef(qs, fr.ColIdent)
+		}
 		if fr.NeedsCOALESCE() {
 			expr = addCoalesceCallExpr(expr, fr.Field.CoalesceValue, fr.Column)
 		}
@@ -1228,6 +1231,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
+				predicate.LPredicand = makeTargetColRef(qs, fw.ColIdent)
 				col := SQL.ColumnIdent{Qual: "x", Name: SQL.Name(fw.ColIdent.Name)}
 				predicate.RPredicand = SQL.CastExpr{Expr: col, Type: fw.Column.Type.NameFmt}
 			}
@@ -2327,6 +2331,19 @@ func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 	}
 }
 
+// makeTargetColRef returns a reference to a column in a slice UPDATE. An unqualified
+// column is qualified with the target relation as it would otherwise be ambiguous
+// because the list of values has columns with the same names.
+func makeTargetColRef(qs *analysis.QueryStruct, id analysis.ColIdent) SQL.ColumnReference {
+	ref := makeColRef(id)
+	if len(ref.Qual) == 0 {
+		if ref.Qual = qs.Rel.Id.Alias; len(ref.Qual) == 0 {
+			ref.Qual = `"` + qs.Rel.Id.Name + `"`
+		}
+	}
+	return ref
+}
+
 // makeRelIdent
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
-- 
2.43.0


From 50e1c31ee124f5bf9f4d1e1a5b39b145febdd2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 27/40] fix: primary key arguments are converted like the other
 arguments

---
 internal/generator/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 8589374..e8991b8 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -419,6 +419,7 @@ func buildQueryInputPKeyFields(g *generator, qs *analysis.QueryStruct) {
 				fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			}
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fw.Field.Name}}
+			fx = addConverterCallExpr(g, fx, fw.Valuer)
 			g.inputArgs = append(g.inputArgs, fx)
 		}
 	}
-- 
2.43.0


From 90840e9a056bce1491f239cb3308a42518d7ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 28/40] fix: pass the primary key that identifies the row also
 when its column is set to DEFAULT

---
 internal/generator/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index e8991b8..cf369bb 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -41,10 +41,10 @@ func Write(f io.Writer, pkgName string, targets []*postgres.TargetInfo, cfg conf
 		g.file = file
 		g.fmtColIdent = fmtColIdent
 		g.queryRecv = GO.Ident{"q"}
-		g.inputPKeys = inputPKeys(info)
 
 		switch s := info.Struct.(type) {
 		case *analysis.QueryStruct:
+			g.inputPKeys = inputPKeys(info, s)
 			buildQueryCode(g, s)
 		case *analysis.FilterStruct:
 			buildFilterCode(g, s)
@@ -2095,11 +2095,11 @@ func buildQueryResultRowsScan(g *generator, qs *analysis.QueryStruct) {
 // Helpers
 //
 
-func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
+func inputPKeys(t *postgres.TargetInfo, qs *analysis.QueryStruct) (out []*postgres.FieldWrite) {
 	for i := 0; i < len(t.PKeys); i++ {
 		elide := false
 		for j := 0; j < len(t.Writes); j++ {
-			if t.Writes[j].Field == t.PKeys[i].Field {
+			if t.Writes[j].Field == t.PKeys[i].Field && !canUseDefault(qs, t.Writes[j].Field) {
 				elide = true
 			}
 		}
-- 
2.43.0


From 23794c461b111c1503e038564f81d400cb9875cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 29/40] fix: slice updates of columns set to DEFAULT

---
 internal/generator/generator.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index cf369bb..9bf977a 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -110,6 +110,9 @@ type generator struct {
 	inputSliceArgs []GO.SelectorExpr
 	// The list of target columns to be set by the sql query (INSERT|UPDATE).
 	inputCols      SQL.NameGroup
+	// The list of columns of the VALUES list (slice UPDATE), i.e. without
+	// those of the target columns that are set to DEFAULT.
+	valuesCols     SQL.NameGroup
 	inputColsPKeys SQL.NameGroup
 	// The list of input value expressions to be assigned to the target
 	// columns by the sql query (INSERT|UPDATE).
@@ -283,6 +286,9 @@ func buildQueryInputRoot(g *generator, qs *analysis.QueryStruct) {
 func buildQueryInputTargetColumns(g *generator, qs *analysis.QueryStruct) {
 	for _, fw := range g.info.Writes {
 		g.inputCols = append(g.inputCols, SQL.Name(fw.Column.Name))
+		if !canUseDefault(qs, fw.Field) {
+			g.valuesCols = append(g.valuesCols, SQL.Name(fw.Column.Name))
+		}
 	}
 
 	if qs.IsUpdateSlice() {
@@ -302,6 +308,11 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fw := range g.info.Writes {
 		if canUseDefault(qs, fw.Field) {
+			if qs.IsUpdateSlice() {
+				// DEFAULT is allowed in SET but not in FROM (VALUES ...)
+				g.updateCols = append(g.updateCols, SQL.DEFAULT)
+				continue
+			}
 			g.inputVals = append(g.inputVals, SQL.DEFAULT)
 			continue
 		}
@@ -1017,7 +1028,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Rel.Type.IsSlice {
 		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
 
-		columns := append(g.inputCols, g.inputColsPKeys...)
+		columns := append(g.valuesCols, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
 		tail.Returning = SQL.ReturningClause(g.outputVals)
-- 
2.43.0


From 0c288cc17d1f221e7f32d76153e91de3618ffbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 30/40] fix: separate the relations of the From struct from the
 values of a slice update

---
 internal/generator/generator.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 9bf977a..0ea2162 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -11,6 +11,7 @@ import (
 	"github.com/frk/gosql/internal/postgres"
 	"github.com/frk/gosql/internal/postgres/oid"
 
+	"github.com/frk/ast"
 	GO "github.com/frk/ast/golang"
 	SQL "github.com/frk/ast/sqlang"
 )
@@ -109,7 +110,7 @@ type generator struct {
 	// will be used as input for [NOT] IN clauses.
 	inputSliceArgs []GO.SelectorExpr
 	// The list of target columns to be set by the sql query (INSERT|UPDATE).
-	inputCols      SQL.NameGroup
+	inputCols SQL.NameGroup
 	// The list of columns of the VALUES list (slice UPDATE), i.e. without
 	// those of the target columns that are set to DEFAULT.
 	valuesCols     SQL.NameGroup
@@ -1010,6 +1011,20 @@ func buildSQLInsertStatement(g *generator, qs *analysis.QueryStruct) {
 	g.sqlMainNode = stmt
 }
 
+// valuesListItem is an SQL.ValuesListClausePartial that's
+// separated from the other items of the FROM clause.
+type valuesListItem struct {
+	SQL.ValuesListClausePartial
+	first bool // if set, there are no preceding items
+}
+
+func (v valuesListItem) Walk(w *ast.Writer) {
+	if !v.first {
+		w.Write(", ")
+	}
+	v.ValuesListClausePartial.Walk(w)
+}
+
 // buildSQLUpdateStatement builds an SQL.UpdateStatement.
 func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.UpdateStatement{}
@@ -1026,7 +1041,8 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if qs.Rel.Type.IsSlice {
-		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		values := valuesListItem{first: len(stmt.Head.From.List) == 0}
+		stmt.Head.From.List = append(stmt.Head.From.List, values)
 
 		columns := append(g.valuesCols, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
-- 
2.43.0


From 8be00c2ba81d2c291d3b6c87702c1b3c72870a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 31/40] fix: import the packages that the generated code refers
 to, under the names it refers to them by

---
 internal/generator/generator.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 0ea2162..33fecb9 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -100,6 +100,8 @@ type generator struct {
 	closeFilter bool
 	// The query method's receiver identifier.
 	queryRecv GO.Ident
+	// The local name of the imported context package.
+	contextPkgName string
 
 	inputPKeys []*postgres.FieldWrite
 	// The root node for the fields to be passed as input to the query (Exec|Query|QueryRow).
@@ -186,7 +188,7 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	imp := addimport(g.file, typ.PkgPath, typ.PkgName)
 	typ.PkgName = imp.name
 	if g.cfg.MethodWithContext.Value {
-		_ = addimport(g.file, "context", "")
+		g.contextPkgName = addimport(g.file, "context", "context").name
 	}
 
 	buildQueryInput(g, qs)
@@ -249,7 +251,7 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if g.cfg.MethodWithContext.Value {
-		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
+		ctxType := GO.TypeNode(GO.QualifiedIdent{g.contextPkgName, "Context"})
 		method.Type.Params = GO.ParamList{
 			{Names: GO.Ident{"ctx"}, Type: ctxType},
 			method.Type.Params[0],
@@ -647,8 +649,8 @@ func buildQueryLimitOffsetFallback(g *generator, qs *analysis.QueryStruct) {
 // addConverterCallExpr
 func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.ExprNode {
 	if len(converter) > 0 {
-		addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
-		sel := GO.SelectorExpr{X: GO.Ident{pgsqlPkgName}, Sel: GO.Ident{converter}}
+		imp := addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
+		sel := GO.SelectorExpr{X: GO.Ident{imp.name}, Sel: GO.Ident{converter}}
 		return GO.CallExpr{Fun: sel, Args: GO.ArgsList{List: x}}
 	}
 	return x
@@ -1428,7 +1430,8 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				arg1 := GO.Ident{"len" + num}
 				arg2 := GO.Ident{"pos" + num}
 
-				call := GO.CallExpr{Fun: GO.QualifiedIdent{"gosql", "InValueList"}}
+				imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+				call := GO.CallExpr{Fun: GO.QualifiedIdent{imp.name, "InValueList"}}
 				call.Args = GO.ArgsList{List: GO.ExprList{arg1, arg2}}
 
 				predicate := SQL.InPredicate{}
@@ -1519,7 +1522,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		queryStringVar = GO.Ident{"queryString"}
 		paramsVar      = GO.Ident{"params"}
 		ifaceSliceType = GO.Ident{"[]interface{}"}
-		ordinalParams  = GO.QualifiedIdent{"gosql", "OrdinalParameters"}
 		forLoop        = GO.ForStmt{}
 	)
 
@@ -1587,7 +1589,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		strConcatExprList = make([]GO.ExprNode, valueCount+1) // +1 for the final `),`
 	)
 
-	var importGosql bool
 	inputVals := append(g.inputVals, g.inputValsPKeys...)
 	for i, val := range inputVals {
 		sep := `, `
@@ -1599,7 +1600,8 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 			defaultCount += 1
 			strConcatExprList[i] = GO.RawStringLit(sep + `DEFAULT`)
 		} else {
-			importGosql = true
+			imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+			ordinalParams := GO.QualifiedIdent{imp.name, "OrdinalParameters"}
 
 			// produce:
 			//	`, ` + gosql.OrdinalParameters[pos+<i - defaultCount>] +
@@ -1630,9 +1632,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 
 		}
 	}
-	if importGosql {
-		addimport(g.file, gosqlPkgPath, gosqlPkgName)
-	}
 
 	strConcatExprList[len(strConcatExprList)-1] = GO.RawStringLit(`),`)
 
@@ -2225,7 +2224,7 @@ func makeErrorReturnStmt(g *generator, qs *analysis.QueryStruct, errExpr GO.Expr
 			errVar         = GO.Ident{"err"}
 			nilVal         = GO.Ident{"nil"}
 			queryStringVar = GO.Ident{"queryString"}
-			errorInfoType  = GO.QualifiedIdent{"gosql", "ErrorInfo"}
+			errorInfoType  = GO.QualifiedIdent{addimport(g.file, gosqlPkgPath, gosqlPkgName).name, "ErrorInfo"}
 		)
 
 		// produce:
-- 
2.43.0


From b9894ba4adc3d1f319e7779b288aad56c835d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 32/40] fix: imported packages have unique and valid local
 names

---
 internal/generator/generator.go | 38 ++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 33fecb9..153c9e3 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1,10 +1,12 @@
 package generator
 
 import (
+	"go/token"
 	"io"
 	"log"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/frk/gosql/internal/analysis"
 	"github.com/frk/gosql/internal/config"
@@ -2137,31 +2139,33 @@ func inputPKeys(t *postgres.TargetInfo, qs *analysis.QueryStruct) (out []*postgr
 }
 
 // addimport adds a new impspec to the file's impset if it is not already a member of the set.
+// If the package's name is not known, i.e. if name is empty, a local name will be used.
 func addimport(f *file, path, name string) *impspec {
+	local := false
 	if name == "" {
 		name = path
 		if i := strings.LastIndexByte(name, '/'); i > -1 {
 			name = name[i+1:]
 		}
+		name = makeLocalName(name)
+		local = true
 	}
 
-	var namesake *impspec
+	names := make(map[string]*impspec, len(f.impset))
 	for _, imp := range f.impset {
 		// already added, exit
 		if imp.path == path {
 			return imp
 		}
-
-		// retain import that has the same name
-		if imp.name == name {
-			namesake = imp
-		}
+		names[imp.name] = imp
 	}
 
-	imp := &impspec{path: path, name: name}
-	if namesake != nil {
-		namesake.num += 1
-		imp.name = name + strconv.Itoa(namesake.num)
+	imp := &impspec{path: path, name: name, local: local}
+	if namesake := names[name]; namesake != nil {
+		for names[imp.name] != nil {
+			namesake.num += 1
+			imp.name = name + strconv.Itoa(namesake.num)
+		}
 		imp.local = true
 	}
 
@@ -2169,6 +2173,20 @@ func addimport(f *file, path, name string) *impspec {
 	return imp
 }
 
+// makeLocalName returns a valid package name based on the given string.
+func makeLocalName(s string) string {
+	name := strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, s)
+	if !token.IsIdentifier(name) {
+		return "_" + name
+	}
+	return name
+}
+
 // newImportDecl produces an import declaration for packages that are to be imported by the given file.
 func newImportDecl(f *file) *GO.ImportDecl {
 	imports := new(GO.ImportDecl)
-- 
2.43.0


From 933f12f3464ed696e48f6d7cc7b367460a9a1bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 33/40] fix: initialize nested pointer fields whose joined
 names are equal

---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 153c9e3..5ef015c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -552,7 +552,7 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx := g.outputVar
 		for _, node := range fr.Field.Selector {
-			key += node.Name
+			key += node.Name + "."
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] {
-- 
2.43.0


From 57add131c61cb757fba0ee60082cd3ede34d81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 34/40] fix: do not generate filter column methods that are
 named the same as the filter's own methods

---
 internal/generator/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 5ef015c..4cb2738 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -2462,8 +2462,9 @@ var reservedFilterMethodNames = map[string]struct{}{
 	"UnmarshalFQL":  struct{}{},
 	"UnmarshalSort": struct{}{},
 	"TextSearch":    struct{}{},
-	"AND":           struct{}{},
-	"OR":            struct{}{},
+	"Init":          struct{}{},
+	"And":           struct{}{},
+	"Or":            struct{}{},
 }
 
 var sqlQUANTIFIER = map[analysis.Quantifier]SQL.QUANTIFIER{
-- 
2.43.0


From fa8ea5dab0374eeff4091916037feadb37cefe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 35/40] fix: the value types of filter methods name the package
 of the type at every level

---
 internal/generator/generator.go | 36 ++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 4cb2738..80f3d16 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -875,18 +875,16 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 			continue
 		}
 
-		// add import if necessary
-		if imported := ff.Field.Type.ImportedTypes(); len(imported) > 0 {
-			for _, typ := range imported {
-				imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-				ff.Field.Type.PkgName = imp.name
-			}
+		// the type of the value, the base if the field is a pointer
+		typ := ff.Field.Type
+		if len(typ.Name) == 0 && typ.Kind == analysis.TypeKindPtr {
+			typ = *typ.Elem
 		}
 
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
 			{Names: oper, Type: GO.Ident{"string"}},
-			{Names: value, Type: GO.Ident{string(ff.Field.Type.Literal())}},
+			{Names: value, Type: GO.Ident{makeTypeLiteral(g, typ)}},
 		}
 		methodecl.Type.Results = GO.ParamList{{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}
 
@@ -905,6 +903,30 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 	}
 }
 
+// makeTypeLiteral returns the literal of the given type as it is to be
+// written in the generated file, importing the packages it refers to.
+func makeTypeLiteral(g *generator, typ analysis.TypeInfo) string {
+	if len(typ.Name) > 0 {
+		if typ.IsImported {
+			imp := addimport(g.file, typ.PkgPath, typ.PkgName)
+			return imp.name + "." + typ.Name
+		}
+		return typ.Name
+	}
+
+	switch typ.Kind {
+	case analysis.TypeKindPtr:
+		return "*" + makeTypeLiteral(g, *typ.Elem)
+	case analysis.TypeKindSlice:
+		return "[]" + makeTypeLiteral(g, *typ.Elem)
+	case analysis.TypeKindArray:
+		return "[" + strconv.FormatInt(typ.ArrayLen, 10) + "]" + makeTypeLiteral(g, *typ.Elem)
+	case analysis.TypeKindMap:
+		return "map[" + makeTypeLiteral(g, *typ.Key) + "]" + makeTypeLiteral(g, *typ.Elem)
+	}
+	return string(typ.Literal())
+}
+
 // buildFilterMethodBoolOp
 func buildFilterMethodBoolOp(g *generator, fs *analysis.FilterStruct, name string) {
 	var (
-- 
2.43.0


From 2581fb326c4699bbf51413858eac467c5b22aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 36/40] fix: an UPDATE or DELETE of all rows requires the All
 directive

---
 internal/postgres/errors.go   | 15 +++++++++++++
 internal/postgres/postgres.go | 41 +++++++++++++++++++++++++++++++----
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index adf1e1b..7ca167d 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -67,6 +67,8 @@ const (
 	errOnConflictIndexColumnsNotUnique
 	errOnConflictConstraintUnknown
 	errOnConflictConstraintNotUnique
+	// query errors
+	errQueryUnqualified
 )
 
 type dbError struct {
@@ -539,6 +541,19 @@ Between error templates
     - field "{{R .Field.Name}}" is of type "{{R .Field.TypeShort}}".
 {{ end }}
 
+--------------------------------------------------------------------------------
+Query error templates
+--------------------------------------------------------------------------------
+
+{{ define "` + errQueryUnqualified.name() + `" -}}
+{{Wb .Target.File.NameAndLine}}: {{Y "Unqualified query."}}
+    The query "{{R .Target.Name}}" would affect all rows of the relation "{{W .Rel.Id.Name}}".
+    {{if .Col.Id.Name -}}
+    - it has no field for the {{Wi "primary key"}} column "{{R .Col.Id.Name}}".
+    {{end -}}
+    - use a {{Wi "Where"}} struct, a {{Wi "filter"}}, or, if that's the intent, the {{Wi "gosql.All"}} directive.
+{{ end }}
+
 --------------------------------------------------------------------------------
 Procedure error templates
 --------------------------------------------------------------------------------
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 8962d6a..b17fb54 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -261,6 +261,7 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		typeCheckQueryReturnDirective,
 		typeCheckQueryResultField,
 		typeCheckQueryRelField,
+		typeCheckQueryQualifier,
 
 		typeCheckQueryWhereStruct,
 		typeCheckQueryOnConflictStruct,
@@ -285,10 +286,42 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 	// if this is a read query (select, or I,U,D with returning) the columns do
 	// not have to be unique.
 
-	// TODO(mkopriva): if this is an UPDATE but none of the columns associated
-	// with the available fields constitute a complete primary key of the table,
-	// an error should be returned as then there's no way to properly match the
-	// data instances with specific rows in the table.
+	return nil
+}
+
+// typeCheckQueryQualifier checks that an UPDATE or DELETE, that is to affect all of
+// the rows of the target relation, says so explicitly with the gosql.All directive.
+//
+// CHECKLIST:
+//
+//	✅ If there's no WHERE struct, no filter, and no gosql.All directive:
+//	   - a DELETE is not valid.
+//	   - an UPDATE MUST have fields for all of the columns of the TARGET relation's
+//	     primary key, otherwise there's no way to properly match the data instances
+//	     with specific rows in the table.
+func typeCheckQueryQualifier(c *checker, qs *analysis.QueryStruct) error {
+	if qs.HasQualifier() {
+		return nil
+	}
+
+	switch qs.Kind {
+	case analysis.QueryKindDelete:
+		return c.dbError(dbError{Code: errQueryUnqualified, Rel: relInfo{Id: qs.Rel.Id, Relation: c.rel}}, qs.Rel)
+	case analysis.QueryKindUpdate:
+		matched := make(map[*Column]bool)
+		for _, w := range c.res.PKeys {
+			matched[w.Column] = true
+		}
+		for _, col := range c.rel.Columns {
+			if col.IsPrimary && !matched[col] {
+				return c.dbError(dbError{Code: errQueryUnqualified, Rel: relInfo{Id: qs.Rel.Id, Relation: c.rel},
+					Col: colInfo{Id: analysis.ColIdent{Name: col.Name}, Column: col}}, qs.Rel)
+			}
+		}
+		if len(matched) == 0 {
+			return c.dbError(dbError{Code: errQueryUnqualified, Rel: relInfo{Id: qs.Rel.Id, Relation: c.rel}}, qs.Rel)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From f19fa07efb7783074ca5ca860739722f5e6c0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 37/40] fix: isin and notin between a column and an array
 column compare with its elements

---
 internal/generator/generator.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 80f3d16..821d4ce 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1446,6 +1446,20 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				predicate.Pattern = rhs
 				expr = predicate
 			case analysis.IsIn, analysis.NotIn:
+				if _, ok := cond.(*postgres.ColumnConditional); ok {
+					// rhs is an array column or an array literal
+					qx := SQL.QuantifiedExpr{Qua: SQL.ANY, Expr: rhs}
+					predicate := SQL.ComparisonPredicate{Cmp: SQL.EQUAL}
+					if pred == analysis.NotIn {
+						qx.Qua = SQL.ALL
+						predicate.Cmp = SQL.NOT_EQUAL
+					}
+					predicate.LPredicand = lhs
+					predicate.RPredicand = qx
+					expr = predicate
+					break
+				}
+
 				sx := GO.SelectorExpr{X: sx, Sel: GO.Ident{fieldName}}
 				g.inputSliceArgs = append(g.inputSliceArgs, sx)
 				g.paramNum -= 1 // ordinal param won't be used directly
-- 
2.43.0


From 0f4d0f09e1dc42af1098672f10fdd85add364699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:47 +0000
Subject: [PATCH 38/40] fix: cast the values of a slice update whose types have
 no zero literal

NULLIF is left out for a nullable column of a type without a zero literal
(an enum, hstore, line, ...), and the cast was left out with it. Without a
cast the parameter in VALUES is text, which cannot be assigned to the column.
---
 internal/generator/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 821d4ce..69d76e0 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -332,7 +332,8 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 			expr = makeParamSpec(g, fw.Field)
 			if fw.NeedsNULLIF() {
 				expr = addNULLIFCallExpr(expr, fw.Column)
-			} else {
+			}
+			if _, ok := expr.(SQL.CastExpr); !ok {
 				cast := SQL.CastExpr{}
 				cast.Expr = expr
 				cast.Type = fw.Column.Type.NameFmt
-- 
2.43.0


From ac7e32df3bf40501ef4311f9e532036c66f70161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 39/40] fix: convert the elements of the slices of isin and
 notin

The elements of a slice are passed to the query individually, but, unlike a
single value, they were not converted by the valuer for the column's type.
---
 internal/generator/generator.go | 21 ++++++++++++++++-----
 internal/postgres/postgres.go   | 23 ++++++++++++++++++++---
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 69d76e0..b646549 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -112,7 +112,7 @@ type generator struct {
 	inputArgs []GO.ExprNode
 	// List of selector expressions for fields that containin slices that
 	// will be used as input for [NOT] IN clauses.
-	inputSliceArgs []GO.SelectorExpr
+	inputSliceArgs []inputSliceArg
 	// The list of target columns to be set by the sql query (INSERT|UPDATE).
 	inputCols SQL.NameGroup
 	// The list of columns of the VALUES list (slice UPDATE), i.e. without
@@ -649,6 +649,14 @@ func buildQueryLimitOffsetFallback(g *generator, qs *analysis.QueryStruct) {
 	}
 }
 
+// inputSliceArg is a slice whose elements are used as input for a [NOT] IN clause.
+type inputSliceArg struct {
+	// The selector expression for the field that contains the slice.
+	slice GO.SelectorExpr
+	// Name of the valuer to be used for the slice's elements, or empty.
+	valuer string
+}
+
 // addConverterCallExpr
 func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.ExprNode {
 	if len(converter) > 0 {
@@ -1461,8 +1469,11 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 					break
 				}
 
-				sx := GO.SelectorExpr{X: sx, Sel: GO.Ident{fieldName}}
-				g.inputSliceArgs = append(g.inputSliceArgs, sx)
+				arg := inputSliceArg{slice: GO.SelectorExpr{X: sx, Sel: GO.Ident{fieldName}}}
+				if cond, ok := cond.(*postgres.FieldConditional); ok {
+					arg.valuer = cond.Valuer
+				}
+				g.inputSliceArgs = append(g.inputSliceArgs, arg)
 				g.paramNum -= 1 // ordinal param won't be used directly
 
 				num := strconv.Itoa(len(g.inputSliceArgs))
@@ -1721,7 +1732,7 @@ func buildQueryStringForSliceArgs(g *generator, qs *analysis.QueryStruct) {
 
 		lenVar := GO.ValueSpec{}
 		lenVar.Names = GO.Ident{"len" + num}
-		lenVar.Values = GO.CallLenExpr{arg}
+		lenVar.Values = GO.CallLenExpr{arg.slice}
 		lenVar.Comment = GO.LineComment{" length of slice #" + num + " to be unnested"}
 
 		posVar := GO.ValueSpec{}
@@ -1793,7 +1804,7 @@ func buildQueryStringForSliceArgs(g *generator, qs *analysis.QueryStruct) {
 
 		assign := GO.AssignStmt{Token: GO.Assign}
 		assign.Lhs = GO.IndexExpr{X: paramsVar, Index: binExpr}
-		assign.Rhs = GO.IndexExpr{X: arg, Index: iVar}
+		assign.Rhs = addConverterCallExpr(g, GO.IndexExpr{X: arg.slice, Index: iVar}, arg.valuer)
 
 		forLoop.Body = GO.BlockStmt{List: []GO.StmtNode{assign}}
 		stmtList = append(stmtList, forLoop)
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index b17fb54..678e65b 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -789,7 +789,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	if _, ok := c.db.catalog.Operators[key]; ok {
 		typmod1 := isLength1Type(c, cond.Column)
 		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp != nil {
-			cond.Valuer = comp.valuer
+			cond.Valuer = condValuer(c, cond, comp)
 			return 0
 		}
 	}
@@ -824,7 +824,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		return errColumnFieldComparison
 	}
 
-	cond.Valuer = comp.valuer
+	cond.Valuer = condValuer(c, cond, comp)
 	return 0
 }
 
@@ -883,7 +883,7 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 			}
 
 			if comp := typeCompatibility(c, p.R, ftyp, false); comp != nil {
-				cond.Valuer = comp.valuer
+				cond.Valuer = condValuer(c, cond, comp)
 				return 0
 			}
 		}
@@ -2071,6 +2071,23 @@ func typeCompatibility(c *checker, ctyp *Type, ftyp analysis.TypeInfo, typmod1 b
 	return nil // not compatible
 }
 
+// condValuer returns the name of the valuer to be used for the field of the given
+// conditional. The elements of the field of an array predicate are passed to the query
+// individually, therefore in that case the valuer is the one for the elements.
+func condValuer(c *checker, cond *FieldConditional, comp *compentry) string {
+	if !cond.Predicate.IsArray() {
+		return comp.valuer
+	}
+	elem := cond.FieldType.Elem
+	if elem == nil || elem.ImplementsValuer() {
+		return ""
+	}
+	if comp := typeCompatibility(c, cond.Column.Type, *elem, isLength1Type(c, cond.Column)); comp != nil {
+		return comp.valuer
+	}
+	return ""
+}
+
 // typeOfLiteral returns the type of the given literal expression.
 func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	const pgselectexprtype = `SELECT id::oid FROM pg_typeof(%s) AS id` //`
-- 
2.43.0


From eee082d42b86f6cacc6434deace202b138ed966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:41 +0000
Subject: [PATCH 40/40] fix: do not import the package of a struct that is read
 into in place

The package of the type of a single, non-pointer, relation or result field was
imported, but as such a field needs no initialization the import was not used
and the generated file did not compile.
---
 internal/generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b646549..6748bec 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -509,6 +509,10 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 		typ = qs.Result.Type
 	}
 
+	if !typ.IsSlice && !typ.IsIter && !typ.IsPointer {
+		return // the value of the field itself needs no initialization
+	}
+
 	typeNode := GO.TypeNode(GO.Ident{typ.Base.Name})
 	if typ.Base.IsImported {
 		imp := addimport(g.file, typ.Base.PkgPath, typ.Base.PkgName)
-- 
2.43.0

