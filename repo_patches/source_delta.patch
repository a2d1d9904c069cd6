From 35e49109c0c07e9c6cf326e38930c8769960fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 01/56] fix: keep the SQL NULL flag of REDUNDANT fields

The NULL and external flags of a field end were set and then masked off
again, so NULL columns of ROW_FORMAT=REDUNDANT rows were printed as values.
---
 recovery/ibdata/parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8e4041f..7aae9ac 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1090,7 +1090,6 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 				// #define REC_OFFS_SQL_NULL	((ulint) 1 << 31)
 				offs |= 1 << 31
 			}
-			offs &= 0xffff
 
 			// #define rec_offs_base(offsets) (offsets + REC_OFFS_HEADER_SIZE)
 			(*offsets)[2:][1+i] = offs
@@ -1111,11 +1110,10 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 			// #define REC_2BYTE_EXTERN_MASK	0x4000UL
 			if (offs & 0x4000) != 0 {
 				// #define REC_2BYTE_EXTERN_MASK	0x4000UL
-				offs = uint64(int(offs) & ^0x8000)
+				offs = uint64(int(offs) & ^0x4000)
 				// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
 				offs = offs | (1 << 30)
 			}
-			offs &= 0xffff
 			(*offsets)[2:][1+i] = offs
 		}
 	}
-- 
2.43.0


From ff2b5e2e2a6b54c3eb3eb9b5deba95c44b2b60c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 02/56] fix: do not turn the text 'NULL' into SQL NULL

A NULL column was represented by the string NULL, so a row holding that
text was printed with a NULL in its place.
---
 recovery/ibdata/format.go | 2 +-
 recovery/ibdata/parse.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 08224d0..1401d60 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -41,7 +41,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteString("unhex(")
 			}
 
-			if column.FieldValue != nil && column.FieldValue != "NULL" {
+			if column.FieldValue != nil {
 				buf.WriteByte('\'')
 				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
 				buf.WriteByte('\'')
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 7aae9ac..228dc5f 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -935,7 +935,7 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 		data := utils.RecGetNthField(o, offsets, i, &fieldLen)
 		if uint64(len(data)) < fieldLen {
 			if fieldLen == 0xFFFFFFFF {
-				columns[i].FieldValue = "NULL"
+				columns[i].FieldValue = nil
 			}
 			continue
 		}
-- 
2.43.0


From bb10c584c9c431773c8376cf0917ed5e7913ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 03/56] fix: print BIT values in binary and NULL without a
 prefix

b'5' is not a bit literal and bNULL is not NULL.
---
 recovery/ibdata/format.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 1401d60..bf04f75 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -33,11 +33,12 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
-			if column.MySQLType == utils.MYSQL_TYPE_BIT {
+			if column.FieldValue != nil && column.MySQLType == utils.MYSQL_TYPE_BIT {
 				buf.WriteString("b")
+				column.FieldValue = fmt.Sprintf("%b", column.FieldValue)
 			}
 
-			if column.IsBinary {
+			if column.FieldValue != nil && column.IsBinary {
 				buf.WriteString("unhex(")
 			}
 
@@ -51,7 +52,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteString("NULL")
 			}
 
-			if column.IsBinary {
+			if column.FieldValue != nil && column.IsBinary {
 				buf.WriteString(")")
 			}
 		}
-- 
2.43.0


From 0e99cef8db7dfb464733cfc6fef76dab330dbe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 04/56] fix: do not replace the text 0001-01-01T00:00:00Z with
 nothing

---
 recovery/utils/utils.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 805121c..c2e912f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -938,11 +938,6 @@ func EscapeValue(colValue string) string {
 		last = i + 1
 	}
 	colBuffer.WriteString(colValue[last:])
-	// TODO: If the source is really 0001-01-01T00:00:00Z, it will cause data inconsistency.
-	if colBuffer.String() == "0001-01-01T00:00:00Z" {
-		colBuffer.Reset()
-		colBuffer.WriteString("")
-	}
 	return colBuffer.String()
 }
 
-- 
2.43.0


From 02c170f8d6c8dafb926fd8753c193e021dfe1960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 05/56] fix: read unsigned 3, 5, 6 and 7 byte values whole

The top two bits of MEDIUMINT UNSIGNED were dropped, and BIT columns of 33
to 56 bits read past the end of the value.
---
 recovery/utils/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index c2e912f..9e1479f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -98,15 +98,15 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 2:
 		return MatchReadFrom2(value)
 	case 3:
-		return MatchReadFrom3(value) & 0x3FFFFF
+		return MatchReadFrom3(value)
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-		return MatchReadFrom8(value) >> 24
+		return MatchReadFrom1(value)<<32 | MatchReadFrom4(value[1:])
 	case 6:
-		return MatchReadFrom8(value) >> 16
+		return MatchReadFrom2(value)<<32 | MatchReadFrom4(value[2:])
 	case 7:
-		return MatchReadFrom8(value) >> 8
+		return MatchReadFrom7(value)
 	case 8:
 		return MatchReadFrom8(value)
 	}
-- 
2.43.0


From 1613edbf7196e67ec37154bb24e9016a10a8d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 06/56] fix: strip only the pad spaces of CHAR values

TrimSpace also removed leading blanks and tabs or newlines that belong to
the value.
---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 9e1479f..49da6e8 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -642,7 +642,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 	case DATA_VARMYSQL:
 		return string(data[:FieldLen]), nil
 	case DATA_MYSQL:
-		return strings.TrimSpace(string(data[:FieldLen])), nil
+		return strings.TrimRight(string(data[:FieldLen]), " "), nil
 	case DATA_BLOB:
 		// TODO: deal with binary data.
 		if *IsBinary {
-- 
2.43.0


From bf20087d573bf61ff2c10cc1a6dfd5294956b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 07/56] fix: decode every DATETIME by its 5 stored bytes

The format was guessed from the following bytes of the page, so values
outside 1991-2099 were printed in the wrong format, and an undo record
ending with such a value could not be read.
---
 recovery/utils/utils.go | 98 ++++++-----------------------------------
 1 file changed, 14 insertions(+), 84 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 49da6e8..4e0c4ac 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -738,91 +738,21 @@ func GetMaxLength(MySQLType uint64) {
 	}
 }
 
-// GetTimeFormat ...
-func GetTimeFormat(data []byte) int {
-	d := MatchReadFrom8(data)
-	var year, month, day, hour, min, sec int
-
-	r := d &^ (1 << 63)
-	sec = int(r % 100)
-	r /= 100
-	min = int(r % 100)
-	r /= 100
-	hour = int(r % 100)
-	r /= 100
-	day = int(r % 100)
-	r /= 100
-	month = int(r % 100)
-	r /= 100
-	year = int(d % 10000)
-	if year > 1990 && year < 2100 && month >= 1 && month <= 12 &&
-		day >= 1 && day <= 31 && hour >= 0 && hour <= 23 &&
-		min >= 0 && min <= 59 && sec >= 0 && sec <= 59 {
-		return 1
-	}
-
-	var sign uint64
-	sign = 0
-	sign = d >> 63
-	if sign == 0 {
-		return 0
-	}
-
-	yd := (d & 0x7FFFC00000000000) >> 46
-	year = int(yd / 13)
-	month = int(int(yd) - (year * 13))
-	day = int((d & 0x00003E0000000000) >> 41)
-	hour = int((d & 0x000001F000000000) >> 36)
-	min = int((d & 0x0000000FC0000000) >> 30)
-	sec = int((d & 0x000000003F000000) >> 24)
-	if year > 1990 && year < 2100 && month >= 1 &&
-		month <= 12 && day >= 1 && day <= 31 &&
-		hour >= 0 && hour <= 23 && min >= 0 &&
-		min <= 59 && sec >= 0 && sec <= 59 {
-		return 2
-	}
-	return 0
-}
-
-// ParseDateTime ...
+// ParseDateTime reads the DATETIME format of MySQL 5.6.4 and later, the only
+// one stored with the type DATA_FIXBINARY.
 func ParseDateTime(data []byte) string {
-	format := GetTimeFormat(data)
-	if format == 1 || format == 0 {
-		ldate := MatchReadFrom8(data)
-		ldate = ldate &^ (1 << 63)
-		sec := ldate % 100
-		ldate /= 100
-		min := ldate % 100
-		ldate /= 100
-		hour := ldate % 100
-		ldate /= 100
-		day := ldate % 100
-		ldate /= 100
-		month := ldate % 100
-		ldate /= 100
-		year := ldate % 10000
-
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
-
-		return FormatTime
-
-	} else if format == 2 {
-		ldate := MatchReadFrom8(data)
-		yd := (ldate & 0x7FFFC00000000000) >> 46
-		year := yd / 13
-		month := yd - year*13
-		day := (ldate & 0x00003E0000000000) >> 41
-		hour := (ldate & 0x000001F000000000) >> 36
-		min := (ldate & 0x0000000FC0000000) >> 30
-		sec := (ldate & 0x000000003F000000) >> 24
-
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
-
-		return FormatTime
-	}
-
-	return ""
-
+	ldate := (MatchReadFrom4(data)<<8 | MatchReadFrom1(data[4:])) << 24
+	yd := (ldate & 0x7FFFC00000000000) >> 46
+	year := yd / 13
+	month := yd - year*13
+	day := (ldate & 0x00003E0000000000) >> 41
+	hour := (ldate & 0x000001F000000000) >> 36
+	min := (ldate & 0x0000000FC0000000) >> 30
+	sec := (ldate & 0x000000003F000000) >> 24
+
+	FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
+
+	return FormatTime
 }
 
 // ParseDate ...
-- 
2.43.0


From a83e9470329464bc243851d5341c68cc0eab22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 08/56] fix: print the year of a DATE with four digits

MySQL reads a two digit year such as 05 as 2005.
---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 4e0c4ac..f453e70 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -766,7 +766,7 @@ func ParseDate(data []byte) string {
 	month = int(ldate % 16)
 	ldate /= 16
 	year = int(ldate)
-	DateTime := fmt.Sprintf("%02d-%02d-%02d", year, month, day)
+	DateTime := fmt.Sprintf("%04d-%02d-%02d", year, month, day)
 	return DateTime
 }
 
-- 
2.43.0


From f331a970f92345dd12427c703f410a1d439d0112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 09/56] fix: print TIMESTAMP on the 24 hour clock and its zero
 value as zero

---
 recovery/utils/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index f453e70..6544031 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -812,7 +812,11 @@ func ParseTime(data []byte) string {
 func ParseTimeStamp(data []byte) string {
 	// TODO: add time_precision
 	t := MatchReadFrom4(data)
-	tm := time.Unix(int64(t), 0).Format("2006-01-02 03:04:05")
+	if t == 0 {
+		// The zero timestamp, not the start of the epoch.
+		return "0000-00-00 00:00:00"
+	}
+	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	return tm
 }
 
-- 
2.43.0


From 86c111d2c892a3a50f5f10ada8006bd6625e19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 10/56] fix: print the YEAR 0000 as 0, not as 1900

---
 recovery/utils/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 6544031..85d22a8 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -621,7 +621,11 @@ func ParseData(DataType uint64, MySQLType uint64,
 			DateTime := ParseDate(data)
 			return DateTime, nil
 		case MYSQL_TYPE_YEAR:
-			FormatYear := MatchReadFrom1(data) + 1900
+			FormatYear := MatchReadFrom1(data)
+			if FormatYear != 0 {
+				// 0 is the year 0000.
+				FormatYear += 1900
+			}
 			return FormatYear, nil
 		default:
 			if IsUnsigned {
-- 
2.43.0


From e723ede7cb82b00b30f38dc20697054fb2e2a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 11/56] fix: keep a leftover debug message out of the recovered
 statements

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 85d22a8..84f779c 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -598,7 +598,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return GetUintValue(FixLength, data[:FieldLen]), nil
 		case MYSQL_TYPE_NEWDECIMAL:
 			// TODO: support it.
-			fmt.Println("test MYSQL_TYPE_NEWDECIMAL")
+			logs.Info("the decimal data type, not support.")
 		case MYSQL_TYPE_STRING:
 			*IsBinary = true
 			return ParseBlob(data[:FieldLen]), nil
-- 
2.43.0


From 2a9ad328ea0be06215264b7f587c8095303af06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 12/56] fix: treat latin1 VARCHAR as a variable length column

Its maximum length was taken for a fixed one, so rows of tables with such a
column could not be read at all.
---
 recovery/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 84f779c..4197ed0 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -705,8 +705,8 @@ func GetFixedLengthByMySQLType(MySQLType uint64, FieldLen uint64) uint64 {
 func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 
 	switch DataType {
-	//case DATA_VARCHAR:
-	//	return 0
+	case DATA_VARCHAR:
+		return 0
 	//case DATA_CHAR:
 	//return FieldLen / 3
 	//case DATA_FIXBINARY:
-- 
2.43.0


From 3f1d3d3b33bdb839d8b0d56493d59325d5fe9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 13/56] fix: read two byte lengths of VARBINARY columns longer
 than 255

The length of binary columns is kept as 0, so the record header was read as
if all their lengths took one byte.
---
 recovery/ibdata/parse.go     | 3 ++-
 recovery/ibdata/structure.go | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 228dc5f..9d243a3 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -462,6 +462,7 @@ func (parse *Parse) getAllColumns() error {
 					FieldLen:  TempFieldLen,
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
+					IsLong:   c[7].FieldValue.(uint64) > 255,
 					IsBinary: IsBinary})
 
 			parse.TableMap[c[0].FieldValue.(uint64)] = t
@@ -1160,7 +1161,7 @@ func (parse *Parse) ibRecInitOffsetsNew(d []byte, offset uint64, o []byte, offse
 			//      if (debug) printf("Variable-length field: read the length\n");
 			/* Variable-length field: read the length */
 
-			if table.Columns[i].FieldLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
+			if table.Columns[i].IsLong || table.Columns[i].FieldType == utils.DATA_BLOB {
 
 				if length&0x80 != 0 {
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 8c2b617..642fbae 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -36,6 +36,9 @@ type Columns struct {
 	IsBinary   bool
 	IsUnsigned bool
 	TableID    uint64
+
+	// the stored length can take two bytes: more than 255 bytes fit.
+	IsLong bool
 }
 
 // Indexes store the table index info.
-- 
2.43.0


From f2a90afffcccce83bef218b0f8b51840927f2a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 14/56] fix: read dictionary rows from leaf index pages only

Node pointers of a dictionary index that has grown beyond one page, and
other pages that happen to hold its number, were taken for its rows.
---
 recovery/ibdata/parse.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 9d243a3..18d5ec3 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -76,28 +76,33 @@ func (parse *Parse) ParseDictPage(path string) error {
 
 			var ds []DataDict
 			parse.parsePageHeader(&page)
-			ds = append(ds,
-				DataDict{
-					IndexId:    page.ph.PAGE_INDEX_ID,
-					PageOffset: page.fh.FIL_PAGE_OFFSET,
-					data:       page.OriginalData,
-					pos:        len(page.OriginalData) - len(page.data)})
+			// Only leaf pages hold rows.
+			if page.ph.PAGE_LEVEL == 0 {
+				ds = append(ds,
+					DataDict{
+						IndexId:    page.ph.PAGE_INDEX_ID,
+						PageOffset: page.fh.FIL_PAGE_OFFSET,
+						data:       page.OriginalData,
+						pos:        len(page.OriginalData) - len(page.data)})
+			}
 			parse.D.Store(page.ph.PAGE_INDEX_ID, ds)
 
 			logs.Debug("page offset is ", page.fh.FIL_PAGE_OFFSET,
 				"indexId is", page.ph.PAGE_INDEX_ID, " data len is ", len(ds))
 
-		} else {
+		} else if page.fh.FIL_PAGE_TYPE == FilPageIndex {
 			f := func(k, v interface{}) bool {
 				if k == page.ph.PAGE_INDEX_ID {
 					ds := v.([]DataDict)
 					parse.parsePageHeader(&page)
-					ds = append(ds,
-						DataDict{
-							IndexId:    page.ph.PAGE_INDEX_ID,
-							PageOffset: page.fh.FIL_PAGE_OFFSET,
-							data:       page.OriginalData,
-							pos:        len(page.OriginalData) - len(page.data)})
+					if page.ph.PAGE_LEVEL == 0 {
+						ds = append(ds,
+							DataDict{
+								IndexId:    page.ph.PAGE_INDEX_ID,
+								PageOffset: page.fh.FIL_PAGE_OFFSET,
+								data:       page.OriginalData,
+								pos:        len(page.OriginalData) - len(page.data)})
+					}
 					parse.D.Store(page.ph.PAGE_INDEX_ID, ds)
 
 					logs.Debug("page offset is ", page.fh.FIL_PAGE_OFFSET,
-- 
2.43.0


From e5efa99dbc2866abf0beba188b1981f1618d6a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 15/56] fix: sort columns and index fields by their position

sortColumns had no effect, so a table whose dictionary rows are spread over
pages that lie out of order in the file was decoded with its columns mixed up.
---
 recovery/ibdata/parse.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 18d5ec3..f103719 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 	"sync"
 
@@ -301,17 +302,16 @@ func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
 	return page, nil
 }
 
-// sortColumns sort columns by field position.
-// // TODO: why some table fields is not sort?
+// sortColumns sort columns and index fields by their position: the pages of a
+// dictionary table can lie in any order in the file.
 func (parse *Parse) sortColumns() {
-	var sortedColumns []Columns
 	for _, table := range parse.TableMap {
-		for i, field := range table.Columns {
-			if field.FieldPos == uint64(i) {
-				sortedColumns = append(sortedColumns, field)
-			}
+		columns := table.Columns
+		sort.SliceStable(columns, func(i, j int) bool { return columns[i].FieldPos < columns[j].FieldPos })
+		for _, idx := range table.Indexes {
+			fields := idx.Fields
+			sort.SliceStable(fields, func(i, j int) bool { return fields[i].ColumnPos < fields[j].ColumnPos })
 		}
-		table.Columns = sortedColumns
 	}
 }
 
-- 
2.43.0


From 9b2a594b1d6033689a5237d92ba39c2f8ba6a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 16/56] fix: put the primary key columns first in key order

moveColumns2First dropped or swapped columns unless the key was a prefix of
the table definition, and the values were printed in key order although a
REPLACE without a column list takes them in definition order.
---
 recovery/ibdata/format.go | 6 ++++++
 recovery/ibdata/parse.go  | 9 +++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index bf04f75..e8a78fc 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -3,6 +3,7 @@ package ibdata
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/zbdba/db-recovery/recovery/logs"
 	"github.com/zbdba/db-recovery/recovery/utils"
@@ -15,6 +16,11 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 	for _, columns := range AllColumns {
 
+		// The key columns come first in the record, the values go out in the
+		// order of the table definition.
+		columns = append([]Columns{}, columns...)
+		sort.SliceStable(columns, func(i, j int) bool { return columns[i].FieldPos < columns[j].FieldPos })
+
 		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
 		firstCol := true
 
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index f103719..db1acc7 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -330,12 +330,13 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 // moveColumns2First ...
 func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
-	for i := 0; i < len(columns); i++ {
-		for j, field := range fields {
+	for j, field := range fields {
+		for i := j; i < len(columns); i++ {
 			if field.ColumnName == columns[i].FieldName {
 				tempField := columns[i]
-				columns = append(columns[:j], columns[j+1:]...)
-				columns = append([]Columns{tempField}, columns...)
+				columns = append(columns[:i], columns[i+1:]...)
+				columns = addColumns(columns, j, tempField)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 02605acbbb948d0e322635f036caa57b6c2b1fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 17/56] fix: decode tables clustered on a unique index

A table without a primary key is stored in the order of its first unique
index that allows no NULL, whatever the name of that index. Such rows were
decoded without their internal columns.
---
 recovery/ibdata/const.go     | 4 ++++
 recovery/ibdata/parse.go     | 4 ++--
 recovery/ibdata/structure.go | 6 ++++++
 recovery/redo/mlog.go        | 2 +-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/const.go b/recovery/ibdata/const.go
index d15552b..f8a0270 100644
--- a/recovery/ibdata/const.go
+++ b/recovery/ibdata/const.go
@@ -33,3 +33,7 @@ const (
 	SysFieldsIdx  uint64 = 4
 	SystemPageIdx uint64 = 7
 )
+
+// DictClustered is the bit of the clustered index in SYS_INDEXES.TYPE,
+// storage/innobase/include/dict0mem.h
+const DictClustered uint64 = 1
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index db1acc7..127a9b9 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -320,7 +320,7 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.IsClusteredKey() {
 				table.Columns = parse.moveColumns2First(idx.Fields, table.Columns)
 			}
 		}
@@ -350,7 +350,7 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.IsClusteredKey() {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
 				RollPtrColumns := parse.addInternalColumn("DB_ROLL_PTR", tableID, idx.FieldNum+1)
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 642fbae..37eb2af 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -134,3 +134,9 @@ type Page struct {
 	OriginalData []byte
 	data         []byte
 }
+
+// IsClusteredKey tells whether the rows are stored in the order of this index:
+// the primary key, or without one the first unique index that allows no NULL.
+func (idx Indexes) IsClusteredKey() bool {
+	return idx.Name != "GEN_CLUST_INDEX" && idx.IndexType&DictClustered != 0
+}
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8889ffb..0924fc2 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -275,7 +275,7 @@ func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error)
 	var fields []*ibdata.Fields
 
 	for _, idx := range table.Indexes {
-		if strings.TrimSpace(idx.Name) == "PRIMARY" || strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
+		if idx.IsClusteredKey() || strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
 			if strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
 				fields = []*ibdata.Fields{&ibdata.Fields{ColumnPos: 0, ColumnName: "DB_ROW_ID"}}
 			} else {
-- 
2.43.0


From 4987f88a7eb1f49aff3345016687179bd97bdeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 18/56] fix: do not print delete marked records as live rows

They stay in the record list until they are purged. In the dictionary they
brought dropped tables, columns and indexes back.
---
 recovery/ibdata/parse.go |  5 +++++
 recovery/utils/utils.go  | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 127a9b9..90339d0 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -873,6 +873,11 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 			var offsets []uint64 = make([]uint64, len(columns)*2, len(columns)*2)
 			origin := data[offset:]
 
+			// A delete marked record is not a row any more.
+			if !isRecovery && utils.RecIsDeleted(data, offset) {
+				goto END
+			}
+
 			// Parse the row offset array, use the offset array can get
 			// the column offset and len in the row.
 			if utils.PageIsCompact(data) == 0 {
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 4197ed0..e17ad91 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -38,6 +38,18 @@ func RecGetStatus(rec []byte, offset uint64) uint64 {
 	return RecGetBitField1(rec, offset, 3, 0x7, 0)
 }
 
+// RecIsDeleted reference MySQL rec_get_deleted_flag method.
+func RecIsDeleted(page []byte, offset uint64) bool {
+	// #define REC_NEW_INFO_BITS	5
+	var infoBits uint64 = 5
+	if PageIsCompact(page) == 0 {
+		// #define REC_OLD_INFO_BITS	6
+		infoBits = 6
+	}
+	// #define REC_INFO_DELETED_FLAG	0x20UL
+	return RecGetBitField1(page, offset, infoBits, 0x20, 0) != 0
+}
+
 // UtAlignOffset reference MySQL ut_align_offset method
 func UtAlignOffset(rec []byte, AlignNo uint64) uint64 {
 	return uint64(rec[0]) & (AlignNo - 1)
-- 
2.43.0


From 43492430c162691c2750e40fbd01e47ad6876724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 19/56] fix: print the YEAR 0000 with four digits

MySQL reads the string '0' as the year 2000.
---
 recovery/utils/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index e17ad91..a3824ee 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -634,10 +634,10 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return DateTime, nil
 		case MYSQL_TYPE_YEAR:
 			FormatYear := MatchReadFrom1(data)
-			if FormatYear != 0 {
-				// 0 is the year 0000.
-				FormatYear += 1900
+			if FormatYear == 0 {
+				return "0000", nil
 			}
+			FormatYear += 1900
 			return FormatYear, nil
 		default:
 			if IsUnsigned {
-- 
2.43.0


From 619d39da25c4fc5f9059f288997f00a4ef41ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 20/56] fix: an index of an unknown table does not make the
 dictionary unusable

---
 recovery/ibdata/parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 90339d0..ba651fd 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -523,11 +523,12 @@ func (parse *Parse) getAllIndexes() error {
 			t.Indexes = index
 			parse.TableMap[columns[0].FieldValue.(uint64)] = t
 		} else {
-			err = errors.New("Table ID have not found " + fmt.Sprint(columns[0].FieldValue))
-			logs.Error(err.Error())
+			// The dictionary pages need not be of the same age, this must not
+			// keep the other tables from being read.
+			logs.Error("Table ID have not found " + fmt.Sprint(columns[0].FieldValue))
 		}
 	}
-	return err
+	return nil
 }
 
 // Get all fields from sys fields dict table.
-- 
2.43.0


From d5a444c516588d3f09b5e68a4e7c5f6f155b4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 21/56] fix: take every page from its own position in the file

The first page of each number won, so an older copy in the doublewrite
buffer hid the page itself.
---
 recovery/ibdata/parse.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index ba651fd..5387473 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -215,9 +215,7 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	}
 	defer file.Close()
 
-	pageMap := make(map[uint64]string)
-
-	for {
+	for pageNo := uint64(0); ; pageNo++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
 		if len(data) < DefaultPageSize {
@@ -241,11 +239,10 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 		// Store the page.
 		page.OriginalData = data
 
-		// TODO: why have the same pages?
-		// Store the page into the pageMap.
-		if _, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
+		// Pages elsewhere than at their own position are older copies, such as
+		// those in the doublewrite buffer.
+		if page.fh.FIL_PAGE_OFFSET == pageNo {
 			pages = append(pages, page)
-			pageMap[page.fh.FIL_PAGE_OFFSET] = "have"
 		}
 	}
 	return pages, err
-- 
2.43.0


From 6a38ace420db11036fb08e0996ed638a47a61f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 22/56] fix: stop at the damaged record of a page

A record chain that pointed outside the page crashed the run, one that
looped never ended, and fields reaching beyond the page repeated the value
of the row before. The other pages lost their rows.
---
 recovery/ibdata/parse.go | 45 +++++++++++++++++++++++++++++-----------
 recovery/utils/utils.go  |  3 ++-
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 5387473..da5dbf9 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -795,16 +795,14 @@ func (parse *Parse) parsePageHeader(page *Page) *Page {
 // 7.Fil Trailer
 // Read all those info and parse according to its protocol.
 // TODO: support compress and encrypt page.
-func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) [][]Columns {
+func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) (allColumns [][]Columns) {
 
-	// catch panic
-	//defer func() {
-	//	if err := recover(); err != nil {
-	//		logs.Error("skip error, the error is ", err)
-	//	}
-	//}()
-
-	var allColumns [][]Columns
+	// A damaged page can point anywhere, keep the records read before that.
+	defer func() {
+		if err := recover(); err != nil {
+			logs.Error("skip error, the error is ", err)
+		}
+	}()
 
 	// The PAGE_BTR_SEG_LEAF length
 	pos += 10
@@ -860,8 +858,9 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 		}
 	}
 
+	// A record takes at least 5 bytes, more of them than fit means a loop.
 	var totalLen uint64
-	for {
+	for n := 0; n < len(data)/5; n++ {
 		// TODO: const
 		if offset < (16384-6) && (offset != supremum) {
 			var c []Columns
@@ -897,12 +896,18 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 			//	fmt.Println(i, value)
 			//}
 
-			if !parse.checkFieldSize(&offsets, columns) {
+			if !parse.checkFieldSize(&offsets, columns) || !parse.checkFieldEnds(&offsets, len(columns), len(origin)) {
 				break
 			}
 
-			c, _ = parse.parseRecords(data, origin, offsets, columns)
+			// The records of a page do not overlap, or the chain loops.
 			totalLen += utils.RecOffsSize(&offsets)
+			if totalLen > uint64(len(data)) {
+				logs.Error("the records are longer than the page, offset is ", offset)
+				break
+			}
+
+			c, _ = parse.parseRecords(data, origin, offsets, columns)
 			allColumns = append(allColumns, c)
 
 		END:
@@ -1054,6 +1059,22 @@ func (parse *Parse) checkFieldSize(offsets *[]uint64, columns []Columns) bool {
 	return true
 }
 
+// checkFieldEnds makes sure that every field lies behind the one before it and
+// inside the page.
+func (parse *Parse) checkFieldEnds(offsets *[]uint64, fieldNum int, size int) bool {
+	var start uint64
+	for i := 1; i <= fieldNum; i++ {
+		// REC_OFFS_MASK
+		end := (*offsets)[2:][i] & ((1 << 30) - 1)
+		if end < start || end > uint64(size) {
+			logs.Error("field end is out of range, ", "end is ", end, " start is ", start, " i is ", i-1)
+			return false
+		}
+		start = end
+	}
+	return true
+}
+
 func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]Columns, error) {
 	var columns []Columns
 	for _, table := range parse.TableMap {
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index a3824ee..392172f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -148,7 +148,8 @@ func RecOffsExtraSize(offsets *[]uint64) uint64 {
 
 // RecOffsDataSize reference MySQL rec_offs_data_size method.
 func RecOffsDataSize(offsets *[]uint64) uint64 {
-	return (*offsets)[2:][RecOffNFields(offsets)]
+	// REC_OFFS_MASK
+	return (*offsets)[2:][RecOffNFields(offsets)] & ((1 << 30) - 1)
 }
 
 // RecOffNFields reference MySQL rec_offs_n_fields method.
-- 
2.43.0


From 8383b10fc9afc85134e8889979dfa8e6abfd8efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 23/56] fix: report a table that is not in the dictionary

Without columns the first row crashed the run, and a file without rows
looked like an empty table.
---
 recovery/ibdata/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index da5dbf9..1469816 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1082,6 +1082,9 @@ func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]
 			columns = table.Columns
 		}
 	}
+	if len(columns) == 0 {
+		return columns, fmt.Errorf("table `%s`.`%s` not found in the data dictionary", dbName, tableName)
+	}
 	return columns, nil
 }
 
-- 
2.43.0


From 78bac89ef9337ce6401c621b34d69b21265de329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 24/56] fix: skip dictionary rows that lack a value

A damaged dictionary page crashed the run.
---
 recovery/ibdata/parse.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 1469816..98889c7 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -347,7 +347,9 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.IsClusteredKey() {
+			if idx.FieldNum > uint64(len(table.Columns)) {
+				logs.Error("index ", idx.Name, " has more columns than table ", table.TableName)
+			} else if idx.IsClusteredKey() {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
 				RollPtrColumns := parse.addInternalColumn("DB_ROLL_PTR", tableID, idx.FieldNum+1)
@@ -416,6 +418,9 @@ func (parse *Parse) getAllColumns() error {
 	}
 
 	for _, c := range AllPageColumns {
+		if !isDictRow(c, 0, 1, 4, 5, 6, 7) {
+			continue
+		}
 
 		v, ok := parse.TableMap[c[0].FieldValue.(uint64)]
 		if ok {
@@ -498,6 +503,9 @@ func (parse *Parse) getAllIndexes() error {
 	}
 
 	for _, columns := range allPageColumns {
+		if !isDictRow(columns, 0, 1, 4, 5, 6) {
+			continue
+		}
 		var index map[uint64]Indexes
 		v, ok := parse.TableMap[columns[0].FieldValue.(uint64)]
 		if ok {
@@ -551,6 +559,9 @@ func (parse *Parse) getAllFields() error {
 	// store all fields into index map
 	indexFieldsMap := make(map[uint64][]*Fields)
 	for _, columns := range allPageColumns {
+		if !isDictRow(columns, 0, 1, 4) {
+			continue
+		}
 		v, ok := indexFieldsMap[columns[0].FieldValue.(uint64)]
 		if ok {
 			v = append(v, &Fields{
@@ -606,6 +617,9 @@ func (parse *Parse) getAllTables() error {
 		allColumns := parse.parsePage(dt.data, dt.pos, columns, false, 0)
 
 		for _, columns := range allColumns {
+			if !isDictRow(columns, 0, 3, 9) {
+				continue
+			}
 			// database and table name, for example: zbdba3/jingbo_test
 			var tableName string
 			var databaseName string
@@ -627,6 +641,18 @@ func (parse *Parse) getAllTables() error {
 	return nil
 }
 
+// isDictRow tells whether a dictionary row has the given columns, which are
+// never NULL unless the page is damaged.
+func isDictRow(columns []Columns, needed ...int) bool {
+	for _, i := range needed {
+		if columns[i].FieldValue == nil {
+			logs.Error("dictionary row without a value of ", columns[i].FieldName)
+			return false
+		}
+	}
+	return true
+}
+
 func (parse *Parse) parseSysPageHeader(page Page) (Page, error) {
 
 	pos := 0
-- 
2.43.0


From 4d0684d47805b53fca9045d4aade93ebdab3a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 25/56] fix: do not decode rows of tables whose definition is
 incomplete

---
 recovery/ibdata/parse.go     | 51 +++++++++++++++++++++++++++++++++++-
 recovery/ibdata/structure.go |  1 +
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 98889c7..9d6cafb 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -134,6 +134,9 @@ func (parse *Parse) ParseDictPage(path string) error {
 	// Sort fields
 	parse.sortColumns()
 
+	// Rows of half known tables can't be decoded.
+	parse.dropIncompleteTables()
+
 	// Move primary key first.
 	parse.movePrimaryKeyFirst()
 
@@ -312,6 +315,44 @@ func (parse *Parse) sortColumns() {
 	}
 }
 
+// dropIncompleteTables removes the tables of which the dictionary does not hold
+// all columns and the whole clustered index.
+func (parse *Parse) dropIncompleteTables() {
+	for tableID, table := range parse.TableMap {
+		complete := uint64(len(table.Columns)) == table.ColumnNum
+		for i, column := range table.Columns {
+			complete = complete && column.FieldPos == uint64(i)
+		}
+		clustered := 0
+		for _, idx := range table.Indexes {
+			if idx.IndexType&DictClustered == 0 {
+				continue
+			}
+			clustered++
+			complete = complete && uint64(len(idx.Fields)) == idx.FieldNum
+			for i, field := range idx.Fields {
+				// The position is in the higher bytes if a field is a prefix.
+				complete = complete && (field.ColumnPos == uint64(i) || field.ColumnPos>>16 == uint64(i)) &&
+					getColumnPos(field.ColumnName, table.Columns) >= 0
+			}
+		}
+		if !complete || clustered != 1 {
+			logs.Error("the data dictionary does not hold the whole definition of table ", table.DBName, table.TableName)
+			delete(parse.TableMap, tableID)
+		}
+	}
+}
+
+// getColumnPos finds a column by its name.
+func getColumnPos(name string, columns []Columns) int {
+	for i, column := range columns {
+		if column.FieldName == name {
+			return i
+		}
+	}
+	return -1
+}
+
 // move the primary key field to the first.
 func (parse *Parse) movePrimaryKeyFirst() {
 
@@ -617,7 +658,7 @@ func (parse *Parse) getAllTables() error {
 		allColumns := parse.parsePage(dt.data, dt.pos, columns, false, 0)
 
 		for _, columns := range allColumns {
-			if !isDictRow(columns, 0, 3, 9) {
+			if !isDictRow(columns, 0, 3, 4, 9) {
 				continue
 			}
 			// database and table name, for example: zbdba3/jingbo_test
@@ -635,6 +676,7 @@ func (parse *Parse) getAllTables() error {
 					DBName:    databaseName,
 					TableName: tableName,
 					NullCount: 0,
+					ColumnNum: columnNum(columns[4].FieldValue),
 					SpaceId:   columns[9].FieldValue.(uint64)}
 		}
 	}
@@ -653,6 +695,13 @@ func isDictRow(columns []Columns, needed ...int) bool {
 	return true
 }
 
+// columnNum takes the number of stored columns from SYS_TABLES.N_COLS. Its
+// higher bits hold the row format and the number of virtual columns.
+func columnNum(nCols interface{}) uint64 {
+	n, _ := nCols.(int)
+	return uint64(n) & 0xFFFF
+}
+
 func (parse *Parse) parseSysPageHeader(page Page) (Page, error) {
 
 	pos := 0
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 37eb2af..53a9677 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -21,6 +21,7 @@ type Tables struct {
 	Columns   []Columns
 	Indexes   map[uint64]Indexes
 	NullCount int
+	ColumnNum uint64
 	SpaceId   uint64
 }
 
-- 
2.43.0


From fb046312437a07a7c5a2ad64eda2a4290ed3c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 26/56] fix: read files whole and report failed reads

---
 recovery/ibdata/parse.go |  10 ++--
 recovery/redo/parse.go   | 100 ++++++++++++++++++++++++---------------
 recovery/utils/utils.go  |  12 ++---
 3 files changed, 73 insertions(+), 49 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 9d6cafb..8879d70 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -17,6 +17,7 @@ package ibdata
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"sort"
 	"strings"
@@ -221,10 +222,11 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	for pageNo := uint64(0); ; pageNo++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
-		if len(data) < DefaultPageSize {
-			if len(data) != 0 {
-				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
-			}
+		if err == io.EOF {
+			break
+		}
+		if err == io.ErrUnexpectedEOF {
+			logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
 			break
 		}
 		if err != nil {
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7985960..8887bb8 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -17,6 +17,7 @@ package redo
 import (
 	"bytes"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
@@ -69,55 +70,74 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 //	* http://mysql.taobao.org/monthly/2017/09/07/
 func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	var data []byte
+	var readErr error
 	for _, LogFile := range logFileList {
-		file, err := os.Open(LogFile)
-		if err != nil {
-			logs.Error("Error while opening file, the error is ", err)
-			return err
+		data, readErr = parse.readRedoLogFile(LogFile, data)
+		if readErr != nil {
+			logs.Error("read redo log file failed, the file is ", LogFile, " the error is ", readErr)
+			break
 		}
+	}
 
-		// parse redo log header
-		if err = parse.readRedoLogFileHeader(file); err != nil {
-			return err
-		}
+	// Start parse redo log data, also if not all of it could be read.
+	err := parse.parseRedoBlockData(data)
+	if err != nil {
+		logs.Error("parse redo block data failed, error: ", err.Error())
+		return err
+	}
+	return readErr
+}
 
-		// parse redo log checkpoint
-		if err = parse.readRedoLogFileCheckpoint(file); err != nil {
-			return err
-		}
+// readRedoLogFile adds the redo block data of a redo log file to data.
+func (parse *Parse) readRedoLogFile(LogFile string, data []byte) ([]byte, error) {
+	file, err := os.Open(LogFile)
+	if err != nil {
+		return data, err
+	}
+	defer file.Close()
 
-		// parse left redo log block
-		for {
-			// when parsing the redo log file, record the read position.
-			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
-			if err != nil {
-				break
-			}
+	// parse redo log header
+	if err = parse.readRedoLogFileHeader(file); err != nil {
+		return data, err
+	}
 
-			// Parse the redo block blockHeader.
-			// The redo block consists of redo log blockHeader and redo log data.
-			blockHeader, err := parse.readRedoBlockHeader(block)
-			if err != nil || blockHeader.BlockDataLen == 0 {
-				break
-			}
+	// parse redo log checkpoint
+	if err = parse.readRedoLogFileCheckpoint(file); err != nil {
+		return data, err
+	}
 
-			// LOG_BLOCK_TRL_SIZE, for checksum.
-			if blockHeader.BlockDataLen >= OS_FILE_LOG_BLOCK_SIZE {
-				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
-			}
+	// parse left redo log block
+	for {
+		// when parsing the redo log file, record the read position.
+		block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			return data, err
+		}
+		if len(block) <= LOG_BLOCK_HDR_SIZE {
+			break
+		}
 
-			// Add all redo block data.
-			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
+		// Parse the redo block blockHeader.
+		// The redo block consists of redo log blockHeader and redo log data.
+		blockHeader, err := parse.readRedoBlockHeader(block)
+		if err != nil || blockHeader.BlockDataLen == 0 {
+			break
 		}
-		file.Close()
-	}
 
-	// Start parse redo log data.
-	err := parse.parseRedoBlockData(data)
-	if err != nil {
-		logs.Error("parse redo block data failed, error: ", err.Error())
+		// LOG_BLOCK_TRL_SIZE, for checksum.
+		if blockHeader.BlockDataLen >= OS_FILE_LOG_BLOCK_SIZE {
+			blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
+		}
+
+		// The file can end inside the block.
+		if int(blockHeader.BlockDataLen) > len(block) {
+			blockHeader.BlockDataLen = uint16(len(block))
+		}
+
+		// Add all redo block data.
+		data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
 	}
-	return err
+	return data, nil
 }
 
 //	storage/innobase/include/log0log.ic
@@ -192,7 +212,9 @@ func (parse *Parse) readRedoLogFileCheckpoint(file *os.File) error {
 	logs.Debugf("Checkpoint1 Number: 0x%X, LSN: 0x%X, Offset: 0x%d, BufferSize: %d, ArchivedLSN: 0x%X, Checksum1: 0x%X, Checksum2: 0x%X, CurrentFSP: 0x%X, Magic: 0x%X",
 		checkpoint1.Number, checkpoint1.LSN, checkpoint1.Offset, checkpoint1.BufferSize, checkpoint1.ArchivedLSN, checkpoint1.Checksum1, checkpoint1.Checksum2, checkpoint1.CurrentFSP, checkpoint1.Magic)
 
-	utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
+	if _, err = utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE); err != nil {
+		return err
+	}
 
 	checkpoint2 := Checkpoint{}
 	err = utils.ReadIntoStruct(file, &checkpoint2, OS_FILE_LOG_BLOCK_SIZE)
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 392172f..b7229f4 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -19,6 +19,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"math"
 	"os"
@@ -218,16 +219,15 @@ func RecGetNthFieldOffs(offsets []uint64, n int, len *uint64) uint64 {
 	return offs
 }
 
-// ReadNextBytes ...
+// ReadNextBytes reads the next bytes of the file. If there are less of them it
+// returns the bytes there are together with the error.
 func ReadNextBytes(file *os.File, number int) ([]byte, error) {
 	bytes := make([]byte, number)
 
-	_, err := file.Read(bytes)
-	if err != nil {
-		return nil, err
-	}
+	// One read may return less than what is left of the file.
+	n, err := io.ReadFull(file, bytes)
 
-	return bytes, nil
+	return bytes[:n], err
 }
 
 // MatchReadFrom1 ...
-- 
2.43.0


From 236801205ed0c5106fd57a4e716982292cc9e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 27/56] fix: bound every log record by its own length and the
 end of the log

---
 recovery/redo/mlog.go  | 190 ++++++++++++++++++++++-------------------
 recovery/redo/parse.go |  84 +++++++++---------
 2 files changed, 140 insertions(+), 134 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 0924fc2..5d70b6b 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -76,17 +76,60 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	dataLen := utils.MatchReadFrom2(data[*pos:])
 	*pos += 2
 	startPos := *pos
+	*pos = startPos + dataLen
+
+	if *pos > uint64(len(data)) {
+		logs.Warn("the log ends inside an undo record, the pos is ", startPos)
+		return nil
+	}
+
+	return parse.parseUndoRecord(data[startPos:*pos:*pos])
+}
+
+// parseUndoRecord parse an undo record, data holds nothing but that record.
+func (parse *Parse) parseUndoRecord(data []byte) error {
+	table, primaryFields, columns, err := parse.readUndoRecord(data)
+	if err != nil {
+		logs.Error("skip undo record, the error is ", err)
+		return nil
+	}
+
+	// Make data to sql statement, only for update statement.
+	// Print sql statement when user identify the table name or the database name,
+	// if user don't identify table and database name, print all sql statement.
+	if len(columns) == 0 {
+		return nil
+	}
+	if table.DBName == parse.DBName {
+		if table.TableName == parse.TableName {
+			parse.makeSQL(table, primaryFields, columns)
+		} else if parse.TableName == "" {
+			parse.makeSQL(table, primaryFields, columns)
+		}
+	} else if parse.DBName == "" && parse.TableName == "" {
+		parse.makeSQL(table, primaryFields, columns)
+	} else if parse.TableName != "" && parse.TableName == table.TableName {
+		parse.makeSQL(table, primaryFields, columns)
+	}
+	return nil
+}
+
+// readUndoRecord gets the table, the primary key and, for the update of an
+// existing record, the old values of the updated columns.
+func (parse *Parse) readUndoRecord(data []byte) (table ibdata.Tables, primaryFields []*ibdata.Fields,
+	columns []*ibdata.Columns, err error) {
 
 	// catch panic
 	defer func() {
-		if err := recover(); err != nil {
-			logs.Error("skip error, the error is ", err)
-			*pos = startPos + dataLen
+		if e := recover(); e != nil {
+			err = fmt.Errorf("undo record is damaged: %v", e)
 		}
 	}()
 
-	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
-	*pos++
+	var pos uint64
+
+	typeCmpl := int64(utils.MatchReadFrom1(data[pos:]))
+	pos++
 
 	typeCmpl &= ^TRX_UNDO_UPD_EXTERN
 	undoType := typeCmpl & (TRX_UNDO_CMPL_INFO_MULT - 1)
@@ -94,180 +137,154 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 
 	logs.Debug("undoType is", undoType, "cmplInfo is ", cmplInfo)
 
-	undoNo, err := utils.MatchUllReadMuchCompressed(data[*pos:])
+	undoNo, err := utils.MatchUllReadMuchCompressed(data[pos:])
 	if err != nil {
-		*pos = startPos + dataLen
-		return err
+		return table, nil, nil, err
 	}
 	logs.Debug("undoNo is ", undoNo)
 
-	*pos += utils.MachUllGetMuchCompressedSize(undoNo)
+	pos += utils.MachUllGetMuchCompressedSize(undoNo)
 
-	tableID, err := utils.MatchUllReadMuchCompressed(data[*pos:])
+	tableID, err := utils.MatchUllReadMuchCompressed(data[pos:])
 	if err != nil {
-		*pos = startPos + dataLen
-		return err
+		return table, nil, nil, err
 	}
 
 	logs.Debug("tableID is ", tableID)
-	*pos += utils.MachUllGetMuchCompressedSize(tableID)
+	pos += utils.MachUllGetMuchCompressedSize(tableID)
 
 	if undoType != TRX_UNDO_INSERT_REC {
 		// Skip info bits
-		logs.Debug("info bits is ", data[*pos:][0])
-		*pos++
+		logs.Debug("info bits is ", data[pos:][0])
+		pos++
 
-		trxID := utils.MatchUllReadComPressed(data, pos)
+		trxID := utils.MatchUllReadComPressed(data, &pos)
 		logs.Debug("TrxID is ", trxID)
 
-		rollPtr := utils.MatchUllReadComPressed(data, pos)
+		rollPtr := utils.MatchUllReadComPressed(data, &pos)
 		logs.Debug("rollPtr is ", rollPtr)
 	}
 
-	Table, err := parse.getTableByTableID(tableID)
+	table, err = parse.getTableByTableID(tableID)
 	if err != nil {
-		*pos = startPos + dataLen
-		return err
+		return table, nil, nil, err
 	}
 
-	primaryFields, err := parse.getPrimaryKey(Table)
+	primaryFields, err = parse.getPrimaryKey(table)
 	if err != nil {
-		*pos = startPos + dataLen
-		return err
+		return table, nil, nil, err
 	}
 
 	for _, v := range primaryFields {
-		column := parse.getColumnsByName(Table, v.ColumnName)
+		column := parse.getColumnsByName(table, v.ColumnName)
 		// get the unique key.
-		FiledLen, num, err := utils.MatchParseCompressed(data, *pos)
+		FiledLen, num, err := utils.MatchParseCompressed(data, pos)
 		if err != nil {
-			return err
+			return table, nil, nil, err
 		}
 		logs.Debug("FiledLen is ", FiledLen, "num is ", num)
-		*pos += num
+		pos += num
 		value, err := utils.ParseData(
 			column.FieldType, column.MySQLType,
-			data[*pos:*pos+FiledLen], FiledLen,
+			data[pos:pos+FiledLen], FiledLen,
 			int(utils.GetFixedLength(column.FieldType, column.FieldLen)),
 			column.IsUnsigned, &column.IsBinary)
 		if err != nil {
-			return err
+			return table, nil, nil, err
 		}
 
-		logs.Debug("the table is ", Table.TableName, " table id is ", tableID, " unique value is ")
+		logs.Debug("the table is ", table.TableName, " table id is ", tableID, " unique value is ")
 		v.ColumnValue = value
 
-		*pos += FiledLen
+		pos += FiledLen
 	}
 
-	var columns []*ibdata.Columns
-
 	// Get update record.
 	if undoType == TRX_UNDO_UPD_EXIST_REC {
 		// Get update column num.
-		columnNum, num, err := utils.MatchParseCompressed(data, *pos)
+		columnNum, num, err := utils.MatchParseCompressed(data, pos)
 		if err != nil {
-			return err
+			return table, nil, nil, err
 		}
 
 		logs.Debug("columnNum is ", columnNum)
-		*pos += num
+		pos += num
 
 		var i uint64
 		for i = 0; i < columnNum; i++ {
-			Pos, num, err := utils.MatchParseCompressed(data, *pos)
+			Pos, num, err := utils.MatchParseCompressed(data, pos)
 			if err != nil {
-				return err
+				return table, nil, nil, err
 			}
 
 			logs.Debug("Pos is ", Pos, " num is ", num)
-			*pos += num
+			pos += num
 
-			c, err := parse.getColumnByPos(Table, Pos)
+			c, err := parse.getColumnByPos(table, Pos)
 			if err != nil {
-				return err
+				return table, nil, nil, err
 			}
 
-			fLen, num, err := utils.MatchParseCompressed(data, *pos)
+			fLen, num, err := utils.MatchParseCompressed(data, pos)
+			if err != nil {
+				return table, nil, nil, err
+			}
 			logs.Debug("fLen is ", fLen, " num is ", num, "Field Type is ", c.FieldType)
-			*pos += num
+			pos += num
 
 			var value interface{}
-			if *pos+fLen > uint64(len(data)) {
-				value = nil
+			// UNIV_SQL_NULL
+			if fLen == 0xFFFFFFFF {
 				fLen = 0
 			} else {
-				value, err = utils.ParseData(c.FieldType, c.MySQLType, data[*pos:], fLen,
+				value, err = utils.ParseData(c.FieldType, c.MySQLType, data[pos:pos+fLen], fLen,
 					int(utils.GetFixedLength(c.FieldType, c.FieldLen)), c.IsUnsigned, &c.IsBinary)
 				if err != nil {
-					return err
+					return table, nil, nil, err
 				}
 
 			}
 
 			c.FieldValue = value
 			columns = append(columns, c)
-			*pos += fLen
+			pos += fLen
 
 			logs.Debug("values is ", value)
 		}
-
-		// Make data to sql statement, only for update statement.
-		// Print sql statement when user identify the table name or the database name,
-		// if user don't identify table and database name, print all sql statement.
-		if Table.DBName == parse.DBName {
-			if Table.TableName == parse.TableName {
-				parse.makeSQL(Table, primaryFields, columns)
-			} else if parse.TableName == "" {
-				parse.makeSQL(Table, primaryFields, columns)
-			}
-		} else if parse.DBName == "" && parse.TableName == "" {
-			parse.makeSQL(Table, primaryFields, columns)
-		} else if parse.TableName != "" && parse.TableName == Table.TableName {
-			parse.makeSQL(Table, primaryFields, columns)
-		}
 	}
 
 	// TODO: confirm
 	//if (undoType != TRX_UNDO_UPD_EXIST_REC) || ((cmplInfo&1) == 0) {
 	//	// get delete mark record.
-	//	if int64(dataLen-(*pos-startPos)) >= 5 {
-	//		*pos += 2
+	//	if int64(dataLen-(pos-startPos)) >= 5 {
+	//		pos += 2
 	//		for {
 	//			// TODO: uint64 don't have negative.
-	//			if int64(dataLen-(*pos-startPos)) <= 2 {
+	//			if int64(dataLen-(pos-startPos)) <= 2 {
 	//				logs.Debug("pos is", pos, "startPos is ", startPos, " len is ", dataLen)
 	//				break
 	//			}
 	//
-	//			Pos, num, err := utils.MatchParseCompressed(data, *pos)
+	//			Pos, num, err := utils.MatchParseCompressed(data, pos)
 	//			if err != nil {
-	//				return err
+	//				return table, nil, nil, err
 	//			}
 	//			logs.Debug("Pos is ", Pos)
-	//			*pos += num
+	//			pos += num
 	//
-	//			fLen, num, err := utils.MatchParseCompressed(data, *pos)
+	//			fLen, num, err := utils.MatchParseCompressed(data, pos)
 	//			logs.Debug("fLen is ", fLen)
-	//			*pos += num
-	//			*pos += fLen
+	//			pos += num
+	//			pos += fLen
 	//		}
 	//	}
 	//}
 	//
-	//if int64(dataLen-(*pos-startPos)) >= 2 {
-	//	*pos += 2
+	//if int64(dataLen-(pos-startPos)) >= 2 {
+	//	pos += 2
 	//}
 
-	// if parse incorrectly, the pos may be wrong. add the data len directly.
-	if *pos-startPos != dataLen {
-		*pos = startPos + dataLen
-	}
-
-	logs.Debug("delta pos is ", *pos-startPos,
-		"undo insert len is ", dataLen, " complete undo insert parse.")
-
-	return nil
+	return table, primaryFields, columns, nil
 }
 
 func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error) {
@@ -473,13 +490,6 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64) error {
 	logs.Debug("start parse MLOG_REC_UPDATE_IN_PLACE, MLOG_COMP_REC_UPDATE_IN_PLACE log record")
 
-	// Catch panic
-	defer func() {
-		if err := recover(); err != nil {
-			logs.Error("skip error, the error is ", err)
-		}
-	}()
-
 	position, err := utils.ParseIndex(MyType == MLOG_COMP_REC_UPDATE_IN_PLACE, data, *pos)
 	if err != nil {
 		return err
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 8887bb8..af0f34a 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -124,9 +124,14 @@ func (parse *Parse) readRedoLogFile(LogFile string, data []byte) ([]byte, error)
 			break
 		}
 
+		if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE || blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
+			logs.Error("skip damaged log block, the block data len is ", blockHeader.BlockDataLen)
+			continue
+		}
+
 		// LOG_BLOCK_TRL_SIZE, for checksum.
-		if blockHeader.BlockDataLen >= OS_FILE_LOG_BLOCK_SIZE {
-			blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
+		if blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE {
+			blockHeader.BlockDataLen = OS_FILE_LOG_BLOCK_SIZE - LOG_BLOCK_TRL_SIZE
 		}
 
 		// The file can end inside the block.
@@ -185,8 +190,11 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 	logHeaderStartLsn := utils.MatchReadFrom8(data[pos:])
 	pos += 8
 
-	creator := data[pos : bytes.IndexByte(data[pos:], 0x00)+pos]
-	pos += 32 // 32 bytes, NULL terminated string, filled with NULL bytes
+	creator := data[pos : pos+32] // 32 bytes, NULL terminated string, filled with NULL bytes
+	if end := bytes.IndexByte(creator, 0x00); end >= 0 {
+		creator = creator[:end]
+	}
+	pos += 32
 
 	checksum := data[OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE:]
 	logs.Debug("RedoLogHeader LOG_HEADER_FORMAT:", logHeaderFormat, "LOG_HEADER_PAD1:", logHeaderPAD1,
@@ -266,6 +274,13 @@ func (parse *Parse) readRedoBlockHeader(data []byte) (BlockHeader, error) {
 // But due to the design of redo, we must parse out each type in order.
 func (parse *Parse) parseRedoBlockData(data []byte) error {
 	var pos uint64
+
+	// The last record of the log can be cut off, and a damaged one can point anywhere.
+	defer func() {
+		if err := recover(); err != nil {
+			logs.Error("skip the rest of the log, the pos is ", pos, " the error is ", err)
+		}
+	}()
 	for {
 		if (int64(len(data)) - int64(pos)) < 5 {
 			break
@@ -275,6 +290,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 		}
 
 		// Read initial log record.
+		var err error
 		logType := utils.MatchReadFrom1(data[pos:])
 		pos++
 		startPos := pos
@@ -293,15 +309,14 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 			pos += num
 			if err != nil {
 				logs.Error("get log record space id failed, the error is ", err)
-				return err
-
+				break
 			}
 			// Get the page no
 			pageNo, num, err := utils.MatchParseCompressed(data, pos)
 			pos += num
 			if err != nil {
 				logs.Error("get log record page number failed, the error is ", err)
-				return err
+				break
 			}
 
 			if !parse.validateLogHeader(logType, spaceID) {
@@ -324,16 +339,14 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 		switch logType {
 
 		case MLOG_1BYTE, MLOG_2BYTES, MLOG_4BYTES, MLOG_8BYTES:
-			if err := parse.mlogNBytes(data, &pos, logType); err != nil {
-				break
-			}
+			err = parse.mlogNBytes(data, &pos, logType)
 
 		case MLOG_REC_SEC_DELETE_MARK:
 			parse.mlogRecSecDeleteMark(data, &pos)
 
 		case MLOG_UNDO_INSERT:
 			if err := parse.mlogUndoInsert(data, &pos); err != nil {
-				break
+				return err
 			}
 
 		case MLOG_UNDO_ERASE_END:
@@ -341,9 +354,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 			continue
 
 		case MLOG_UNDO_INIT:
-			if err := parse.mlogUndoInit(data, &pos); err != nil {
-				break
-			}
+			err = parse.mlogUndoInit(data, &pos)
 		case MLOG_UNDO_HDR_DISCARD:
 			logs.Debug("start parse MLOG_UNDO_HDR_DISCARD log record")
 			continue
@@ -352,9 +363,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 			parse.mlogUndoHdrReuse(data, &pos)
 
 		case MLOG_UNDO_HDR_CREATE:
-			if err := parse.mlogUndoHdrCreate(data, &pos); err != nil {
-				break
-			}
+			err = parse.mlogUndoHdrCreate(data, &pos)
 
 		case MLOG_IBUF_BITMAP_INIT:
 			logs.Debug("start parse MLOG_IBUF_BITMAP_INIT log record")
@@ -390,44 +399,28 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 			continue
 
 		case MLOG_REC_INSERT, MLOG_COMP_REC_INSERT:
-			if err := parse.mlogRecInsert(data, &pos, logType); err != nil {
-				return err
-			}
+			err = parse.mlogRecInsert(data, &pos, logType)
 
 		case MLOG_REC_CLUST_DELETE_MARK, MLOG_COMP_REC_CLUST_DELETE_MARK:
-			if err := parse.mlogRecClustDeleteMark(data, &pos, logType); err != nil {
-				break
-			}
+			err = parse.mlogRecClustDeleteMark(data, &pos, logType)
 
 		case MLOG_COMP_REC_SEC_DELETE_MARK:
-			if err := parse.mlogCompRecSecDeleteMark(data, &pos); err != nil {
-				break
-			}
+			err = parse.mlogCompRecSecDeleteMark(data, &pos)
 
 		case MLOG_REC_UPDATE_IN_PLACE, MLOG_COMP_REC_UPDATE_IN_PLACE:
-			if err := parse.mlogRecUpdateInPlace(data, &pos, logType); err != nil {
-				break
-			}
+			err = parse.mlogRecUpdateInPlace(data, &pos, logType)
 
 		case MLOG_REC_DELETE, MLOG_COMP_REC_DELETE:
-			if err := parse.mlogRecDelete(data, &pos, logType); err != nil {
-				break
-			}
+			err = parse.mlogRecDelete(data, &pos, logType)
 
 		case MLOG_LIST_END_DELETE, MLOG_COMP_LIST_END_DELETE, MLOG_LIST_START_DELETE, MLOG_COMP_LIST_START_DELETE:
-			if err := parse.mlogListDelete(data, &pos, logType); err != nil {
-				break
-			}
+			err = parse.mlogListDelete(data, &pos, logType)
 
 		case MLOG_LIST_END_COPY_CREATED, MLOG_COMP_LIST_END_COPY_CREATED:
-			if err := parse.mlogListEndCopyCreated(data, &pos, logType); err != nil {
-				break
-			}
+			err = parse.mlogListEndCopyCreated(data, &pos, logType)
 
 		case MLOG_PAGE_REORGANIZE, MLOG_COMP_PAGE_REORGANIZE, MLOG_ZIP_PAGE_REORGANIZE:
-			if err := parse.mlogPageReorganize(data, &pos, logType); err != nil {
-				break
-			}
+			err = parse.mlogPageReorganize(data, &pos, logType)
 
 		case MLOG_ZIP_WRITE_NODE_PTR:
 			parse.mlogZipWriteNodePtr(data, &pos)
@@ -443,9 +436,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 			parse.mlogZipPageCompress(data, &pos)
 
 		case MLOG_ZIP_PAGE_COMPRESS_NO_DATA:
-			if err := parse.mlogZipPageCompressNoData(data, &pos); err != nil {
-				break
-			}
+			err = parse.mlogZipPageCompressNoData(data, &pos)
 
 		case MLOG_CHECKPOINT:
 			logs.Debug("start parse MLOG_CHECKPOINT")
@@ -470,6 +461,11 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 			logs.Debug("unknown rMLOG_REC_UPDATE_IN_PLACEedo type, break.")
 			break
 		}
+
+		if err != nil {
+			logs.Error("skip the rest of the log, the pos is ", pos, " the error is ", err)
+			break
+		}
 	}
 	return nil
 }
-- 
2.43.0


From e567a5a5056952d225efa9509ff883e1e09f85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 28/56] fix: print only the updates of the selected database
 and table

---
 recovery/redo/mlog.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 5d70b6b..3a6902f 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -97,20 +97,12 @@ func (parse *Parse) parseUndoRecord(data []byte) error {
 	// Make data to sql statement, only for update statement.
 	// Print sql statement when user identify the table name or the database name,
 	// if user don't identify table and database name, print all sql statement.
-	if len(columns) == 0 {
+	if len(columns) == 0 ||
+		parse.DBName != "" && parse.DBName != table.DBName ||
+		parse.TableName != "" && parse.TableName != table.TableName {
 		return nil
 	}
-	if table.DBName == parse.DBName {
-		if table.TableName == parse.TableName {
-			parse.makeSQL(table, primaryFields, columns)
-		} else if parse.TableName == "" {
-			parse.makeSQL(table, primaryFields, columns)
-		}
-	} else if parse.DBName == "" && parse.TableName == "" {
-		parse.makeSQL(table, primaryFields, columns)
-	} else if parse.TableName != "" && parse.TableName == table.TableName {
-		parse.makeSQL(table, primaryFields, columns)
-	}
+	parse.makeSQL(table, primaryFields, columns)
 	return nil
 }
 
-- 
2.43.0


From 49094b53c802fd25f3a441c9beddf79f4c759a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 29/56] fix: do not join log blocks of different passes through
 the log

---
 recovery/redo/parse.go | 56 +++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index af0f34a..78b70dc 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -69,10 +69,10 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 //	* https://dev.mysql.com/doc/dev/mysql-server/8.0.11/PAGE_INNODB_REDO_LOG_FORMAT.html
 //	* http://mysql.taobao.org/monthly/2017/09/07/
 func (parse *Parse) ParseRedoLogs(logFileList []string) error {
-	var data []byte
+	var runs blockRuns
 	var readErr error
 	for _, LogFile := range logFileList {
-		data, readErr = parse.readRedoLogFile(LogFile, data)
+		readErr = parse.readRedoLogFile(LogFile, &runs)
 		if readErr != nil {
 			logs.Error("read redo log file failed, the file is ", LogFile, " the error is ", readErr)
 			break
@@ -80,30 +80,58 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	}
 
 	// Start parse redo log data, also if not all of it could be read.
-	err := parse.parseRedoBlockData(data)
-	if err != nil {
-		logs.Error("parse redo block data failed, error: ", err.Error())
-		return err
+	for _, data := range runs.data {
+		err := parse.parseRedoBlockData(data)
+		if err != nil {
+			logs.Error("parse redo block data failed, error: ", err.Error())
+			return err
+		}
 	}
 	return readErr
 }
 
-// readRedoLogFile adds the redo block data of a redo log file to data.
-func (parse *Parse) readRedoLogFile(LogFile string, data []byte) ([]byte, error) {
+// blockRuns collects the data of the log blocks. The log files are written in
+// circles, a block which does not have the next number is not the continuation
+// of the blocks before it, it is left from another pass.
+type blockRuns struct {
+	data   [][]byte
+	nextNo uint32
+}
+
+// add the data of a block.
+func (runs *blockRuns) add(header BlockHeader, data []byte) {
+	// The highest bit marks the first block of a write.
+	no := header.BlockNumber &^ (1 << 31)
+	continued := len(runs.data) != 0 && no == runs.nextNo
+	if !continued {
+		// Records can be parsed from the start of a record group on only.
+		if header.FirstRecOffset < LOG_BLOCK_HDR_SIZE || int(header.FirstRecOffset) >= LOG_BLOCK_HDR_SIZE+len(data) {
+			return
+		}
+		data = data[header.FirstRecOffset-LOG_BLOCK_HDR_SIZE:]
+		runs.data = append(runs.data, nil)
+	}
+	runs.nextNo = no&0x3FFFFFFF + 1
+	last := len(runs.data) - 1
+	runs.data[last] = append(runs.data[last], data...)
+}
+
+// readRedoLogFile adds the redo block data of a redo log file to the runs.
+func (parse *Parse) readRedoLogFile(LogFile string, runs *blockRuns) error {
 	file, err := os.Open(LogFile)
 	if err != nil {
-		return data, err
+		return err
 	}
 	defer file.Close()
 
 	// parse redo log header
 	if err = parse.readRedoLogFileHeader(file); err != nil {
-		return data, err
+		return err
 	}
 
 	// parse redo log checkpoint
 	if err = parse.readRedoLogFileCheckpoint(file); err != nil {
-		return data, err
+		return err
 	}
 
 	// parse left redo log block
@@ -111,7 +139,7 @@ func (parse *Parse) readRedoLogFile(LogFile string, data []byte) ([]byte, error)
 		// when parsing the redo log file, record the read position.
 		block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
 		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-			return data, err
+			return err
 		}
 		if len(block) <= LOG_BLOCK_HDR_SIZE {
 			break
@@ -140,9 +168,9 @@ func (parse *Parse) readRedoLogFile(LogFile string, data []byte) ([]byte, error)
 		}
 
 		// Add all redo block data.
-		data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
+		runs.add(blockHeader, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen])
 	}
-	return data, nil
+	return nil
 }
 
 //	storage/innobase/include/log0log.ic
-- 
2.43.0


From 4c0de5f5b1b491c463a49b26eea081fe68e79d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 30/56] fix: skip every kind of log record by its real length

---
 recovery/redo/mlog.go   | 15 ++++++++++++++-
 recovery/redo/parse.go  |  2 +-
 recovery/utils/utils.go | 27 ++++++++++-----------------
 3 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 3a6902f..7ffd775 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -393,6 +393,13 @@ func (parse *Parse) mlogFileOp(data []byte, pos *uint64, myType uint64) {
 	*pos += 2
 	*pos += nameLen
 
+	// The new name follows.
+	if myType == MLOG_FILE_RENAME || myType == MLOG_FILE_RENAME2 {
+		nameLen = utils.MatchReadFrom2(data[*pos:])
+		*pos += 2
+		*pos += nameLen
+	}
+
 }
 
 // MLOG_REC_MARK ...
@@ -474,6 +481,9 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 	position, err := utils.ParseIndex(true, data, *pos)
 	if err == nil {
 		*pos = position
+
+		// btr_cur_parse_del_mark_set_sec_rec
+		parse.mlogRecSecDeleteMark(data, pos)
 	}
 	return err
 }
@@ -541,7 +551,10 @@ func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64
 					logs.Debug("fieldNo is ", fieldNo, " fieldLen is ", fieldLen)
 				}
 				*pos += num
-				*pos += fieldLen
+				// UNIV_SQL_NULL
+				if fieldLen != 0xFFFFFFFF {
+					*pos += fieldLen
+				}
 			}
 		}
 	}
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 78b70dc..ad6e32a 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -331,7 +331,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 		// Get redo log type.
 		logType = uint64(int(logType) & ^MLOG_SINGLE_REC_FLAG)
 
-		if logType != MLOG_CHECKPOINT {
+		if logType != MLOG_CHECKPOINT && logType != MLOG_DUMMY_RECORD {
 			// Get space id
 			spaceID, num, err := utils.MatchParseCompressed(data, pos)
 			pos += num
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index b7229f4..0fe753c 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -417,15 +417,10 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
-		fmt.Println(err.Error())
-	}
-	size, err := MatchGetCompressedSize(n)
-	// *pos += size
-	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	n <<= 32
-	n |= MatchReadFrom4(b[*pos:][size:])
+	n |= MatchReadFrom4(b[*pos:])
 	*pos += 4
 	return n
 }
@@ -443,15 +438,12 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		n = 0
 		size = 0
 	} else {
-		n, _, err := MatchParseCompressed(b, 1)
+		high, num, err := MatchParseCompressed(b, 1)
 		if err != nil {
 			return 0, err
 		}
-		v, err := MatchGetCompressedSize(n)
-		if err != nil {
-			fmt.Println(err.Error())
-		}
-		size = 1 + v
+		n = high << 32
+		size = 1 + num
 	}
 	value, _, err := MatchParseCompressed(b, size)
 	if err != nil {
@@ -478,9 +470,10 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	Num, err := strconv.ParseInt("FFFFFFFF", 16, 64)
 	n2, err := MatchGetCompressedSize(num & uint64(Num))
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
-	return n1 + n2
+	// The first byte is 0xFF.
+	return 1 + n1 + n2
 }
 
 // ReadIntoStruct ...
@@ -563,14 +556,14 @@ func ParseInsertRecord(IsShort bool, data []byte, pos uint64) (uint64, error) {
 		OriginOffset, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			return 0, err
 		}
 		pos += num
 
 		MisMatchIndex, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			return 0, err
 		}
 		pos += num
 		logs.Debug("InfoAndStatusBits is ", InfoAndStatusBits, "OriginOffset is ",
-- 
2.43.0


From 6d801856de833b86de9202714944475abe90d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 31/56] fix: write updates as valid SQL with exact literals

---
 recovery/ibdata/format.go | 40 ++++++++++++++++++---------------------
 recovery/redo/mlog.go     | 13 +++++++------
 recovery/redo/parse.go    | 15 ++++-----------
 3 files changed, 29 insertions(+), 39 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index e8a78fc..0298dcb 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -39,28 +39,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
-			if column.FieldValue != nil && column.MySQLType == utils.MYSQL_TYPE_BIT {
-				buf.WriteString("b")
-				column.FieldValue = fmt.Sprintf("%b", column.FieldValue)
-			}
-
-			if column.FieldValue != nil && column.IsBinary {
-				buf.WriteString("unhex(")
-			}
-
-			if column.FieldValue != nil {
-				buf.WriteByte('\'')
-				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
-				buf.WriteByte('\'')
-			} else {
-				//buf.WriteByte('\'')
-				//buf.WriteByte('\'')
-				buf.WriteString("NULL")
-			}
-
-			if column.FieldValue != nil && column.IsBinary {
-				buf.WriteString(")")
-			}
+			buf.WriteString(column.Literal())
 		}
 
 		buf.WriteString(");")
@@ -73,3 +52,20 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 	}
 
 }
+
+// Literal formats the value of a column for a sql statement.
+func (column Columns) Literal() string {
+	if column.FieldValue == nil {
+		return "NULL"
+	}
+
+	if column.MySQLType == utils.MYSQL_TYPE_BIT {
+		return fmt.Sprintf("b'%b'", column.FieldValue)
+	}
+
+	literal := "'" + utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)) + "'"
+	if column.IsBinary {
+		return "unhex(" + literal + ")"
+	}
+	return literal
+}
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 7ffd775..9c2de04 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -88,7 +88,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 
 // parseUndoRecord parse an undo record, data holds nothing but that record.
 func (parse *Parse) parseUndoRecord(data []byte) error {
-	table, primaryFields, columns, err := parse.readUndoRecord(data)
+	table, primaryColumns, columns, err := parse.readUndoRecord(data)
 	if err != nil {
 		logs.Error("skip undo record, the error is ", err)
 		return nil
@@ -102,13 +102,13 @@ func (parse *Parse) parseUndoRecord(data []byte) error {
 		parse.TableName != "" && parse.TableName != table.TableName {
 		return nil
 	}
-	parse.makeSQL(table, primaryFields, columns)
+	parse.makeSQL(table, primaryColumns, columns)
 	return nil
 }
 
 // readUndoRecord gets the table, the primary key and, for the update of an
 // existing record, the old values of the updated columns.
-func (parse *Parse) readUndoRecord(data []byte) (table ibdata.Tables, primaryFields []*ibdata.Fields,
+func (parse *Parse) readUndoRecord(data []byte) (table ibdata.Tables, primaryColumns []*ibdata.Columns,
 	columns []*ibdata.Columns, err error) {
 
 	// catch panic
@@ -162,7 +162,7 @@ func (parse *Parse) readUndoRecord(data []byte) (table ibdata.Tables, primaryFie
 		return table, nil, nil, err
 	}
 
-	primaryFields, err = parse.getPrimaryKey(table)
+	primaryFields, err := parse.getPrimaryKey(table)
 	if err != nil {
 		return table, nil, nil, err
 	}
@@ -186,7 +186,8 @@ func (parse *Parse) readUndoRecord(data []byte) (table ibdata.Tables, primaryFie
 		}
 
 		logs.Debug("the table is ", table.TableName, " table id is ", tableID, " unique value is ")
-		v.ColumnValue = value
+		column.FieldValue = value
+		primaryColumns = append(primaryColumns, &column)
 
 		pos += FiledLen
 	}
@@ -276,7 +277,7 @@ func (parse *Parse) readUndoRecord(data []byte) (table ibdata.Tables, primaryFie
 	//	pos += 2
 	//}
 
-	return table, primaryFields, columns, nil
+	return table, primaryColumns, columns, nil
 }
 
 func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error) {
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index ad6e32a..fc28dee 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -563,30 +563,23 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 	return haveType
 }
 
-func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields, columns []*ibdata.Columns) {
-
-	// TODO: deal with null value.
+func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Columns, columns []*ibdata.Columns) {
 
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-		var SetValue string
-		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`='%v'", c.FieldName, c.FieldValue)
-		} else {
-			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
-		}
+		SetValue := fmt.Sprintf("`%s`=%s", c.FieldName, c.Literal())
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
-			SetValues += SetValue + " and "
+			SetValues += SetValue + ", "
 		}
 	}
 
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`='%v'", v.ColumnName, v.ColumnValue)
+		whereCondition := fmt.Sprintf("`%s`=%s", v.FieldName, v.Literal())
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
-- 
2.43.0


From 2825a5e3eba0172609bd00451af1e4caa7ca394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 32/56] fix: look tables up by space id in constant time

---
 recovery/redo/parse.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index fc28dee..7a7e293 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -37,6 +37,9 @@ type Parse struct {
 
 	// The database name which you want to recovery.
 	DBName string
+
+	// Find the table of a space id.
+	spaceMap map[uint64]ibdata.Tables
 }
 
 // NewParse ...
@@ -54,6 +57,7 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 	ibdataParse := ibdata.NewParse()
 	err := ibdataParse.ParseDictPage(ibdataPath)
 	parse.TableMap = ibdataParse.TableMap
+	parse.spaceMap = nil
 	return err
 }
 
@@ -499,11 +503,15 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 }
 
 func (parse *Parse) getTableBySpaceID(spaceID uint64) (ibdata.Tables, error) {
-	for _, table := range parse.TableMap {
-		if table.SpaceId == spaceID {
-			return table, nil
+	if parse.spaceMap == nil {
+		parse.spaceMap = make(map[uint64]ibdata.Tables)
+		for _, table := range parse.TableMap {
+			parse.spaceMap[table.SpaceId] = table
 		}
 	}
+	if table, ok := parse.spaceMap[spaceID]; ok {
+		return table, nil
+	}
 	return ibdata.Tables{}, fmt.Errorf("can't find table")
 }
 
-- 
2.43.0


From 826de13400d6c16abce9d59f8604f088de383609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 33/56] fix: a parser does not depend on what it parsed before

---
 recovery/ibdata/parse.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8879d70..6e3efd0 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -46,6 +46,10 @@ func NewParse() *Parse {
 // ParseDictPage get table struct in dict page.
 func (parse *Parse) ParseDictPage(path string) error {
 
+	// Forget what was parsed before.
+	parse.TableMap = make(map[uint64]Tables)
+	parse.D = new(sync.Map)
+
 	pages, err := parse.parseFile(path)
 	if err != nil {
 		logs.Error("parse system data file failed, error: ", err.Error())
@@ -1154,24 +1158,27 @@ func (parse *Parse) checkFieldEnds(offsets *[]uint64, fieldNum int, size int) bo
 
 func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]Columns, error) {
 	var columns []Columns
-	for _, table := range parse.TableMap {
-		if table.DBName == dbName && table.TableName == tableName {
-			columns = table.Columns
-		}
-	}
-	if len(columns) == 0 {
-		return columns, fmt.Errorf("table `%s`.`%s` not found in the data dictionary", dbName, tableName)
+	table, err := parse.getTableFromDict(dbName, tableName)
+	if err != nil {
+		return columns, err
 	}
-	return columns, nil
+	// The values of the rows go into the columns, the dictionary keeps its own.
+	return append(columns, table.Columns...), nil
 }
 
 func (parse *Parse) getTableFromDict(dbName string, tableName string) (Tables, error) {
 	var table Tables
-	for _, t := range parse.TableMap {
-		if t.DBName == dbName && t.TableName == tableName {
+	var tableID uint64
+	for id, t := range parse.TableMap {
+		// The highest id is the latest, if a name is there more than once.
+		if t.DBName == dbName && t.TableName == tableName && (id >= tableID || len(table.Columns) == 0) {
 			table = t
+			tableID = id
 		}
 	}
+	if len(table.Columns) == 0 {
+		return table, fmt.Errorf("table `%s`.`%s` not found in the data dictionary", dbName, tableName)
+	}
 	return table, nil
 }
 
-- 
2.43.0


From ea790324699370c2a59a0ee780af0aea8d52eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 34/56] fix: report errors on standard error and by the exit
 status

---
 cmd/db-recovery/command.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 4a038d0..3ee165e 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -17,6 +17,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"os"
 	"runtime"
 	"strings"
 
@@ -62,6 +63,13 @@ func NewRootCommand(use, short string) *cobra.Command {
 	return rc
 }
 
+// fail reports an error and ends the program.
+func fail(err error) {
+	logs.FlushLogs()
+	fmt.Fprintln(os.Stderr, err)
+	os.Exit(1)
+}
+
 func NewRecoveryCommand() *cobra.Command {
 	jc := &cobra.Command{
 		Use:   "recovery <sub command>",
@@ -99,8 +107,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	flag.Parse()
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		fail(err)
 	}
 
 	isRecovery := false
@@ -108,8 +115,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	p := ibdata.NewParse()
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		fail(err)
 	}
 
 	if OpType == "RecoveryData" {
@@ -118,8 +124,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 
 	err = p.ParseDataPage(TableFile, DBName, TableName, isRecovery)
 	if err != nil {
-		fmt.Println(err)
-		return
+		fail(err)
 	}
 
 	// flush logs
@@ -152,8 +157,7 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	flag.Parse()
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		fail(err)
 	}
 
 	p := redo.NewParse(TableName, DBName)
@@ -161,13 +165,12 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
 		logs.Error("parse redo failed, error: ", err.Error())
-		return
+		fail(err)
 	}
 
 	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
 	if err != nil {
-		fmt.Println("parse redo failed, error: ", err.Error())
-		return
+		fail(err)
 	}
 
 	// flush logs
-- 
2.43.0


From c6f168d64c9452eb68c9fff2e3a092236405b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 35/56] fix: stop with an error if a statement can't be written

---
 recovery/ibdata/format.go | 8 ++++++--
 recovery/ibdata/parse.go  | 4 +++-
 recovery/redo/mlog.go     | 3 +--
 recovery/redo/parse.go    | 5 +++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 0298dcb..a52bd32 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -10,7 +10,7 @@ import (
 )
 
 // Make row data to replace into statement, it will be more convenient when restoring data.
-func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table string, database string) {
+func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table string, database string) error {
 	var buf bytes.Buffer
 	var query string
 
@@ -46,11 +46,15 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 		query = buf.String()
 		buf.Reset()
 
-		fmt.Println(query)
+		if _, err := fmt.Println(query); err != nil {
+			logs.Error("write statement failed, error: ", err.Error())
+			return err
+		}
 		logs.Debug("query is ", query)
 
 	}
 
+	return nil
 }
 
 // Literal formats the value of a column for a sql statement.
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 6e3efd0..2c37083 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -205,7 +205,9 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			}
 
 			// Make replace into statement.
-			parse.makeReplaceIntoStatement(allColumns, tableName, dbName)
+			if err := parse.makeReplaceIntoStatement(allColumns, tableName, dbName); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 9c2de04..6490807 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -102,8 +102,7 @@ func (parse *Parse) parseUndoRecord(data []byte) error {
 		parse.TableName != "" && parse.TableName != table.TableName {
 		return nil
 	}
-	parse.makeSQL(table, primaryColumns, columns)
-	return nil
+	return parse.makeSQL(table, primaryColumns, columns)
 }
 
 // readUndoRecord gets the table, the primary key and, for the update of an
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7a7e293..1668404 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -571,7 +571,7 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 	return haveType
 }
 
-func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Columns, columns []*ibdata.Columns) {
+func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Columns, columns []*ibdata.Columns) error {
 
 	// update statement
 	var SetValues string
@@ -599,5 +599,6 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 		table.TableName, SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
-	fmt.Println(query)
+	_, err := fmt.Println(query)
+	return err
 }
-- 
2.43.0


From 7eb2f86eef6e182aec8a6727d8ecd5466d6e545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 36/56] fix: reject undo records that update more columns than
 the table has

---
 recovery/redo/mlog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 6490807..3b1475f 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -200,6 +200,9 @@ func (parse *Parse) readUndoRecord(data []byte) (table ibdata.Tables, primaryCol
 		}
 
 		logs.Debug("columnNum is ", columnNum)
+		if columnNum > uint64(len(table.Columns)) {
+			return table, nil, nil, fmt.Errorf("more updated columns than the table has: %d", columnNum)
+		}
 		pos += num
 
 		var i uint64
-- 
2.43.0


From f7969350eae2f178cc0d1bedd1e3fc25c775c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 37/56] fix: an undo record of an unknown table is no error

---
 recovery/redo/mlog.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 3b1475f..41f41ff 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -158,7 +158,8 @@ func (parse *Parse) readUndoRecord(data []byte) (table ibdata.Tables, primaryCol
 
 	table, err = parse.getTableByTableID(tableID)
 	if err != nil {
-		return table, nil, nil, err
+		// An internal table or one that was dropped.
+		return table, nil, nil, nil
 	}
 
 	primaryFields, err := parse.getPrimaryKey(table)
-- 
2.43.0


From 7fcf1cb62c7a402c7aeec7566f9325b90142fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 38/56] fix: bound the work spent on a table with too many
 columns

---
 recovery/ibdata/const.go | 4 ++++
 recovery/ibdata/parse.go | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/const.go b/recovery/ibdata/const.go
index f8a0270..a7627b5 100644
--- a/recovery/ibdata/const.go
+++ b/recovery/ibdata/const.go
@@ -37,3 +37,7 @@ const (
 // DictClustered is the bit of the clustered index in SYS_INDEXES.TYPE,
 // storage/innobase/include/dict0mem.h
 const DictClustered uint64 = 1
+
+// MaxColumnNum is the most columns a table can have,
+// storage/innobase/include/rem0types.h: REC_MAX_N_USER_FIELDS, and the system columns
+const MaxColumnNum uint64 = 1023
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 2c37083..08f2eb5 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -327,7 +327,7 @@ func (parse *Parse) sortColumns() {
 // all columns and the whole clustered index.
 func (parse *Parse) dropIncompleteTables() {
 	for tableID, table := range parse.TableMap {
-		complete := uint64(len(table.Columns)) == table.ColumnNum
+		complete := uint64(len(table.Columns)) == table.ColumnNum && table.ColumnNum <= MaxColumnNum
 		for i, column := range table.Columns {
 			complete = complete && column.FieldPos == uint64(i)
 		}
@@ -337,8 +337,11 @@ func (parse *Parse) dropIncompleteTables() {
 				continue
 			}
 			clustered++
-			complete = complete && uint64(len(idx.Fields)) == idx.FieldNum
+			complete = complete && uint64(len(idx.Fields)) == idx.FieldNum && idx.FieldNum <= MaxColumnNum
 			for i, field := range idx.Fields {
+				if !complete {
+					break
+				}
 				// The position is in the higher bytes if a field is a prefix.
 				complete = complete && (field.ColumnPos == uint64(i) || field.ColumnPos>>16 == uint64(i)) &&
 					getColumnPos(field.ColumnName, table.Columns) >= 0
-- 
2.43.0


From 9a887f4fd37d8f6c190f48d45bd62d06623f850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 39/56] fix: a damaged record does not hide the ones behind it

---
 recovery/ibdata/parse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 08f2eb5..53ebdd9 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -982,13 +982,15 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 			//	fmt.Println(i, value)
 			//}
 
+			// A damaged record is left out, the others can be sound.
 			if !parse.checkFieldSize(&offsets, columns) || !parse.checkFieldEnds(&offsets, len(columns), len(origin)) {
-				break
+				goto END
 			}
 
-			// The records of a page do not overlap, or the chain loops.
+			// The records of a page do not overlap. One that is damaged can seem
+			// longer than it is, more of them mean that the chain loops.
 			totalLen += utils.RecOffsSize(&offsets)
-			if totalLen > uint64(len(data)) {
+			if totalLen > 16*uint64(len(data)) {
 				logs.Error("the records are longer than the page, offset is ", offset)
 				break
 			}
-- 
2.43.0


From a47d37fbaee86152d198306a35150e441bac2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 40/56] fix: stop at a loop in the records of a page

---
 recovery/ibdata/parse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 53ebdd9..e21844c 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -946,12 +946,19 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 
 	// A record takes at least 5 bytes, more of them than fit means a loop.
 	var totalLen uint64
+	seen := make([]bool, len(data))
 	for n := 0; n < len(data)/5; n++ {
 		// TODO: const
 		if offset < (16384-6) && (offset != supremum) {
 			var c []Columns
 			logs.Debug("offset is ", offset, " supremum is ", supremum)
 
+			if seen[offset] {
+				logs.Error("the records are linked in a loop, offset is ", offset)
+				break
+			}
+			seen[offset] = true
+
 			// TODO: confirm the array length
 			var offsets []uint64 = make([]uint64, len(columns)*2, len(columns)*2)
 			origin := data[offset:]
@@ -988,7 +995,7 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 			}
 
 			// The records of a page do not overlap. One that is damaged can seem
-			// longer than it is, more of them mean that the chain loops.
+			// longer than it is, but not many.
 			totalLen += utils.RecOffsSize(&offsets)
 			if totalLen > 16*uint64(len(data)) {
 				logs.Error("the records are longer than the page, offset is ", offset)
-- 
2.43.0


From 264e22d3eb3b231f4153e42d09834652e15cf861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 41/56] fix: read tables whose key takes a prefix of a column

---
 recovery/ibdata/format.go    |  3 ++-
 recovery/ibdata/parse.go     | 22 +++++++++++++++++++++-
 recovery/ibdata/structure.go |  3 +++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index a52bd32..28683cf 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -27,7 +27,8 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 		for _, column := range columns {
 
 			// Skip internal field.
-			if column.FieldName == "DB_ROW_ID" ||
+			if column.IsPrefix ||
+				column.FieldName == "DB_ROW_ID" ||
 				column.FieldName == "DB_TRX_ID" ||
 				column.FieldName == "DB_ROLL_PTR" {
 				continue
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index e21844c..9c39e5f 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -383,7 +383,15 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 		for i := j; i < len(columns); i++ {
 			if field.ColumnName == columns[i].FieldName {
 				tempField := columns[i]
-				columns = append(columns[:i], columns[i+1:]...)
+				if prefix := prefixLen(fields, j); prefix > 0 {
+					// The whole column keeps its place in the record.
+					tempField.IsPrefix = true
+					if tempField.FieldLen > prefix {
+						tempField.FieldLen = prefix
+					}
+				} else {
+					columns = append(columns[:i], columns[i+1:]...)
+				}
 				columns = addColumns(columns, j, tempField)
 				break
 			}
@@ -392,6 +400,18 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 	return columns
 }
 
+// prefixLen gives the number of bytes of its column that a field of an index
+// takes, 0 if it takes the whole column. SYS_FIELDS.POS holds them behind the
+// position if any field of the index is a prefix.
+func prefixLen(fields []*Fields, n int) uint64 {
+	for i, field := range fields {
+		if field.ColumnPos != uint64(i) {
+			return fields[n].ColumnPos & 0xFFFF
+		}
+	}
+	return 0
+}
+
 // Table have some internal filed in MySQL, such as DB_TRX_ID/DB_ROLL_PTR/DB_ROW_ID.
 // When we parse a table row, we should add this internal columns.
 // If table have primary key, there should have two internal fields: DB_TRX_ID, DB_ROLL_PTR.
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 53a9677..109964f 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -40,6 +40,9 @@ type Columns struct {
 
 	// the stored length can take two bytes: more than 255 bytes fit.
 	IsLong bool
+
+	// only the beginning of the column, as a key on a column prefix stores it.
+	IsPrefix bool
 }
 
 // Indexes store the table index info.
-- 
2.43.0


From a00c53f4b6d3c49cc2c15ddfc25a531eafc42210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 42/56] fix: take only the table's own pages from the system
 tablespace

---
 recovery/ibdata/parse.go     |  6 ++++++
 recovery/ibdata/structure.go | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 9c39e5f..c60be9b 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -162,6 +162,11 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 	}
 
 	// Get table fields info from data dict.
+	table, err := parse.getTableFromDict(dbName, tableName)
+	if err != nil {
+		logs.Error("get fields from dict failed, error: ", err.Error(), " DBName: ", dbName, " TableName: ", tableName)
+		return err
+	}
 	fields, err := parse.getTableColumnsFromDict(dbName, tableName)
 	if err != nil {
 		logs.Error("get fields from dict failed, error: ", err.Error(), " DBName: ", dbName, " TableName: ", tableName)
@@ -194,6 +199,7 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 		// Only recovery cluster index, ignore secondary index.
 		// TODO: only secondary index's PAGE_MAX_TRX_ID > 0 ?
 		if page.fh.FIL_PAGE_TYPE == FilPageIndex &&
+			table.ownsPage(&page) &&
 			page.ph.PAGE_LEVEL == uint64(0) &&
 			page.ph.PAGE_MAX_TRX_ID == uint64(0) &&
 			!(isRecovery && page.ph.PAGE_FREE == 0) {
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 109964f..87e133a 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -139,6 +139,20 @@ type Page struct {
 	data         []byte
 }
 
+// ownsPage tells whether a page in the file of the table can hold its rows. The
+// system tablespace holds the pages of many tables.
+func (table Tables) ownsPage(page *Page) bool {
+	if table.SpaceId != 0 {
+		return true
+	}
+	for _, idx := range table.Indexes {
+		if idx.IndexType&DictClustered != 0 && idx.Id == page.ph.PAGE_INDEX_ID {
+			return true
+		}
+	}
+	return false
+}
+
 // IsClusteredKey tells whether the rows are stored in the order of this index:
 // the primary key, or without one the first unique index that allows no NULL.
 func (idx Indexes) IsClusteredKey() bool {
-- 
2.43.0


From 15d7f65b8fa34d8d09d64a19c580a73bf5f1988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 43/56] fix: read geometry columns of MySQL 5.7 as the BLOBs
 they are

---
 recovery/ibdata/parse.go | 5 +++++
 recovery/utils/const.go  | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index c60be9b..55ad01a 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -526,6 +526,11 @@ func (parse *Parse) getAllColumns() error {
 			// mysql-5.7.19/storage/innobase/include/data0type.ic
 			MySQLType = c[6].FieldValue.(uint64) & 0xFF
 
+			// A geometry is stored like a BLOB, which it is before 5.7.
+			if c[5].FieldValue.(uint64) == utils.DATA_GEOMETRY {
+				c[5].FieldValue = utils.DATA_BLOB
+			}
+
 			IsBinary := false
 			if c[5].FieldValue.(uint64) == utils.DATA_BLOB {
 				if (c[6].FieldValue.(uint64) & 1024) != 0 {
diff --git a/recovery/utils/const.go b/recovery/utils/const.go
index 0ac0a2b..e0eba64 100644
--- a/recovery/utils/const.go
+++ b/recovery/utils/const.go
@@ -63,6 +63,9 @@ const (
 	// tables created with it can also be latin1_swedish_ci
 	DATA_MYSQL
 
+	// spatial values of MySQL 5.7 and later, stored like a BLOB
+	DATA_GEOMETRY
+
 	// dtype_store_for_order_and_null_size()
 	DATA_MTYPE_MAX
 )
-- 
2.43.0


From bdb059636d81c19e063072c8aad42548e8ae359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 44/56] fix: CHAR of single byte collations other than
 latin1_swedish_ci has no stored length

---
 recovery/ibdata/parse.go |  7 +++++++
 recovery/utils/utils.go  | 27 +++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 55ad01a..8f21043 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -526,6 +526,13 @@ func (parse *Parse) getAllColumns() error {
 			// mysql-5.7.19/storage/innobase/include/data0type.ic
 			MySQLType = c[6].FieldValue.(uint64) & 0xFF
 
+			// CHAR has no stored length unless its characters can differ in
+			// size; only latin1_swedish_ci has the type DATA_CHAR of its own.
+			if c[5].FieldValue.(uint64) == utils.DATA_MYSQL &&
+				utils.IsFixedWidth(c[6].FieldValue.(uint64)>>16&0x7FFF) {
+				c[5].FieldValue = utils.DATA_CHAR
+			}
+
 			// A geometry is stored like a BLOB, which it is before 5.7.
 			if c[5].FieldValue.(uint64) == utils.DATA_GEOMETRY {
 				c[5].FieldValue = utils.DATA_BLOB
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 0fe753c..40ddeaf 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -741,6 +741,33 @@ func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 	}
 }
 
+// IsFixedWidth tells whether the characters of the character set all take the
+// same number of bytes, by the number of the collation. CHAR columns of such a
+// character set are stored in the same number of bytes always.
+func IsFixedWidth(collation uint64) bool {
+	switch {
+	case collation == 0, // unknown
+		collation == 1, collation == 84, // big5
+		collation == 12, collation == 91, // ujis
+		collation == 13, collation == 88, // sjis
+		collation == 19, collation == 85, // euckr
+		collation == 24, collation == 86, // gb2312
+		collation == 28, collation == 87, // gbk
+		collation == 95, collation == 96, // cp932
+		collation == 97, collation == 98, // eucjpms
+		collation == 33, collation == 76, collation == 83, // utf8
+		collation >= 192 && collation <= 223,
+		collation == 45, collation == 46, // utf8mb4
+		collation >= 224 && collation <= 247,
+		collation == 54, collation == 55, // utf16
+		collation >= 101 && collation <= 124,
+		collation == 56, collation == 62, // utf16le
+		collation >= 248: // gb18030, and utf8mb4 and utf8 again
+		return false
+	}
+	return true
+}
+
 // GetMaxLength ...
 func GetMaxLength(MySQLType uint64) {
 	// TODO: impl
-- 
2.43.0


From ea33300ae6050fb89eab0a81cab78849435ee19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 45/56] fix: keep the hidden FTS_DOC_ID column out of the
 statements

---
 recovery/ibdata/format.go    | 2 +-
 recovery/ibdata/parse.go     | 5 +++++
 recovery/ibdata/structure.go | 3 +++
 recovery/redo/mlog.go        | 4 +++-
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 28683cf..0a79e8c 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -27,7 +27,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 		for _, column := range columns {
 
 			// Skip internal field.
-			if column.IsPrefix ||
+			if column.IsPrefix || column.IsHidden ||
 				column.FieldName == "DB_ROW_ID" ||
 				column.FieldName == "DB_TRX_ID" ||
 				column.FieldName == "DB_ROLL_PTR" {
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8f21043..398c415 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -538,6 +538,10 @@ func (parse *Parse) getAllColumns() error {
 				c[5].FieldValue = utils.DATA_BLOB
 			}
 
+			// DATA_FTS_DOC_ID, a column of that name which the user declared
+			// has the type BIGINT.
+			isHidden := MySQLType == 3 && c[7].FieldValue.(uint64) == 8
+
 			IsBinary := false
 			if c[5].FieldValue.(uint64) == utils.DATA_BLOB {
 				if (c[6].FieldValue.(uint64) & 1024) != 0 {
@@ -560,6 +564,7 @@ func (parse *Parse) getAllColumns() error {
 					FieldLen:  TempFieldLen,
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
+					IsHidden: c[4].FieldValue.(string) == "FTS_DOC_ID" && isHidden,
 					IsLong:   c[7].FieldValue.(uint64) > 255,
 					IsBinary: IsBinary})
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 87e133a..8b84c55 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -43,6 +43,9 @@ type Columns struct {
 
 	// only the beginning of the column, as a key on a column prefix stores it.
 	IsPrefix bool
+
+	// InnoDB made the column for its full-text indexes, SQL does not know it.
+	IsHidden bool
 }
 
 // Indexes store the table index info.
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 41f41ff..343607c 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -242,7 +242,9 @@ func (parse *Parse) readUndoRecord(data []byte) (table ibdata.Tables, primaryCol
 			}
 
 			c.FieldValue = value
-			columns = append(columns, c)
+			if !c.IsHidden {
+				columns = append(columns, c)
+			}
 			pos += fLen
 
 			logs.Debug("values is ", value)
-- 
2.43.0


From d208c26efdcfcd921701f6c424b34764dc3013a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 46/56] fix: double the backticks in quoted names

---
 recovery/ibdata/format.go | 2 +-
 recovery/redo/parse.go    | 8 ++++----
 recovery/utils/utils.go   | 5 +++++
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 0a79e8c..501b40a 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -21,7 +21,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 		columns = append([]Columns{}, columns...)
 		sort.SliceStable(columns, func(i, j int) bool { return columns[i].FieldPos < columns[j].FieldPos })
 
-		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
+		buf.WriteString(fmt.Sprintf("replace into %s.%s values (", utils.QuoteName(database), utils.QuoteName(table)))
 		firstCol := true
 
 		for _, column := range columns {
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 1668404..2e21f2c 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -576,7 +576,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-		SetValue := fmt.Sprintf("`%s`=%s", c.FieldName, c.Literal())
+		SetValue := fmt.Sprintf("%s=%s", utils.QuoteName(c.FieldName), c.Literal())
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
@@ -587,7 +587,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`=%s", v.FieldName, v.Literal())
+		whereCondition := fmt.Sprintf("%s=%s", utils.QuoteName(v.FieldName), v.Literal())
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
@@ -595,8 +595,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 		}
 	}
 
-	query := fmt.Sprintf("update `%s`.`%s` set %s where %s;", table.DBName,
-		table.TableName, SetValues, whereConditions)
+	query := fmt.Sprintf("update %s.%s set %s where %s;", utils.QuoteName(table.DBName),
+		utils.QuoteName(table.TableName), SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
 	_, err := fmt.Println(query)
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 40ddeaf..6dc5347 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -879,6 +879,11 @@ func ParseBlob(data []byte) string {
 	return FormatDst
 }
 
+// QuoteName quotes the name of a database, table or column.
+func QuoteName(name string) string {
+	return "`" + strings.Replace(name, "`", "``", -1) + "`"
+}
+
 // EscapeValue ...
 func EscapeValue(colValue string) string {
 	// TODO: confirm other conditions will make error or inconsistent.
-- 
2.43.0


From 55111b8c2879833f63ae3a621cf9df18108872ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 47/56] fix: names in the dictionary are in filename encoding

---
 recovery/ibdata/parse.go |  4 ++--
 recovery/utils/utils.go  | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 398c415..702af8c 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -720,8 +720,8 @@ func (parse *Parse) getAllTables() error {
 			var databaseName string
 			if strings.Contains(columns[0].FieldValue.(string), "/") {
 				n := strings.Split(columns[0].FieldValue.(string), "/")
-				databaseName = n[0]
-				tableName = n[1]
+				databaseName = utils.DecodeName(n[0])
+				tableName = utils.DecodeName(n[1])
 			} else {
 				tableName = columns[0].FieldValue.(string)
 			}
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 6dc5347..b16cd18 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -879,6 +879,30 @@ func ParseBlob(data []byte) string {
 	return FormatDst
 }
 
+// DecodeName gives the name of a database or table from the form it has in the
+// file system and InnoDB's dictionary, where @ and four hexadecimal digits stand
+// for most characters beside letters, digits and _. A name that holds other
+// codes stays as it is.
+func DecodeName(name string) string {
+	var decoded bytes.Buffer
+	for pos := 0; pos < len(name); pos++ {
+		if name[pos] != '@' {
+			decoded.WriteByte(name[pos])
+			continue
+		}
+		if pos+5 > len(name) {
+			return name
+		}
+		code, err := strconv.ParseUint(name[pos+1:pos+5], 16, 16)
+		if err != nil {
+			return name
+		}
+		decoded.WriteRune(rune(code))
+		pos += 4
+	}
+	return decoded.String()
+}
+
 // QuoteName quotes the name of a database, table or column.
 func QuoteName(name string) string {
 	return "`" + strings.Replace(name, "`", "``", -1) + "`"
-- 
2.43.0


From edbaf4f0a3c6b54fcc6d269888d28327fe73862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 48/56] fix: CHAR columns of more than 768 bytes have a stored
 length

---
 recovery/ibdata/parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 702af8c..938b68a 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -527,8 +527,9 @@ func (parse *Parse) getAllColumns() error {
 			MySQLType = c[6].FieldValue.(uint64) & 0xFF
 
 			// CHAR has no stored length unless its characters can differ in
-			// size; only latin1_swedish_ci has the type DATA_CHAR of its own.
-			if c[5].FieldValue.(uint64) == utils.DATA_MYSQL &&
+			// size, or it can be long enough to be stored off the page. Only
+			// latin1_swedish_ci has the type DATA_CHAR of its own.
+			if c[5].FieldValue.(uint64) == utils.DATA_MYSQL && c[7].FieldValue.(uint64) <= 768 &&
 				utils.IsFixedWidth(c[6].FieldValue.(uint64)>>16&0x7FFF) {
 				c[5].FieldValue = utils.DATA_CHAR
 			}
-- 
2.43.0


From b868c55ea2bbb47905c7a393953a2adc7ad2c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 49/56] fix: read the DATETIME, TIME and TIMESTAMP formats
 before MySQL 5.6.4

---
 recovery/utils/utils.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index b16cd18..d1b5863 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -633,6 +633,8 @@ func ParseData(DataType uint64, MySQLType uint64,
 			}
 			FormatYear += 1900
 			return FormatYear, nil
+		case MYSQL_TYPE_DATETIME, MYSQL_TYPE_TIME, MYSQL_TYPE_TIMESTAMP:
+			return ParseOldTemporal(MySQLType, data[:FieldLen]), nil
 		default:
 			if IsUnsigned {
 				return GetUintValue(FixLength, data[:FieldLen]), nil
@@ -857,6 +859,29 @@ func ParseTimeStamp(data []byte) string {
 	return tm
 }
 
+// ParseOldTemporal reads the formats before MySQL 5.6.4, which tables that were
+// not rebuilt since still have: seconds, and the decimal numbers YYYYMMDDhhmmss
+// and hhmmss.
+func ParseOldTemporal(MySQLType uint64, data []byte) interface{} {
+	switch {
+	case MySQLType == MYSQL_TYPE_TIMESTAMP && len(data) == 4:
+		return ParseTimeStamp(data)
+	case MySQLType == MYSQL_TYPE_DATETIME && len(data) == 8:
+		n := MatchReadFrom8(data) &^ (1 << 63)
+		date, clock := n/1000000, n%1000000
+		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", date/10000, date/100%100, date%100,
+			clock/10000, clock/100%100, clock%100)
+	case MySQLType == MYSQL_TYPE_TIME && len(data) == 3:
+		sign := ""
+		n := int(MatchReadFrom3(data)) - 0x800000
+		if n < 0 {
+			sign, n = "-", -n
+		}
+		return fmt.Sprintf("%s%02d:%02d:%02d", sign, n/10000, n/100%100, n%100)
+	}
+	return nil
+}
+
 // ParseFloat ...
 func ParseFloat(data []byte) float32 {
 	bits := binary.LittleEndian.Uint32(data[:4])
-- 
2.43.0


From cc135f8fcd6d3b4cb520a9a4f8875c71fe11777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 50/56] fix: a general tablespace holds the pages of several
 tables

---
 recovery/ibdata/parse.go     | 8 ++++++++
 recovery/ibdata/structure.go | 7 +++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 938b68a..e5f33c5 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -732,6 +732,7 @@ func (parse *Parse) getAllTables() error {
 					TableName: tableName,
 					NullCount: 0,
 					ColumnNum: columnNum(columns[4].FieldValue),
+					IsShared:  isSharedSpace(columns[5].FieldValue),
 					SpaceId:   columns[9].FieldValue.(uint64)}
 		}
 	}
@@ -750,6 +751,13 @@ func isDictRow(columns []Columns, needed ...int) bool {
 	return true
 }
 
+// isSharedSpace tells from SYS_TABLES.TYPE whether the table is in a general
+// tablespace, DICT_TF_MASK_SHARED_SPACE.
+func isSharedSpace(tableType interface{}) bool {
+	flags, _ := tableType.(uint64)
+	return flags&(1<<7) != 0
+}
+
 // columnNum takes the number of stored columns from SYS_TABLES.N_COLS. Its
 // higher bits hold the row format and the number of virtual columns.
 func columnNum(nCols interface{}) uint64 {
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 8b84c55..5f7db0b 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -23,6 +23,9 @@ type Tables struct {
 	NullCount int
 	ColumnNum uint64
 	SpaceId   uint64
+
+	// the table is in a general tablespace.
+	IsShared bool
 }
 
 // Columns store the table columns info.
@@ -143,9 +146,9 @@ type Page struct {
 }
 
 // ownsPage tells whether a page in the file of the table can hold its rows. The
-// system tablespace holds the pages of many tables.
+// system tablespace and general tablespaces hold the pages of many tables.
 func (table Tables) ownsPage(page *Page) bool {
-	if table.SpaceId != 0 {
+	if table.SpaceId != 0 && !table.IsShared {
 		return true
 	}
 	for _, idx := range table.Indexes {
-- 
2.43.0


From b532a81c78d598c6154b091f3942823ad151c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 51/56] fix: keep the fractions of seconds

---
 recovery/utils/utils.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index d1b5863..7d1b2c9 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -592,14 +592,14 @@ func ParseData(DataType uint64, MySQLType uint64,
 		switch MySQLType {
 		// TODO: deal with version 2.
 		case MYSQL_TYPE_TIME:
-			FormatTime := ParseTime(data)
+			FormatTime := ParseTime(data[:FieldLen])
 			return FormatTime, nil
 		case MYSQL_TYPE_TIMESTAMP:
 			FormatTimeStamp := ParseTimeStamp(data)
-			return FormatTimeStamp, nil
+			return FormatTimeStamp + FormatFraction(readFraction(data[4:FieldLen]), int(FieldLen)-4), nil
 		case MYSQL_TYPE_DATETIME:
 			FormatDateTime := ParseDateTime(data)
-			return FormatDateTime, nil
+			return FormatDateTime + FormatFraction(readFraction(data[5:FieldLen]), int(FieldLen)-5), nil
 		case MYSQL_TYPE_BIT:
 			return GetUintValue(FixLength, data[:FieldLen]), nil
 		case MYSQL_TYPE_NEWDECIMAL:
@@ -812,16 +812,19 @@ func ParseDate(data []byte) string {
 // ParseTime ...
 func ParseTime(data []byte) string {
 
-	// TODO: add time_precision and fixed_length.
 	var hour, min, sec uint
 	var IsNegative bool
 
-	ltime := int64(MatchReadFrom3(data))
-	ltime = ltime - 0x800000
+	// The seconds and their fraction are one number.
+	bits := uint(8 * (len(data) - 3))
+	ltime := int64(MatchReadFrom3(data))<<bits | int64(readFraction(data[3:]))
+	ltime = ltime - 0x800000<<bits
 	if ltime < 0 {
 		IsNegative = true
 		ltime = -ltime
 	}
+	fraction := FormatFraction(uint64(ltime)&(1<<bits-1), len(data)-3)
+	ltime >>= bits
 
 	// TODO: add param or remove this code.
 	switch MySQLVersion {
@@ -830,7 +833,7 @@ func ParseTime(data []byte) string {
 		min = uint((ltime & 0xFC0) >> 6)
 		sec = uint(ltime & 0x3F)
 
-		FormatTime := fmt.Sprintf("%02d:%02d:%02d", hour, min, sec)
+		FormatTime := fmt.Sprintf("%02d:%02d:%02d", hour, min, sec) + fraction
 		if IsNegative {
 			FormatTime = "-" + FormatTime
 		}
@@ -847,9 +850,25 @@ func ParseTime(data []byte) string {
 	}
 }
 
+// readFraction reads the fraction of a second, big-endian in up to 3 bytes.
+func readFraction(data []byte) (fraction uint64) {
+	for _, b := range data {
+		fraction = fraction<<8 | uint64(b)
+	}
+	return fraction
+}
+
+// FormatFraction formats the fraction of a second stored in n bytes. A byte
+// holds two digits, none is stored for types without a precision.
+func FormatFraction(fraction uint64, n int) string {
+	if n <= 0 || n > 3 {
+		return ""
+	}
+	return fmt.Sprintf(".%0*d", 2*n, fraction)
+}
+
 // ParseTimeStamp ...
 func ParseTimeStamp(data []byte) string {
-	// TODO: add time_precision
 	t := MatchReadFrom4(data)
 	if t == 0 {
 		// The zero timestamp, not the start of the epoch.
-- 
2.43.0


From 608fdc9ede96764cf942aff39310ffe9c145cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:25 +0000
Subject: [PATCH 52/56] fix: the pages of a further file of the system
 tablespace do not begin with 0

---
 recovery/ibdata/parse.go | 52 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index e5f33c5..ff61c35 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -55,6 +55,7 @@ func (parse *Parse) ParseDictPage(path string) error {
 		logs.Error("parse system data file failed, error: ", err.Error())
 		return err
 	}
+	pages = homePages(pages, 0)
 
 	var systemPage Page
 	for _, page := range pages {
@@ -173,6 +174,13 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 		return err
 	}
 
+	// The system tablespace can have several files.
+	if table.SpaceId == 0 {
+		pages = homePages(pages, firstPageNo(pages))
+	} else {
+		pages = homePages(pages, 0)
+	}
+
 	for _, page := range pages {
 
 		logs.Debug("page.fh.FIL_PAGE_TYPE is ", page.fh.FIL_PAGE_TYPE, "page.fh.FIL_PAGE_OFFSET", page.fh.FIL_PAGE_OFFSET)
@@ -231,7 +239,7 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	}
 	defer file.Close()
 
-	for pageNo := uint64(0); ; pageNo++ {
+	for {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
 		if err == io.EOF {
@@ -255,14 +263,46 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 
 		// Store the page.
 		page.OriginalData = data
+		pages = append(pages, page)
+	}
+	return pages, err
+}
 
-		// Pages elsewhere than at their own position are older copies, such as
-		// those in the doublewrite buffer.
-		if page.fh.FIL_PAGE_OFFSET == pageNo {
-			pages = append(pages, page)
+// homePages keeps the pages of a file, the first of which has the given number,
+// that are at their own position. Pages elsewhere are older copies, such as those
+// in the doublewrite buffer.
+func homePages(pages []Page, firstNo uint64) []Page {
+	var home []Page
+	for i, page := range pages {
+		if page.fh.FIL_PAGE_OFFSET == firstNo+uint64(i) {
+			home = append(home, page)
 		}
 	}
-	return pages, err
+	return home
+}
+
+// firstPageNo gives the number of the first page of a file of the system
+// tablespace. It is not 0 for the files after the first, which are taken for
+// such if most of their pages are numbered from a later one on.
+func firstPageNo(pages []Page) uint64 {
+	used := 0
+	firstNos := make(map[uint64]int)
+	for i, page := range pages {
+		if page.fh.FIL_PAGE_OFFSET == 0 && page.fh.FIL_PAGE_TYPE == 0 {
+			// never written
+			continue
+		}
+		used++
+		if page.fh.FIL_PAGE_OFFSET >= uint64(i) {
+			firstNos[page.fh.FIL_PAGE_OFFSET-uint64(i)]++
+		}
+	}
+	for firstNo, n := range firstNos {
+		if 2*n > used && firstNos[0] == 0 {
+			return firstNo
+		}
+	}
+	return 0
 }
 
 func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
-- 
2.43.0


From 30e2968fa7ce8258bde726ea229a573e1924b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 53/56] fix: general options before the command were refused

---
 cmd/db-recovery/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 3ee165e..320d03b 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -104,7 +104,7 @@ func NewFromDataFileCommand() *cobra.Command {
 func FromDataFile(cmd *cobra.Command, args []string) {
 
 	// init logger
-	flag.Parse()
+	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fail(err)
@@ -154,7 +154,7 @@ func NewFromRedoFileCommand() *cobra.Command {
 func FromRedoFile(cmd *cobra.Command, args []string) {
 
 	// init logger
-	flag.Parse()
+	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fail(err)
-- 
2.43.0


From 7838f6eb4fc76aadc7303f0d27befeeed1228cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 54/56] fix: updates of InnoDB's own tables were printed as
 statements without a database

---
 recovery/redo/mlog.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 343607c..306e8b7 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -97,7 +97,8 @@ func (parse *Parse) parseUndoRecord(data []byte) error {
 	// Make data to sql statement, only for update statement.
 	// Print sql statement when user identify the table name or the database name,
 	// if user don't identify table and database name, print all sql statement.
-	if len(columns) == 0 ||
+	// InnoDB's own tables, SYS_DATAFILES for one, are in no database.
+	if len(columns) == 0 || table.DBName == "" ||
 		parse.DBName != "" && parse.DBName != table.DBName ||
 		parse.TableName != "" && parse.TableName != table.TableName {
 		return nil
-- 
2.43.0


From dd525607d9b2843a8b5505673d6bbdda048dbaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:01 +0000
Subject: [PATCH 55/56] fix: A log block skipped for lack of a record group
 ends the run of blocks before it

---
 recovery/redo/parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 2e21f2c..48ba5cc 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -110,6 +110,8 @@ func (runs *blockRuns) add(header BlockHeader, data []byte) {
 	if !continued {
 		// Records can be parsed from the start of a record group on only.
 		if header.FirstRecOffset < LOG_BLOCK_HDR_SIZE || int(header.FirstRecOffset) >= LOG_BLOCK_HDR_SIZE+len(data) {
+			// Nor do the blocks behind it continue the run before it, no block has the number 0.
+			runs.nextNo = 0
 			return
 		}
 		data = data[header.FirstRecOffset-LOG_BLOCK_HDR_SIZE:]
-- 
2.43.0


From 027943bde2a13710cef0ff5beafeec8365f17479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:46 +0000
Subject: [PATCH 56/56] fix: An index whose name is GEN_CLUST_INDEX behind a
 space was taken for the generated key

---
 recovery/redo/mlog.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 306e8b7..c9e7ac7 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -16,7 +16,6 @@ package redo
 
 import (
 	"fmt"
-	"strings"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
 	"github.com/zbdba/db-recovery/recovery/logs"
@@ -291,8 +290,8 @@ func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error)
 	var fields []*ibdata.Fields
 
 	for _, idx := range table.Indexes {
-		if idx.IsClusteredKey() || strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
-			if strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
+		if idx.IsClusteredKey() || idx.Name == "GEN_CLUST_INDEX" {
+			if idx.Name == "GEN_CLUST_INDEX" {
 				fields = []*ibdata.Fields{&ibdata.Fields{ColumnPos: 0, ColumnName: "DB_ROW_ID"}}
 			} else {
 				fields = idx.Fields
-- 
2.43.0

