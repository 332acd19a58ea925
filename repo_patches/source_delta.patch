From 94cce7b5c04badd793cac3adf891bdf7678e379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:49 +0000
Subject: [PATCH 001/211] fix: a negative read size in a data range reads the
 remaining data of the range

---
 dtformats/data_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index e46e42d..7596555 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -56,7 +56,7 @@ class DataRange:
         if self._current_offset >= self.data_size:
             return b""
 
-        if size is None:
+        if size is None or size < 0:
             size = self.data_size
         if self._current_offset + size > self.data_size:
             size = self.data_size - self._current_offset
-- 
2.43.0


From 805698d74ce414f56856d7a8f011f48841db43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:49 +0000
Subject: [PATCH 002/211] fix: escape byte value 0xff when formatting a stream
 as a string

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 0646983..740bbe1 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -49,7 +49,7 @@ class BinaryDataFormat:
     # Byte values that are considered non-printable characters.
     _NON_PRINTABLE_BYTE_VALUES = {value: f"\\x{value:02x}" for value in range(0, 0x20)}
     _NON_PRINTABLE_BYTE_VALUES.update(
-        {value: f"\\x{value:02x}" for value in range(0x7F, 0xFF)}
+        {value: f"\\x{value:02x}" for value in range(0x7F, 0x100)}
     )
     _NON_PRINTABLE_BYTE_VALUES_TRANSLATION_TABLE = str.maketrans(
         _NON_PRINTABLE_BYTE_VALUES
-- 
2.43.0


From cad6ea3544cbfc9a6109b872a4abfefec6401ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 003/211] fix: format POSIX times outside of the years 1 to
 9999 as hexadecimal

---
 dtformats/data_format.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 740bbe1..7c673bd 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -55,6 +55,10 @@ class BinaryDataFormat:
         _NON_PRINTABLE_BYTE_VALUES
     )
 
+    # First and last POSIX time in seconds that is within the years 1 to 9999.
+    _POSIX_TIME_LOWER_BOUND = -62135596800
+    _POSIX_TIME_UPPER_BOUND = 253402300799
+
     def __init__(self, debug=False, output_writer=None):
         """Initializes a binary data format.
 
@@ -67,6 +71,21 @@ class BinaryDataFormat:
         self._debug = debug
         self._output_writer = output_writer
 
+    def _CheckPosixTime(self, number_of_seconds):
+        """Checks if a POSIX time can be represented as a date and time string.
+
+        Args:
+          number_of_seconds (int): number of seconds since January 1, 1970.
+
+        Returns:
+          bool: True if the POSIX time is within the years 1 to 9999.
+        """
+        return (
+            self._POSIX_TIME_LOWER_BOUND
+            <= number_of_seconds
+            <= self._POSIX_TIME_UPPER_BOUND
+        )
+
     def _DebugPrintData(self, description, data):
         """Prints data for debugging.
 
@@ -127,6 +146,8 @@ class BinaryDataFormat:
         """
         if value == 0:
             date_time_string = "Not set (0)"
+        elif not self._CheckPosixTime(value):
+            date_time_string = f"0x{value:08x}"
         else:
             date_time = dfdatetime_posix_time.PosixTime(timestamp=value)
             date_time_string = date_time.CopyToDateTimeString()
@@ -406,6 +427,9 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        if not self._CheckPosixTime(integer):
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
@@ -425,6 +449,9 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        if not self._CheckPosixTime(integer // 1000000):
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTimeInMicroseconds(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
@@ -444,6 +471,9 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        if not self._CheckPosixTime(integer // 1000000000):
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTimeInNanoseconds(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
-- 
2.43.0


From 73934ea9bc1f5735a5a9d24844ba59d8ba9ae930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 004/211] fix: report failing seeks and invalid read sizes as a
 parse error

---
 dtformats/data_format.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 7c673bd..d8039f2 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -637,11 +637,11 @@ class BinaryDataFormat:
         if not file_object:
             raise ValueError("Missing file-like object.")
 
-        file_object.seek(file_offset, os.SEEK_SET)
-
         read_error = ""
 
         try:
+            file_object.seek(file_offset, os.SEEK_SET)
+
             data = file_object.read(data_size)
             read_count = len(data)
 
@@ -650,8 +650,8 @@ class BinaryDataFormat:
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
 
-        except OSError as exception:
-            read_error = f"{exception!s}"
+        except (MemoryError, OSError, OverflowError, ValueError) as exception:
+            read_error = f"{exception!s}" or type(exception).__name__
 
         if read_error:
             raise errors.ParseError(
-- 
2.43.0


From 2ebe4aa309465c93c1db9993dce4f69b4dc6e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 005/211] fix: report an empty byte stream as a parse error
 instead of a missing argument

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index d8039f2..b2a48a7 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -681,7 +681,7 @@ class BinaryDataFormat:
           ParseError: if the structure cannot be read.
           ValueError: if file-like object or data type map is missing.
         """
-        if not byte_stream:
+        if byte_stream is None:
             raise ValueError("Missing byte stream.")
 
         if not data_type_map:
-- 
2.43.0


From 776850d7d0dd2047285cd743b0c70be596719d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 006/211] fix: close the file if reading it failed during open

---
 dtformats/data_format.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index b2a48a7..1874820 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -925,7 +925,11 @@ class BinaryDataFile(BinaryDataFormat):
 
         file_object = self._file_system_helper.OpenFileByPath(path)
 
-        self.ReadFileObject(file_object)
+        try:
+            self.ReadFileObject(file_object)
+        except Exception:
+            file_object.close()
+            raise
 
         self._file_object = file_object
         self._file_object_opened_in_object = True
-- 
2.43.0


From cbfd9d5cd26f8d4ff1ac471a1809c98df05c2a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 007/211] fix: read the 64-bit time zone information header at
 its own offset

---
 dtformats/tzif.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 9532327..0e1fdb6 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -96,11 +96,13 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         self._DebugPrintText("\n")
 
-    def _ReadFileHeader(self, file_object):
+    def _ReadFileHeader(self, file_object, file_offset=0):
         """Reads a file header.
 
         Args:
           file_object (file): file-like object.
+          file_offset (Optional[int]): offset of the file header relative to
+              the start of the file.
 
         Returns:
           tzif_file_header: a file header.
@@ -111,7 +113,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tzif_file_header")
 
         file_header, _ = self._ReadStructureFromFileObject(
-            file_object, 0, data_type_map, "file header"
+            file_object, file_offset, data_type_map, "file header"
         )
 
         if self._debug:
@@ -282,7 +284,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the 64-bit time zone information cannot be read.
         """
-        file_header = self._ReadFileHeader(file_object)
+        file_header = self._ReadFileHeader(
+            file_object, file_offset=file_object.tell()
+        )
 
         self._ReadTransitionTimes64bit(file_object, file_header)
         self._ReadTransitionTimeIndex(file_object, file_header)
-- 
2.43.0


From 73ca918248126d84feb57f0afcb4ffa258d542b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:47 +0000
Subject: [PATCH 008/211] fix: 64-bit leap second records are 12 bytes of size

---
 dtformats/tzif.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 0e1fdb6..6d01c44 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -129,18 +129,19 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         return file_header
 
-    def _ReadLeapSecondRecords(self, file_object, file_header):
+    def _ReadLeapSecondRecords(self, file_object, file_header, record_size=8):
         """Reads the lead second records.
 
         Args:
           file_object (file): file-like object.
           file_header (tzif_file_header): file header.
+          record_size (Optional[int]): size of a leap second record.
 
         Raises:
           ParseError: if the leap second records cannot be read.
         """
         file_offset = file_object.tell()
-        data_size = 8 * file_header.number_of_leap_seconds
+        data_size = record_size * file_header.number_of_leap_seconds
 
         data = self._ReadData(
             file_object, file_offset, data_size, "leap second records"
@@ -292,7 +293,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
-        self._ReadLeapSecondRecords(file_object, file_header)
+        self._ReadLeapSecondRecords(file_object, file_header, record_size=12)
         self._ReadStandardTimeIndicators(file_object, file_header)
         self._ReadUTCTimeIndicators(file_object, file_header)
 
-- 
2.43.0


From 7d25742f6b9a53bfde4b1b35abe597f823ab3683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:47 +0000
Subject: [PATCH 009/211] fix: determine the end of the compressed data of a
 gzip member, also if it is empty or damaged

---
 dtformats/gzipfile.py | 48 +++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 422a310..cb29135 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -35,46 +35,30 @@ class GZipFile(data_format.BinaryDataFile):
 
     _BUFFER_SIZE = 16 * 1024 * 1024
 
-    def _ReadCompressedData(self, zlib_decompressor, compressed_data):
-        """Reads compressed data.
-
-        Args:
-          zlib_decompressor (zlib.Decompress): zlib decompressor.
-          compressed_data (bytes): compressed data.
-
-        Returns:
-          tuple[bytes, bytes]: decompressed data and remaining data.
-        """
-        data_segments = []
-        while compressed_data:
-            data = zlib_decompressor.decompress(compressed_data)
-            if not data:
-                break
-
-            data_segments.append(data)
-            compressed_data = getattr(zlib_decompressor, "unused_data", b"")
-
-        return b"".join(data_segments), compressed_data
-
     def _ReadMemberCompressedData(self, file_object):
         """Reads a member compressed data.
 
         Args:
           file_object (file): file-like object.
+
+        Raises:
+          ParseError: if the compressed data cannot be read.
         """
         zlib_decompressor = zlib.decompressobj(-zlib.MAX_WBITS)
-        compressed_data = file_object.read(self._BUFFER_SIZE)
-        while compressed_data:
-            data, compressed_data = self._ReadCompressedData(
-                zlib_decompressor, compressed_data
-            )
-            if compressed_data:
-                file_object.seek(-len(compressed_data), os.SEEK_CUR)
-
-            if not data:
-                break
-
+        while not zlib_decompressor.eof:
             compressed_data = file_object.read(self._BUFFER_SIZE)
+            if not compressed_data:
+                raise errors.ParseError("Missing compressed data.")
+
+            try:
+                zlib_decompressor.decompress(compressed_data)
+            except (MemoryError, zlib.error) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress data with error: {exception!s}"
+                )
+
+        if zlib_decompressor.unused_data:
+            file_object.seek(-len(zlib_decompressor.unused_data), os.SEEK_CUR)
 
     def _ReadMemberFooter(self, file_object):
         """Reads a member footer.
-- 
2.43.0


From 9f55c82c46622f35e83bff2f592ec79497541a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:47 +0000
Subject: [PATCH 010/211] fix: report a login record string that is not UTF-8
 as invalid

---
 dtformats/utmp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index 311b1ca..ffe54c1 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -40,17 +40,17 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("PID", f"{entry.pid:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintValue("Termination status", f"0x{entry.termination_status:04x}")
@@ -150,13 +150,13 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
           entry (macosx_utmpx_entry): entry.
         """
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
@@ -173,7 +173,7 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintData("Unknown2", entry.unknown2)
-- 
2.43.0


From 14e4886a82723a5a6fb3b9608d3b16c50116cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:47 +0000
Subject: [PATCH 011/211] fix: print the IP address of a login record instead
 of a tuple

---
 dtformats/utmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index ffe54c1..5005d61 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -64,11 +64,13 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         if entry.ip_address[4:] == self._EMPTY_IP_ADDRESS[4:]:
-            value_string = self._FormatArrayOfIntegersAsIPv4Address(
+            value_string, _ = self._FormatArrayOfIntegersAsIPv4Address(
                 entry.ip_address[:4]
             )
         else:
-            value_string = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
+            value_string, _ = self._FormatArrayOfIntegersAsIPv6Address(
+                entry.ip_address
+            )
 
         self._DebugPrintValue("IP address", value_string)
 
-- 
2.43.0


From ae438a7c2bcaf8256540e41a16521fe2ea00baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:00 +0000
Subject: [PATCH 012/211] fix: read the complete path of a CPIO file entry,
 also if it is not ASCII

---
 dtformats/cpio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index c11c9b7..85e5f23 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -239,15 +239,16 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileEntry(file_entry)
 
-        path_data = file_object.read(file_entry.path_size)
+        path_data = self._ReadData(
+            file_object, file_offset, file_entry.path_size, "path"
+        )
 
         if self._debug:
             self._DebugPrintData("Path data", path_data)
 
         file_offset += file_entry.path_size
 
-        # TODO: should this be ASCII?
-        path = path_data.decode("ascii")
+        path = path_data.decode("utf-8", errors="backslashreplace")
         path, _, _ = path.partition("\x00")
 
         if self._debug:
-- 
2.43.0


From d728e86d4765292cc34ee2cf2ff607b3beedcaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:00 +0000
Subject: [PATCH 013/211] fix: refuse negative values in an ASCII CPIO file
 entry

---
 dtformats/cpio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index 85e5f23..e8a4899 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -211,6 +211,8 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 value = getattr(file_entry, attribute_name, None)
                 try:
                     value = int(value, 8)
+                    if value < 0:
+                        raise ValueError("Invalid value less than zero")
                 except ValueError:
                     raise errors.ParseError(
                         (
@@ -226,6 +228,8 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 value = getattr(file_entry, attribute_name, None)
                 try:
                     value = int(value, 16)
+                    if value < 0:
+                        raise ValueError("Invalid value less than zero")
                 except ValueError:
                     raise errors.ParseError(
                         (
-- 
2.43.0


From d36be0fc713e46005a9e2d2afc69899b5c0f2c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:00 +0000
Subject: [PATCH 014/211] fix: hash the file entries of every archive in a CPIO
 archive file

---
 scripts/cpio.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 189ecf3..00514d5 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -90,8 +90,11 @@ class CPIOArchiveFileHasher:
             cpio_file_object = None
 
             if file_type == "cpio":
-                file_object.seek(file_offset, os.SEEK_SET)
-                cpio_file_object = file_object
+                cpio_file_object = data_range.DataRange(
+                    file_object,
+                    data_offset=file_offset,
+                    data_size=file_size - file_offset,
+                )
             elif file_type in ("bzip", "gzip", "xz"):
                 compressed_data_size = file_size - file_offset
                 compressed_data_file_object = data_range.DataRange(
@@ -110,7 +113,9 @@ class CPIOArchiveFileHasher:
             cpio_archive_file = cpio.CPIOArchiveFile(debug=self._debug)
             cpio_archive_file.ReadFileObject(cpio_file_object)
 
-            for file_entry in sorted(cpio_archive_file.GetFileEntries()):
+            for file_entry in sorted(
+                cpio_archive_file.GetFileEntries(), key=lambda entry: entry.path
+            ):
                 if file_entry.data_size == 0:
                     continue
 
@@ -123,13 +128,17 @@ class CPIOArchiveFileHasher:
                 digest_hash = sha256_context.hexdigest()
                 self._output_writer.WriteText(f"{digest_hash:s}\t{file_entry.path:s}\n")
 
+            # Compressed data continues until the end of the file.
+            if file_type != "cpio":
+                break
+
             file_offset += cpio_archive_file.size
 
             padding_size = file_offset % 16
             if padding_size > 0:
                 file_offset += 16 - padding_size
 
-            cpio_archive_file.Close()
+        file_object.close()
 
 
 def Main():
-- 
2.43.0


From fe6cacbce553a48c41c67422138dc40640764621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:45 +0000
Subject: [PATCH 015/211] fix: read the strings data of an ASL record from the
 end of the previous record

---
 dtformats/asl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/asl.py b/dtformats/asl.py
index 9d90156..0704a96 100644
--- a/dtformats/asl.py
+++ b/dtformats/asl.py
@@ -1,5 +1,7 @@
 """Apple System Log (ASL) files."""
 
+import os
+
 from dtformats import data_format
 from dtformats import errors
 
@@ -101,6 +103,7 @@ class AppleSystemLogFile(data_format.BinaryDataFile):
 
         file_offset += record_data_size
         additional_data_size = record.data_size + 6 - record_data_size
+        record_end_offset = file_offset + additional_data_size
 
         if additional_data_size % 8 != 0:
             raise errors.ParseError("Invalid record additional data size.")
@@ -140,6 +143,10 @@ class AppleSystemLogFile(data_format.BinaryDataFile):
 
         # TODO: implement print previous record offset
 
+        # Strings of the record can be stored anywhere in the file, make sure
+        # the strings of the next record are read from the end of this record.
+        file_object.seek(record_end_offset, os.SEEK_SET)
+
         return record.next_record_offset
 
     def _ReadRecordExtraField(self, byte_stream, file_offset):
-- 
2.43.0


From 28dde4b1f7593db54c83845ad1f7c387f45268df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:45 +0000
Subject: [PATCH 016/211] fix: format the ANSI filename of a recycler entry if
 it is padded or has an undefined byte value

---
 dtformats/recycler.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 8bb6783..df34265 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -34,20 +34,13 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
         """Formats an ANSI string.
 
         Args:
-          string (str): string.
+          string (bytes): string.
 
         Returns:
           str: formatted ANSI string.
-
-        Raises:
-          ParseError: if the string could not be decoded.
         """
-        try:
-            return string.decode(self._codepage)
-        except UnicodeDecodeError as exception:
-            raise errors.ParseError(
-                f"Unable to decode ANSI string with error: {exception!s}."
-            )
+        string = string.decode(self._codepage, errors="backslashreplace")
+        return string.rstrip("\x00")
 
     def _ReadFileEntry(self, file_object):
         """Reads the file entry.
-- 
2.43.0


From 7d1969e14b12155a9212b006c19ab1ef02a2aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:45 +0000
Subject: [PATCH 017/211] fix: print the INFO2 file header with its own debug
 information

---
 dtformats/recycler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index df34265..d66d5df 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -110,7 +110,7 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
             file_object, 0, data_type_map, "file header"
         )
         if self._debug:
-            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_entry", None)
+            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_header", None)
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if file_header.file_entry_size not in (280, 800):
-- 
2.43.0


From 1377f6a84e8d4f3ce0e3d5ddf57dc205c2e95915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:00 +0000
Subject: [PATCH 018/211] fix: do not read the header token of a BSM event
 record twice

---
 dtformats/bsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ce1e2f1..74e6394 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -924,6 +924,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         header_record_size = token.record_size
         record_end_offset = file_offset + header_record_size
+
+        file_offset = file_object.tell()
         while file_offset < record_end_offset:
             token = self._ReadToken(file_object, file_offset)
 
-- 
2.43.0


From eae774570e56e16216de773457da4552b8b02971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:00 +0000
Subject: [PATCH 019/211] fix: report a BSM event record without a trailer
 token as a parse error

---
 dtformats/bsm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 74e6394..9919683 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -937,6 +937,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
             if token.token_type == self._TRAILER_TOKEN_TYPE:
                 break
 
+        if token.token_type != self._TRAILER_TOKEN_TYPE:
+            raise errors.ParseError("Missing trailer token.")
+
         if token.record_size != header_record_size:
             raise errors.ParseError(
                 "Mismatch of event record size between header and trailer token."
-- 
2.43.0


From 8fc9641191c001ed7fb798873e1e0b1568c3f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:00 +0000
Subject: [PATCH 020/211] fix: read BSM tokens without debug information also
 with debug output

---
 dtformats/bsm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 9919683..812105f 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -973,7 +973,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-            self._DebugPrintStructureObject(token, debug_info)
+            if debug_info:
+                self._DebugPrintStructureObject(token, debug_info)
 
         return token
 
-- 
2.43.0


From 1ca57536fd156e2c03f26f2c7ba32792b8fa6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:00 +0000
Subject: [PATCH 021/211] fix: read a BSM exit token also with debug output

---
 dtformats/bsm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 812105f..7772aac 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -783,6 +783,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x3C: "token exec_args",
         0x3D: "token exec_env",
         0x3E: "token attr32",
+        0x52: "token exit",
         0x60: "token zonename",
         0x71: "token arg64",
         0x72: "token return64",
-- 
2.43.0


From 27b05f2d6415f366c75db66fe09a5823246896a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:00 +0000
Subject: [PATCH 022/211] fix: refuse a BSM token with an unsupported net type
 also without debug output

---
 dtformats/bsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 7772aac..f3cd1e0 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -971,6 +971,10 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if not token:
             raise errors.ParseError(f"Unsupported token type: {token_type:d}")
 
+        net_type = getattr(token, "net_type", 4)
+        if net_type not in (4, 16):
+            raise errors.ParseError(f"Unsupported net type: {net_type:d}")
+
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-- 
2.43.0


From 164d948bf2d60459b5b908fd793eaaa0f1ed92b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:36 +0000
Subject: [PATCH 023/211] fix: read the strings of a BSM exec arguments token
 one by one

The size of a sequence of strings is not known beforehand, as a consequence
data of the next tokens was consumed.
---
 dtformats/bsm.py   | 29 +++++++++++++++++++++++++++++
 dtformats/bsm.yaml |  4 ----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index f3cd1e0..d098e5e 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -803,6 +803,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x82: "token sockunix",
     }
 
+    _EXEC_TOKEN_TYPES = frozenset([0x3C, 0x3D])
+
     _HEADER_TOKEN_TYPES = frozenset([0x14, 0x15, 0x74, 0x79])
 
     _TRAILER_TOKEN_TYPE = 0x13
@@ -946,6 +948,30 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
                 "Mismatch of event record size between header and trailer token."
             )
 
+    def _ReadStrings(self, file_object, number_of_strings):
+        """Reads strings from the current offset of the file-like object.
+
+        Args:
+          file_object (file): file-like object.
+          number_of_strings (int): number of strings.
+
+        Returns:
+          list[str]: strings.
+
+        Raises:
+          ParseError: if the strings cannot be read.
+        """
+        data_type_map = self._GetDataTypeMap("cstring")
+
+        strings = []
+        while len(strings) < number_of_strings:
+            string, _ = self._ReadStructureFromFileObject(
+                file_object, file_object.tell(), data_type_map, "string"
+            )
+            strings.append(string)
+
+        return strings
+
     def _ReadToken(self, file_object, file_offset):
         """Reads a token.
 
@@ -971,6 +997,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if not token:
             raise errors.ParseError(f"Unsupported token type: {token_type:d}")
 
+        if token_type in self._EXEC_TOKEN_TYPES:
+            token.strings = self._ReadStrings(file_object, token.number_of_strings)
+
         net_type = getattr(token, "net_type", 4)
         if net_type not in (4, 16):
             raise errors.ParseError(f"Unsupported net type: {net_type:d}")
diff --git a/dtformats/bsm.yaml b/dtformats/bsm.yaml
index 611fda7..67f47e8 100644
--- a/dtformats/bsm.yaml
+++ b/dtformats/bsm.yaml
@@ -174,10 +174,6 @@ members:
   values: [0x3c, 0x3d]
 - name: number_of_strings
   data_type: uint32
-- name: strings
-  type: sequence
-  element_data_type: cstring
-  number_of_elements: bsm_token_exec_args.number_of_strings
 ---
 name: bsm_token_exit
 type: structure
-- 
2.43.0


From f4219e6a8a32fa9f5d030ac03758f7c3f6981bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 024/211] fix: refuse an rp.log file that is too small for its
 footer

---
 dtformats/rp_log.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index 00cdd19..af4e3c4 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -119,8 +119,9 @@ class RestorePointLogFile(data_format.BinaryDataFile):
         """
         self._ReadFileHeader(file_object)
 
-        data_size = (self._file_size - 8) - file_object.tell()
-        data = file_object.read(data_size)
+        data_offset = file_object.tell()
+        data_size = (self._file_size - 8) - data_offset
+        data = self._ReadData(file_object, data_offset, data_size, "unknown1")
         self._DebugPrintData("Unknown1", data)
 
         self._ReadFileFooter(file_object)
-- 
2.43.0


From 76a6e28afce6e203f58c5e25a03e29b05bc47d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 025/211] fix: only print the data of an rp.log file with debug
 output

---
 dtformats/rp_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index af4e3c4..54da768 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -122,6 +122,7 @@ class RestorePointLogFile(data_format.BinaryDataFile):
         data_offset = file_object.tell()
         data_size = (self._file_size - 8) - data_offset
         data = self._ReadData(file_object, data_offset, data_size, "unknown1")
-        self._DebugPrintData("Unknown1", data)
+        if self._debug:
+            self._DebugPrintData("Unknown1", data)
 
         self._ReadFileFooter(file_object)
-- 
2.43.0


From a42b4666205bc6adb2970e68d4bb6ed71adc8f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 026/211] fix: keep the last character of the process name of a
 change.log entry

---
 dtformats/rp_change_log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 00d66c4..2120a11 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -237,7 +237,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         if self._debug:
             self._DebugPrintValue(
-                "Process name", change_log_entry_record2.process_name[:-1]
+                "Process name", change_log_entry_record2.process_name
             )
 
             self._DebugPrintText("\n")
@@ -249,7 +249,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             change_log_entry_record.file_attribute_flags
         )
         change_log_entry.sequence_number = change_log_entry_record.sequence_number
-        change_log_entry.process_name = change_log_entry_record2.process_name[:-1]
+        change_log_entry.process_name = change_log_entry_record2.process_name
 
         sub_record_data_offset = context.byte_size
         sub_record_data_size = record_size - 4
-- 
2.43.0


From 5cab883b55bcfdf8f96d10828ce54bda53e65977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 027/211] fix: make the volume path of a change.log file
 available

---
 dtformats/rp_change_log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 2120a11..b95260d 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -479,6 +479,8 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
                 f"Unsupported record type: {volume_path_record.record_type:d}"
             )
 
+        self.volume_path = volume_path_record.volume_path[:-1]
+
     def ReadFileObject(self, file_object):
         """Reads a Windows Restore Point change.log file-like object.
 
-- 
2.43.0


From a9c2e1816488d5210bb332d0122ebce903a5071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 028/211] fix: refuse a change.log record that is smaller than
 its header or incomplete

---
 dtformats/rp_change_log.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index b95260d..677ffe5 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -210,8 +210,10 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         # TODO: refactor to use size hints
         record_size = change_log_entry_record.record_size - data_size
-        record_data = file_object.read(record_size)
         file_offset += data_size
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "change log entry record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
@@ -335,7 +337,9 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         file_offset = file_header_data_size
         record_size = file_header.record_size - file_header_data_size
-        record_data = file_object.read(record_size)
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "file header record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
-- 
2.43.0


From 6bdca5f087373d34cc9bd2e0f87eccb982816a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:09 +0000
Subject: [PATCH 029/211] fix: only read a string from the sub records of a
 change.log entry that have one

---
 dtformats/rp_change_log.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 677ffe5..7863982 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -412,23 +412,24 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
+        record_data_end_offset = record_data_offset + record_header.record_size
         record_data_offset += context.byte_size
 
         value_string = ""
         if record_header.record_type in (4, 5, 9):
             data_type_map = self._GetDataTypeMap("utf16le_string")
 
-        try:
-            value_string = self._ReadStructureFromByteStream(
-                record_data[record_data_offset:],
-                record_data_offset,
-                data_type_map,
-                "value string",
-            )
-        except (ValueError, errors.ParseError) as exception:
-            raise errors.ParseError(
-                f"Unable to parse UTF-16 string with error: {exception!s}"
-            )
+            try:
+                value_string = self._ReadStructureFromByteStream(
+                    record_data[record_data_offset:record_data_end_offset],
+                    record_data_offset,
+                    data_type_map,
+                    "value string",
+                )
+            except (ValueError, errors.ParseError) as exception:
+                raise errors.ParseError(
+                    f"Unable to parse UTF-16 string with error: {exception!s}"
+                )
 
         # TODO: add support for other record types.
         # TODO: store record values in runtime objects.
-- 
2.43.0


From b9500fa5f8824332208d93df9aeb332bd6d5f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 030/211] fix: refuse a binary cookies file with incomplete
 page sizes

---
 dtformats/safari_cookies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 96fdb22..eef30d3 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -137,7 +137,9 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         # TODO: check for upper limit.
         page_sizes_data_size = file_header.number_of_pages * 4
 
-        page_sizes_data = file_object.read(page_sizes_data_size)
+        page_sizes_data = self._ReadData(
+            file_object, file_offset, page_sizes_data_size, "page sizes"
+        )
 
         if self._debug:
             self._DebugPrintData("Page sizes data", page_sizes_data)
-- 
2.43.0


From cbe61cfffb1d4f474b2202455d80e9a265db6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:14 +0000
Subject: [PATCH 031/211] fix: read a binary cookies file without pages

---
 dtformats/safari_cookies.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index eef30d3..56c9c3d 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -130,6 +130,11 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileHeader(file_header)
 
+        self._page_sizes = []
+
+        if not file_header.number_of_pages:
+            return
+
         file_offset = file_header_data_size
 
         # TODO: move page sizes array into file header, this will require dtFabric
@@ -163,16 +168,14 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
                 f"error: {exception!s}"
             )
 
-        self._page_sizes = []
-        if file_header.number_of_pages > 0:
-            for index, page_size in enumerate(page_sizes_array):
-                self._page_sizes.append(page_size)
-
-                if self._debug:
-                    self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+        for index, page_size in enumerate(page_sizes_array):
+            self._page_sizes.append(page_size)
 
             if self._debug:
-                self._DebugPrintText("\n")
+                self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+
+        if self._debug:
+            self._DebugPrintText("\n")
 
     def _ReadPage(self, file_object, file_offset, page_size):
         """Reads a page.
-- 
2.43.0


From 53854275fbaf051cedc06139b8034e73a9986385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:14 +0000
Subject: [PATCH 032/211] fix: format cookie timestamps that cannot be
 represented as a date and time

---
 dtformats/safari_cookies.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 56c9c3d..00e0ec6 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -53,20 +53,32 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Value offset", f"{record_header.value_offset:d}")
         self._DebugPrintValue("Unknown3", f"0x{record_header.unknown3:08x}")
 
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.expiration_time)
-        )
-        self._DebugPrintValue(
-            "Expiration time", f"{date_time!s} ({record_header.expiration_time:f})"
-        )
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.creation_time)
-        )
-        self._DebugPrintValue(
-            "Creation time", f"{date_time!s} ({record_header.creation_time:f})"
-        )
+        value_string = self._FormatTimestamp(record_header.expiration_time)
+        self._DebugPrintValue("Expiration time", value_string)
+
+        value_string = self._FormatTimestamp(record_header.creation_time)
+        self._DebugPrintValue("Creation time", value_string)
+
         self._DebugPrintText("\n")
 
+    def _FormatTimestamp(self, timestamp):
+        """Formats a Cocoa timestamp.
+
+        Args:
+          timestamp (float): timestamp, in number of seconds since January 1, 2001.
+
+        Returns:
+          str: formatted timestamp.
+        """
+        try:
+            date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
+                seconds=int(timestamp)
+            )
+        except (OverflowError, ValueError):
+            return f"{timestamp:f}"
+
+        return f"{date_time!s} ({timestamp:f})"
+
     def _ReadCString(self, page_data, string_offset):
         """Reads a string from the page data.
 
-- 
2.43.0


From 2ff819529609bcd9e6c00025b816c81cbbb09b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:14 +0000
Subject: [PATCH 033/211] fix: refuse a DLS page with an unsupported signature

---
 dtformats/fseventsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/fseventsd.py b/dtformats/fseventsd.py
index 079f414..c9b9d8c 100644
--- a/dtformats/fseventsd.py
+++ b/dtformats/fseventsd.py
@@ -3,6 +3,7 @@
 import pygzipf
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class FseventsFile(data_format.BinaryDataFile):
@@ -123,7 +124,7 @@ class FseventsFile(data_format.BinaryDataFile):
                     elif page_header.signature == self._DLS_V2_SIGNATURE:
                         format_version = 2
                     else:
-                        format_version = 0
+                        raise errors.ParseError("Unsupported DLS page signature")
 
                     _, bytes_read = self._ReadDLSRecord(
                         gzipf_file, file_offset, format_version
-- 
2.43.0


From 13356df036680b58032f86ddcc98853edd459c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:14 +0000
Subject: [PATCH 034/211] fix: refuse a DLS record that exceeds its page

---
 dtformats/fseventsd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/fseventsd.py b/dtformats/fseventsd.py
index c9b9d8c..ee1be91 100644
--- a/dtformats/fseventsd.py
+++ b/dtformats/fseventsd.py
@@ -132,5 +132,10 @@ class FseventsFile(data_format.BinaryDataFile):
 
                     file_offset += bytes_read
 
+                    if file_offset > page_end_offset:
+                        raise errors.ParseError(
+                            "DLS record exceeds the end of the page"
+                        )
+
         finally:
             gzipf_file.close()
-- 
2.43.0


From d57fbb39c9330df2a1327ca4dfdfa2434adc5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:12 +0000
Subject: [PATCH 035/211] fix: report an IPP string value that cannot be
 decoded as a parse error

---
 dtformats/cups_ipp.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 3af6999..f3a9c07 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -165,13 +165,15 @@ class CupsIppFile(data_format.BinaryDataFile):
             pass
 
         elif attribute.tag_value in self._STRING_WITHOUT_LANGUAGE_VALUES:
-            value = attribute.value_data.decode(self._last_charset_attribute)
+            value = self._ReadStringValue(
+                attribute.value_data, self._last_charset_attribute
+            )
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
 
         elif attribute.tag_value in self._ASCII_STRING_VALUES:
-            value = attribute.value_data.decode("ascii")
+            value = self._ReadStringValue(attribute.value_data, "ascii")
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
@@ -304,6 +306,26 @@ class CupsIppFile(data_format.BinaryDataFile):
                 f"Unable to parse integer value with error: {exception!s}"
             )
 
+    def _ReadStringValue(self, byte_stream, encoding):
+        """Reads a string value.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          encoding (str): encoding of the string.
+
+        Returns:
+          str: string value.
+
+        Raises:
+          ParseError: when the string value cannot be read.
+        """
+        try:
+            return byte_stream.decode(encoding)
+        except (LookupError, ValueError) as exception:
+            raise errors.ParseError(
+                f"Unable to parse string value with error: {exception!s}"
+            )
+
     def _ReadHeader(self, file_object):
         """Reads the header.
 
-- 
2.43.0


From 7652c0c2ea4027fbacc868b62fe7571157e6de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:12 +0000
Subject: [PATCH 036/211] fix: report an invalid IPP date-time value as a parse
 error

---
 dtformats/cups_ipp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index f3a9c07..287cf53 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -277,9 +277,14 @@ class CupsIppFile(data_format.BinaryDataFile):
             value.hours_from_utc,
             value.minutes_from_utc,
         )
-        return dfdatetime_rfc2579_date_time.RFC2579DateTime(
-            rfc2579_date_time_tuple=rfc2579_date_time_tuple
-        )
+        try:
+            return dfdatetime_rfc2579_date_time.RFC2579DateTime(
+                rfc2579_date_time_tuple=rfc2579_date_time_tuple
+            )
+        except ValueError as exception:
+            raise errors.ParseError(
+                f"Unable to parse date-time value with error: {exception!s}"
+            )
 
     def _ReadIntegerValue(self, byte_stream, file_offset):
         """Reads an integer value.
-- 
2.43.0


From ccd2e975da095172616a9e05a42ea3961fc97f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:12 +0000
Subject: [PATCH 037/211] fix: do not use the character set of a previously
 read IPP file

---
 dtformats/cups_ipp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 287cf53..5d9d691 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -360,6 +360,8 @@ class CupsIppFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._last_charset_attribute = "ascii"
+
         self._ReadHeader(file_object)
         self._ReadAttributesGroup(file_object)
 
-- 
2.43.0


From cd1bc90e397d1e9aee19ca3abe1a9d6b228369f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:28 +0000
Subject: [PATCH 038/211] fix: format the minor product version of a job file

---
 dtformats/job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index c78b96d..6af46a7 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -121,7 +121,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
           str: integer formatted as a product version.
         """
         major_version = (integer >> 8) & 0xFF
-        minor_version = (integer >> 8) & 0xFF
+        minor_version = integer & 0xFF
         return f"0x{integer:04x} ({major_version:d}.{minor_version:d})"
 
     def _FormatString(self, string):
-- 
2.43.0


From 8d15fb53a51d01049cc5de2ad2b8810c3c7b8f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:28 +0000
Subject: [PATCH 039/211] fix: print the number of triggers of a job file

---
 dtformats/job.debug.yaml |  4 ++--
 dtformats/job.py         | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/dtformats/job.debug.yaml b/dtformats/job.debug.yaml
index 3b50efe..4a1d9f2 100644
--- a/dtformats/job.debug.yaml
+++ b/dtformats/job.debug.yaml
@@ -74,9 +74,9 @@ attributes:
 - name: reserved_data
   description: "Reserved data"
   format: custom:data_stream
-- name: number_of_triggers
+- name: triggers
   description: "Number of triggers"
-  format: decimal
+  format: custom:number_of_triggers
 ---
 data_type_map: job_trigger
 attributes:
diff --git a/dtformats/job.py b/dtformats/job.py
index 6af46a7..6910a44 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -46,6 +46,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
             "date": "_FormatDate",
             "interval_in_milliseconds": "_FormatIntegerAsIntervalInMilliseconds",
             "interval_in_minutes": "_FormatIntegerAsIntervalInMinutes",
+            "number_of_triggers": "_FormatNumberOfTriggers",
             "product_version": "_FormatIntegerAsProductVersion",
             "system_time": "_FormatSystemTime",
             "time": "_FormatTime",
@@ -124,6 +125,17 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         minor_version = integer & 0xFF
         return f"0x{integer:04x} ({major_version:d}.{minor_version:d})"
 
+    def _FormatNumberOfTriggers(self, triggers):
+        """Formats the number of triggers.
+
+        Args:
+          triggers (job_triggers): triggers.
+
+        Returns:
+          str: formatted number of triggers.
+        """
+        return f"{triggers.number_of_triggers:d}"
+
     def _FormatString(self, string):
         """Formats a string structure.
 
-- 
2.43.0


From dcc28bab1b5a32e9e5e71a12334974163687ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:28 +0000
Subject: [PATCH 040/211] fix: print the category name of a custom destinations
 file

---
 dtformats/jump_list.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/jump_list.debug.yaml b/dtformats/jump_list.debug.yaml
index 702d549..c664bce 100644
--- a/dtformats/jump_list.debug.yaml
+++ b/dtformats/jump_list.debug.yaml
@@ -14,7 +14,7 @@ attributes:
 - name: number_of_characters
   description: "Number of characters"
   format: decimal
-- name: cateogy_name
+- name: category_name
   description: "Category name"
   format: string
 - name: category_identifier
-- 
2.43.0


From 28902a2bbb34787c6cdd6fa1d53945ae2e4564d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:09 +0000
Subject: [PATCH 041/211] fix: read a structure of which the size hint exceeds
 its size

---
 dtformats/data_format.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 1874820..28ab489 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -617,7 +617,9 @@ class BinaryDataFormat:
 
         return data_type_map
 
-    def _ReadData(self, file_object, file_offset, data_size, description):
+    def _ReadData(
+        self, file_object, file_offset, data_size, description, allow_partial=False
+    ):
         """Reads data.
 
         Args:
@@ -626,6 +628,8 @@ class BinaryDataFormat:
               the file-like object.
           data_size (int): size of the data.
           description (str): description of the data.
+          allow_partial (Optional[bool]): True if less data can be returned when
+              the end of the file-like object is reached.
 
         Returns:
           bytes: byte stream containing the data.
@@ -645,7 +649,9 @@ class BinaryDataFormat:
             data = file_object.read(data_size)
             read_count = len(data)
 
-            if read_count != data_size:
+            if read_count != data_size and (
+                not allow_partial or read_count > data_size
+            ):
                 read_error = (
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
@@ -739,7 +745,7 @@ class BinaryDataFormat:
             read_offset = file_offset + last_data_size
             read_size = data_size - last_data_size
             data_segment = self._ReadData(
-                file_object, read_offset, read_size, description
+                file_object, read_offset, read_size, description, allow_partial=True
             )
             data = b"".join([data, data_segment])
 
@@ -748,6 +754,13 @@ class BinaryDataFormat:
                 structure_values_object = data_type_map.MapByteStream(
                     data, context=context
                 )
+                # The size hint can exceed the size of the structure.
+                data_size = len(data)
+                if context.byte_size is not None and context.byte_size < data_size:
+                    data_size = context.byte_size
+                    data = data[:data_size]
+                    self._ReadData(file_object, file_offset + data_size, 0, description)
+
                 if self._debug:
                     first_letter = description[0].upper()
                     self._DebugPrintData(
@@ -757,7 +770,12 @@ class BinaryDataFormat:
                 return structure_values_object, data_size
 
             except dtfabric_errors.ByteStreamTooSmallError:
-                pass
+                if len(data) != data_size:
+                    raise errors.ParseError(
+                        f"Unable to read {description:s} data at offset: "
+                        f"{file_offset:d} (0x{file_offset:08x}) with error: missing "
+                        f"data (read: {len(data):d}, requested: {data_size:d})"
+                    )
 
             except dtfabric_errors.MappingError as exception:
                 raise errors.ParseError(
-- 
2.43.0


From 4c639509747c7885060532af58466d0036fb8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 042/211] fix: do not close a LNK file of a jump list entry
 that could not be opened

---
 dtformats/jump_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 575ba62..0411753 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -44,8 +44,10 @@ class JumpListEntry:
           file_object (file): file-like object that contains the LNK file
               entry data.
         """
-        self.lnk_file = pylnk.file()
-        self.lnk_file.open_file_object(file_object)
+        lnk_file = pylnk.file()
+        lnk_file.open_file_object(file_object)
+
+        self.lnk_file = lnk_file
 
 
 class AutomaticDestinationsFile(data_format.BinaryDataFile):
-- 
2.43.0


From e28eb06ee4b01f277918d85c73b461b03a4f1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 043/211] fix: stop reading entries at the footer of a custom
 destinations category

---
 dtformats/jump_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 0411753..cf4968b 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -514,6 +514,9 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
 
                 file_object.seek(file_offset, os.SEEK_SET)
 
+                if entry_header.guid != self._LNK_GUID:
+                    break
+
             self._ReadCategoryFooter(file_object)
 
             file_offset += 4
-- 
2.43.0


From a4a1affed3add419850bc683458c472ea3d4f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 044/211] fix: do not keep the entries of a previously read
 custom destinations file

---
 dtformats/jump_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index cf4968b..386a543 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -460,6 +460,8 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._entries = []
+
         file_header, file_offset = self._ReadFileHeader(file_object)
 
         data_type_map = self._GetDataTypeMap("custom_entry_header")
-- 
2.43.0


From d749af451cdd1da2b22572f21a3e6c6bc19f81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:44 +0000
Subject: [PATCH 045/211] fix: identify the entries of a custom destinations
 file by their offset

---
 dtformats/jump_list.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 386a543..f2a6e60 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -409,11 +409,13 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
 
         return file_header, bytes_read
 
-    def _ReadJumpListEntry(self, file_object):
+    def _ReadJumpListEntry(self, file_object, file_offset):
         """Reads a jump list entry.
 
         Args:
-          file_object (file): file-like object.
+          file_object (file): file-like object of the LNK data.
+          file_offset (int): offset of the LNK data relative to the start of
+              the file.
 
         Returns:
           JumpListEntry: a jump list entry.
@@ -421,7 +423,6 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the jump list entry cannot be read.
         """
-        file_offset = file_object.tell()
         if self._debug:
             self._DebugPrintText(f"Reading LNK file at offset: 0x{file_offset:08x}\n")
 
@@ -497,7 +498,9 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
                         data_offset=file_offset,
                         data_size=remaining_file_size,
                     )
-                    jump_list_entry = self._ReadJumpListEntry(data_range_file_object)
+                    jump_list_entry = self._ReadJumpListEntry(
+                        data_range_file_object, file_offset
+                    )
 
                     self._entries.append(jump_list_entry)
 
-- 
2.43.0


From 501e8aee41e96f8e3005fc1efb64a84c0294ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:12 +0000
Subject: [PATCH 046/211] fix: debug mode without an output writer also works
 for structures

---
 dtformats/data_format.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 28ab489..73cbfa1 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -134,8 +134,9 @@ class BinaryDataFormat:
           structure_object (object): structure object.
           debug_info (list[tuple[str, str, int]]): debug information.
         """
-        text = self._FormatStructureObject(structure_object, debug_info)
-        self._output_writer.WriteText(text)
+        if self._output_writer:
+            text = self._FormatStructureObject(structure_object, debug_info)
+            self._output_writer.WriteText(text)
 
     def _DebugPrintPosixTimeValue(self, description, value):
         """Prints a POSIX timestamp value for debugging.
-- 
2.43.0


From e85c4ac2ad7144ea9cb5ca18af3fb6904284cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:16 +0000
Subject: [PATCH 047/211] fix: format the fraction of second of a 64-bit HFS
 timestamp of alias data

---
 dtformats/alias_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/alias_data.py b/dtformats/alias_data.py
index 9393f62..aeed438 100644
--- a/dtformats/alias_data.py
+++ b/dtformats/alias_data.py
@@ -50,7 +50,9 @@ class MacOSLoginItemAliasData(data_format.BinaryDataFile):
         if not date_time_string:
             return f"0x{integer:08x}"
 
-        return f"{date_time_string:s}.{fraction_of_second:03d} UTC"
+        # The fraction of second is stored in intervals of 1/65536 of a second.
+        milliseconds = (fraction_of_second * 1000) // 65536
+        return f"{date_time_string:s}.{milliseconds:03d} UTC"
 
     def _ReadRecordHeader(self, file_object, file_offset):
         """Reads a record header.
-- 
2.43.0


From 79741ca2b0a852d9af3f44ff325780a5696af203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:53 +0000
Subject: [PATCH 048/211] fix: refuse a bookmark data record of an unsupported
 data type

---
 dtformats/bookmark_data.py | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/dtformats/bookmark_data.py b/dtformats/bookmark_data.py
index 464db90..7cb5f3a 100644
--- a/dtformats/bookmark_data.py
+++ b/dtformats/bookmark_data.py
@@ -50,6 +50,27 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
         )
         return f"{value:s}\n"
 
+    def _GetDataRecordValue(self, data_record, name):
+        """Retrieves the value of a data record.
+
+        Args:
+          data_record (bookmark_data_record): data record.
+          name (str): name of the value.
+
+        Returns:
+          object: value.
+
+        Raises:
+          ParseError: if the data type of the data record does not have the value.
+        """
+        value = getattr(data_record, name, None)
+        if value is None:
+            raise errors.ParseError(
+                f"Unsupported data record data type: 0x{data_record.data_type:08x}"
+            )
+
+        return value
+
     def _ReadDataRecord(self, file_object, file_offset):
         """Reads a data record.
 
@@ -120,7 +141,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            integers_array.append(data_record.integer)
+            integers_array.append(self._GetDataRecordValue(data_record, "integer"))
 
         return integers_array
 
@@ -143,7 +164,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            strings_array.append(data_record.string)
+            strings_array.append(self._GetDataRecordValue(data_record, "string"))
 
         return strings_array
 
@@ -236,7 +257,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1004:
                 strings_array = self._ReadStringsArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -247,7 +270,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1005:
                 integers_array = self._ReadIntegersArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -261,7 +286,10 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
             elif tagged_value.value_tag in (0x1010, 0x2020):
                 data_type_map = self._GetDataTypeMap("bookmark_data_property_flags")
                 property_flags = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Property flags"
+                    self._GetDataRecordValue(data_record, "data"),
+                    0,
+                    data_type_map,
+                    "Property flags",
                 )
 
                 if self._debug:
-- 
2.43.0


From 64e461485a7d0e99d9a2e2b1d8f384aabf1bbd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:50 +0000
Subject: [PATCH 049/211] fix: AMCache integer values are unsigned

---
 dtformats/amcache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index c7b3c00..3d49179 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -72,6 +72,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
 
             elif value.type in (4, 5, 11):
                 value_data = value.get_data_as_integer()
+                # Registry integer values are unsigned.
+                if value_data < 0:
+                    value_data += 1 << (64 if value.type == 11 else 32)
 
             elif value.type == 7:
                 value_data = list(value.get_data_as_multi_string())
-- 
2.43.0


From 83e0ac73ad33b4742772cc9db746e0c68a7b2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:50 +0000
Subject: [PATCH 050/211] fix: determine the MFT entry and sequence number of
 an AMCache file reference

---
 dtformats/amcache.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index 3d49179..40d3a3d 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -1,5 +1,7 @@
 """Windows AMCache (AMCache.hve) files."""
 
+import re
+
 import pyregf
 
 from dtformats import data_format
@@ -47,6 +49,12 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         "Files": "File reference key identifiers",
     }
 
+    # The sequence number and the MFT entry are separated by 0000, where neither
+    # of them is padded.
+    _NTFS_FILE_REFERENCE_RE = re.compile(
+        r"^(0|[1-9a-f][0-9a-f]{0,3})0000(0|[1-9a-f][0-9a-f]*)$", re.IGNORECASE
+    )
+
     _ROOT_KEY_NAMES = frozenset(
         [
             "{11517b7c-e79d-4e20-961b-75a811715add}",
@@ -149,10 +157,10 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
           file_reference_key (pyregf_key): file reference key.
         """
         if self._debug:
-            if "0000" in file_reference_key.name:
-                sequence_number, mft_entry = file_reference_key.name.split("0000")
-                mft_entry = int(mft_entry, 16)
-                sequence_number = int(sequence_number, 16)
+            match = self._NTFS_FILE_REFERENCE_RE.match(file_reference_key.name)
+            if match:
+                sequence_number = int(match.group(1), 16)
+                mft_entry = int(match.group(2), 16)
                 self._DebugPrintText(
                     (
                         f"File: {file_reference_key.name:s} "
-- 
2.43.0


From d74a81b90e4bf72cee0b971b843f7c755d7019dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:20 +0000
Subject: [PATCH 051/211] fix: print AMCache values of an unexpected data type

---
 dtformats/amcache.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index 40d3a3d..062ae7c 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -177,6 +177,10 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
+                if not isinstance(value_data, int):
+                    self._DebugPrintValue(description, value_data)
+                    continue
+
                 if value.name == "d":
                     major_version = value_data >> 16
                     minor_version = value_data & 0xFFFF
@@ -224,11 +228,11 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-                if value.name in ("7", "d", "Files"):
+                if value.name in ("7", "d", "Files") and isinstance(value_data, list):
                     for string_value in value_data:
                         self._DebugPrintValue(description, string_value)
                         description = ""
-                elif value.name in ("a", "b"):
+                elif value.name in ("a", "b") and isinstance(value_data, int):
                     self._DebugPrintPosixTimeValue(description, value_data)
                 else:
                     self._DebugPrintValue(description, value_data)
-- 
2.43.0


From 8e7df9ee9b354d1fd2327697e462e8a13c726d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:20 +0000
Subject: [PATCH 052/211] fix: read AMCache keys with a default value

---
 dtformats/amcache.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index 062ae7c..6af3058 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -18,6 +18,8 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
 
     _APPLICATION_FILE_KEY_DESCRIPTIONS = {}
 
+    _DEFAULT_VALUE_DESCRIPTION = "(default)"
+
     _FILE_REFERENCE_KEY_DESCRIPTIONS = {
         "0": "Product name",
         "1": "Company name",
@@ -93,7 +95,7 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         except (OSError, OverflowError) as exception:
             raise errors.ParseError(
                 (
-                    f"Unable to read data from value: {value.name:s} with error: "
+                    f"Unable to read data from value: {value.name!s} with error: "
                     f"{exception!s}"
                 )
             )
@@ -111,7 +113,7 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
 
         for value in application_file_key.values:
             description = self._APPLICATION_FILE_KEY_DESCRIPTIONS.get(
-                value.name, value.name
+                value.name, value.name or self._DEFAULT_VALUE_DESCRIPTION
             )
             value_data = self._GetValueDataAsObject(value)
 
@@ -131,7 +133,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Application: {application_key.name:s}\n")
 
         for value in application_key.values:
-            description = self._APPLICATION_KEY_DESCRIPTIONS.get(value.name, value.name)
+            description = self._APPLICATION_KEY_DESCRIPTIONS.get(
+                value.name, value.name or self._DEFAULT_VALUE_DESCRIPTION
+            )
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
@@ -172,7 +176,7 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
 
         for value in file_reference_key.values:
             description = self._FILE_REFERENCE_KEY_DESCRIPTIONS.get(
-                value.name, value.name
+                value.name, value.name or self._DEFAULT_VALUE_DESCRIPTION
             )
             value_data = self._GetValueDataAsObject(value)
 
@@ -224,7 +228,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Program: {program_key.name:s}\n")
 
         for value in program_key.values:
-            description = self._PROGRAM_KEY_DESCRIPTIONS.get(value.name, value.name)
+            description = self._PROGRAM_KEY_DESCRIPTIONS.get(
+                value.name, value.name or self._DEFAULT_VALUE_DESCRIPTION
+            )
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-- 
2.43.0


From 7cae0889660f854b5b569ff98a795a2329d1b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:26 +0000
Subject: [PATCH 053/211] fix: format the cache locations of Firefox cache
 version 1 files

---
 dtformats/firefox_cache1.debug.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index f87a8d1..d6d8a1e 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -10,7 +10,7 @@ attributes:
   format: decimal
 - name: location
   description: "Location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: fetch_count
   description: "Fetch count"
   format: decimal
@@ -73,7 +73,7 @@ attributes:
   format: decimal
 - name: data_location
   description: "Data location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: metadata_location
   description: "Metadata location"
-  format: custom:cache_lcation
+  format: custom:cache_location
-- 
2.43.0


From 9ee7977263e0135e555d65ef37df855565c3c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:06 +0000
Subject: [PATCH 054/211] fix: print the expiration time of a Firefox cache
 version 1 entry

---
 dtformats/firefox_cache1.debug.yaml | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index d6d8a1e..e824016 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -20,6 +20,9 @@ attributes:
 - name: last_modified_time
   description: "Last modified time"
   format: custom:posix_time
+- name: expiration_time
+  description: "Expiration time"
+  format: custom:posix_time
 - name: cached_data_size
   description: "Cached data size"
   format: decimal
-- 
2.43.0


From c497099e9017356c8aacf1ee85cf3232939f03ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:06 +0000
Subject: [PATCH 055/211] fix: continue with the next block if a Firefox cache
 block is not a cache entry

---
 dtformats/firefox_cache1.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/firefox_cache1.py b/dtformats/firefox_cache1.py
index 896ee05..c75172a 100644
--- a/dtformats/firefox_cache1.py
+++ b/dtformats/firefox_cache1.py
@@ -184,7 +184,12 @@ class CacheBlockFile(data_format.BinaryDataFile):
             file_object.seek(file_offset + self._block_size, os.SEEK_SET)
             return
 
-        if self._debug and cache_entry.major_format_version == 1:
+        if cache_entry.major_format_version != 1:
+            # The block contains the bitmap or data instead of a cache entry.
+            file_object.seek(file_offset + self._block_size, os.SEEK_SET)
+            return
+
+        if self._debug:
             debug_info = self._DEBUG_INFORMATION.get("firefox_cache1_entry")
             self._DebugPrintStructureObject(cache_entry, debug_info)
 
-- 
2.43.0


From b9ef2a2bee5fbfced5cd663d997ebe00c856edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:00 +0000
Subject: [PATCH 056/211] fix: continue with the next block after the last USN
 record of a block

---
 dtformats/usn_journal.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dtformats/usn_journal.py b/dtformats/usn_journal.py
index bbd2345..3e2002b 100644
--- a/dtformats/usn_journal.py
+++ b/dtformats/usn_journal.py
@@ -64,22 +64,21 @@ class USNRecords(data_format.BinaryDataFile):
         Raises:
           ParseError: if a record cannot be read.
         """
-        self._file_object.seek(0, os.SEEK_SET)
-
         file_offset = 0
         while file_offset < self._file_size:
-            block_size = min(4096, self._file_size)
+            block_offset = file_offset - (file_offset % 4096)
+            block_end_offset = min(block_offset + 4096, self._file_size)
 
-            while block_size > 60:
+            while file_offset + 60 <= block_end_offset:
+                self._file_object.seek(file_offset, os.SEEK_SET)
                 usn_record_header = self._file_object.read(60)
                 if usn_record_header == self._EMPTY_USN_RECORD_HEADER:
                     break
 
-                self._file_object.seek(-60, os.SEEK_CUR)
+                self._file_object.seek(file_offset, os.SEEK_SET)
                 usn_record, data_size = self._ReadRecordV2(self._file_object)
                 yield usn_record
 
                 file_offset += data_size
-                block_size -= data_size
 
-            file_offset += block_size
+            file_offset = max(file_offset, block_end_offset)
-- 
2.43.0


From 8eb35a30b4028723b986b4e474b9cd8c7aa714bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:00 +0000
Subject: [PATCH 057/211] fix: print the update sequence number of a USN record

---
 dtformats/usn_journal.debug.yaml | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/usn_journal.debug.yaml b/dtformats/usn_journal.debug.yaml
index d80defe..d9fbb9a 100644
--- a/dtformats/usn_journal.debug.yaml
+++ b/dtformats/usn_journal.debug.yaml
@@ -17,6 +17,9 @@ attributes:
 - name: parent_file_reference
   description: "Parent file reference"
   format: hexadecimal_8digits
+- name: sequence_number
+  description: "Update sequence number (USN)"
+  format: decimal
 - name: timestamp
   description: "Timestamp"
   format: custom:filetime
-- 
2.43.0


From f7e8d82eeb96c4476669b7a751dde659f2f955fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:00 +0000
Subject: [PATCH 058/211] fix: refuse invalid DetectionHistory threat tracking
 data also without debug output

---
 dtformats/detection_history.py | 45 ++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/dtformats/detection_history.py b/dtformats/detection_history.py
index 6c0026e..71086c1 100644
--- a/dtformats/detection_history.py
+++ b/dtformats/detection_history.py
@@ -3,6 +3,7 @@
 from dtfabric.runtime import data_maps as dtfabric_data_maps
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
@@ -244,30 +245,32 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
 
             file_offset = file_object.tell()
 
-        if self._debug:
-            value_index_set = 0
-            value_index = 0
-            for file_offset, value_object in value_tuples:
-                if value_object == "Magic.Version:1.2":
-                    if value_index_set < 2:
-                        value_index_set += 1
-                    value_index = 0
+        value_index_set = 0
+        value_index = 0
+        for file_offset, value_object in value_tuples:
+            if value_object == "Magic.Version:1.2":
+                if value_index_set < 2:
+                    value_index_set += 1
+                value_index = 0
 
-                if (value_index_set, value_index) == (2, 5):
-                    self._ReadThreatTrackingData(value_object, file_offset + 8)
+            if (value_index_set, value_index) == (2, 5):
+                if not isinstance(value_object, bytes):
+                    raise errors.ParseError("Unsupported threat tracking data type.")
 
-                else:
-                    description = self._VALUE_DESCRIPTIONS[value_index_set].get(
-                        value_index, f"UNKNOWN_{value_index_set:d}_{value_index:d}"
-                    )
+                self._ReadThreatTrackingData(value_object, file_offset + 8)
 
-                    if (value_index_set, value_index) == (1, 4):
-                        category_name = self._CATEGORY_NAME.get(value_object, "UNKNOWN")
-                        value_string = f"{value_object!s} ({category_name:s})"
+            elif self._debug:
+                description = self._VALUE_DESCRIPTIONS[value_index_set].get(
+                    value_index, f"UNKNOWN_{value_index_set:d}_{value_index:d}"
+                )
 
-                    else:
-                        value_string = f"{value_object!s}"
+                if (value_index_set, value_index) == (1, 4):
+                    category_name = self._CATEGORY_NAME.get(value_object, "UNKNOWN")
+                    value_string = f"{value_object!s} ({category_name:s})"
+
+                else:
+                    value_string = f"{value_object!s}"
 
-                    self._DebugPrintValue(description, value_string)
+                self._DebugPrintValue(description, value_string)
 
-                value_index += 1
+            value_index += 1
-- 
2.43.0


From 1422e43c24b72340a33c53e99b8e0a605533bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 059/211] fix: print the data size of a systemd journal object

---
 dtformats/systemd.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/systemd.debug.yaml b/dtformats/systemd.debug.yaml
index 6e09977..9a3c187 100644
--- a/dtformats/systemd.debug.yaml
+++ b/dtformats/systemd.debug.yaml
@@ -137,6 +137,6 @@ attributes:
 - name: reserved1
   description: "Reserved"
   format: binary_data
-- name: data_sizes
+- name: data_size
   description: "Data size"
   format: decimal
-- 
2.43.0


From 5367934e60e50a521374d354178d0fc3d1422f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 060/211] fix: print offsets and hashes of systemd journal
 entry items as hexadecimal

---
 dtformats/systemd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 040f9d1..59b9b27 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -84,13 +84,15 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_item in enumerate(entry_items):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(
+                entry_item.object_offset
+            )
             line = self._FormatValue(
                 f"    Entry item: {index:d} object offset", value_string
             )
             lines.append(line)
 
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.hash)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.hash)
             line = self._FormatValue(f"    Entry item: {index:d} hash", value_string)
             lines.append(line)
 
@@ -107,7 +109,7 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_object_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_object_offset)
             line = self._FormatValue(
                 f"    Entry object offset: {index:d}", value_string
             )
-- 
2.43.0


From d59e8611571ca633cf1bc873380f66d697595a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 061/211] fix: do not keep the format version of a previously
 read systemd journal

---
 dtformats/systemd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 59b9b27..e4c2e8f 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -309,6 +309,7 @@ class SystemdJournalFile(data_format.BinaryDataFile):
                 f"Unsupported file header size: {file_header.header_size:d}."
             )
 
+        self._format_version = None
         if file_header.header_size == 224:
             self._format_version = 187
         elif file_header.header_size == 240:
-- 
2.43.0


From 4a6daaf72fe7f2323aca4cd8afc9fb98295ea142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 062/211] fix: refuse a systemd journal of which the entry
 array chain is a loop

---
 dtformats/systemd.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index e4c2e8f..aa3c2e4 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -361,9 +361,20 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         )
 
         entry_object_offsets = list(entry_array_object.entry_object_offsets)
+        entry_array_offsets = {file_header.entry_array_offset}
+
         while entry_array_object.next_entry_array_offset != 0:
+            entry_array_offset = entry_array_object.next_entry_array_offset
+            if entry_array_offset in entry_array_offsets:
+                raise errors.ParseError(
+                    f"Entry array object at offset: 0x{entry_array_offset:08x} "
+                    f"already read."
+                )
+
+            entry_array_offsets.add(entry_array_offset)
+
             entry_array_object = self._ReadEntryArrayObject(
-                file_object, entry_array_object.next_entry_array_offset
+                file_object, entry_array_offset
             )
             entry_object_offsets.extend(entry_array_object.entry_object_offsets)
 
-- 
2.43.0


From bea4f09a9a759d2b9641fd0414399445a496b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 063/211] fix: read a systemd journal without entries

---
 dtformats/systemd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index aa3c2e4..d12a91d 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -356,6 +356,10 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         file_header = self._ReadFileHeader(file_object)
 
+        if file_header.entry_array_offset == 0:
+            # The journal contains no entries.
+            return
+
         entry_array_object = self._ReadEntryArrayObject(
             file_object, file_header.entry_array_offset
         )
-- 
2.43.0


From 99e28a22e42970b294df6047bf6216a1045edb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 064/211] fix: determine the size of EMF and WMF record data
 without its file offset

---
 dtformats/wemf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 726ff64..e7a4217 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -151,14 +151,15 @@ class EMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("emf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
-        data_size = record_header.record_size - (data_offset - file_offset)
+        data_offset = file_offset + header_size
+        data_size = record_header.record_size - header_size
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
@@ -704,7 +705,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("wmf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
@@ -713,7 +714,8 @@ class WMFFile(data_format.BinaryDataFile):
 
         record_size = record_header.record_size * 2
 
-        data_size = record_size - (data_offset - file_offset)
+        data_offset = file_offset + header_size
+        data_size = record_size - header_size
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
-- 
2.43.0


From d3b3c04a5fdcbfe8c5087108ae96dd833c06a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 065/211] fix: refuse EMF and WMF records of an invalid size

---
 dtformats/wemf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index e7a4217..2ef9443 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -161,6 +161,12 @@ class EMFFile(data_format.BinaryDataFile):
         data_offset = file_offset + header_size
         data_size = record_header.record_size - header_size
 
+        if data_size < 0 or data_offset + data_size > self._file_size:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d} at offset: "
+                f"{file_offset:d} (0x{file_offset:08x})"
+            )
+
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
 
@@ -717,6 +723,12 @@ class WMFFile(data_format.BinaryDataFile):
         data_offset = file_offset + header_size
         data_size = record_size - header_size
 
+        if data_size < 0 or data_offset + data_size > self._file_size:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d} at offset: "
+                f"{file_offset:d} (0x{file_offset:08x})"
+            )
+
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
 
-- 
2.43.0


From 6f574a4f7c77c59df0fe84458d6d1b5e7d1e3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 066/211] fix: refuse invalid EMF and WMF record data also
 without debug output

---
 dtformats/wemf.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 2ef9443..52d455b 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -2,8 +2,6 @@
 
 import os
 
-from dtfabric import errors as dtfabric_errors
-
 from dtformats import data_format
 from dtformats import errors
 
@@ -167,8 +165,7 @@ class EMFFile(data_format.BinaryDataFile):
                 f"{file_offset:d} (0x{file_offset:08x})"
             )
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        self._ReadRecordData(file_object, record_header.record_type, data_size)
 
         return Record(
             record_header.record_type, record_header.record_size, data_offset, data_size
@@ -185,7 +182,11 @@ class EMFFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the record data cannot be read.
         """
-        record_data = file_object.read(data_size)
+        file_offset = file_object.tell()
+
+        record_data = self._ReadData(
+            file_object, file_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -195,12 +196,9 @@ class EMFFile(data_format.BinaryDataFile):
         if not data_type_map:
             return
 
-        try:
-            record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
-            raise errors.ParseError(
-                f"Unable to parse record data with error: {exception!s}"
-            )
+        record = self._ReadStructureFromByteStream(
+            record_data, file_offset, data_type_map, "record data"
+        )
 
         if self._debug:
             if record_type == 0x0018:
@@ -729,8 +727,7 @@ class WMFFile(data_format.BinaryDataFile):
                 f"{file_offset:d} (0x{file_offset:08x})"
             )
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        self._ReadRecordData(file_object, record_header.record_type, data_size)
 
         return Record(record_header.record_type, record_size, data_offset, data_size)
 
@@ -745,7 +742,11 @@ class WMFFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the record cannot be read.
         """
-        record_data = file_object.read(data_size)
+        file_offset = file_object.tell()
+
+        record_data = self._ReadData(
+            file_object, file_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -755,12 +756,9 @@ class WMFFile(data_format.BinaryDataFile):
         if not data_type_map:
             return
 
-        try:
-            record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
-            raise errors.ParseError(
-                f"Unable to parse record data with error: {exception!s}"
-            )
+        record = self._ReadStructureFromByteStream(
+            record_data, file_offset, data_type_map, "record data"
+        )
 
         if self._debug:
             if record_type == 0x0103:
-- 
2.43.0


From f44a3a7d6bdb3aa1de365844c8c5bb6d0be0a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 067/211] fix: print the name of a WMF stretch mode

---
 dtformats/wemf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 52d455b..2cc3c8c 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -769,7 +769,7 @@ class WMFFile(data_format.BinaryDataFile):
 
             elif record_type == 0x0107:
                 stretch_mode_string = (
-                    self._MAP_MODE.GetName(record.stretch_mode) or "UNKNOWN"
+                    self._STRETCH_MODE.GetName(record.stretch_mode) or "UNKNOWN"
                 )
                 self._DebugPrintValue(
                     "Stretch mode",
-- 
2.43.0


From 53d8ce6438e2e194789a0f9ea6bed616b293891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 068/211] fix: read EMF records from the end of the header
 record

---
 dtformats/wemf.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 2cc3c8c..7866125 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -115,6 +115,9 @@ class EMFFile(data_format.BinaryDataFile):
         Args:
           file_object (file): file-like object.
 
+        Returns:
+          emf_file_header: file header.
+
         Raises:
           ParseError: if the file header cannot be read.
         """
@@ -130,9 +133,16 @@ class EMFFile(data_format.BinaryDataFile):
             self._DebugPrintFileHeader(file_header)
 
         # TODO: check record type
-        # TODO: check record size
         # TODO: check signature
 
+        # Note that the header record can be smaller or larger than the structure.
+        if file_header.record_size < 88 or file_header.record_size > self._file_size:
+            raise errors.ParseError(
+                f"Unsupported header record size: {file_header.record_size:d}"
+            )
+
+        return file_header
+
     def _ReadRecord(self, file_object, file_offset):
         """Reads a record.
 
@@ -226,9 +236,9 @@ class EMFFile(data_format.BinaryDataFile):
         Args:
           file_object (file): file-like object.
         """
-        self._ReadFileHeader(file_object)
+        file_header = self._ReadFileHeader(file_object)
 
-        file_offset = file_object.tell()
+        file_offset = file_header.record_size
         while file_offset < self._file_size:
             record = self._ReadRecord(file_object, file_offset)
 
-- 
2.43.0


From 4d45e43da3900e97a2135438c1314de8c4ebed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 069/211] fix: WMF coordinates are signed and stored Y before X

---
 dtformats/wmf.yaml | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/dtformats/wmf.yaml b/dtformats/wmf.yaml
index 9bbdcd2..bb9bc77 100644
--- a/dtformats/wmf.yaml
+++ b/dtformats/wmf.yaml
@@ -7,6 +7,13 @@ attributes:
   size: 1
   units: bytes
 ---
+name: int16
+type: integer
+attributes:
+  format: signed
+  size: 2
+  units: bytes
+---
 name: uint16
 type: integer
 attributes:
@@ -828,20 +835,20 @@ type: structure
 attributes:
   byte_order: little-endian
 members:
-- name: x_coordinate
-  data_type: uint16
 - name: y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: x_coordinate
+  data_type: int16
 ---
 name: wmf_setwindoworg
 type: structure
 attributes:
   byte_order: little-endian
 members:
-- name: x_coordinate
-  data_type: uint16
 - name: y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: x_coordinate
+  data_type: int16
 ---
 name: wmf_dibstretchblt
 type: structure
@@ -851,19 +858,19 @@ members:
 - name: raster_operation
   data_type: uint32
 - name: source_height
-  data_type: uint16
+  data_type: int16
 - name: source_width
-  data_type: uint16
-- name: source_x_coordinate
-  data_type: uint16
+  data_type: int16
 - name: source_y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: source_x_coordinate
+  data_type: int16
 - name: destination_height
-  data_type: uint16
+  data_type: int16
 - name: destination_width
-  data_type: uint16
-- name: destination_x_coordinate
-  data_type: uint16
+  data_type: int16
 - name: destination_y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: destination_x_coordinate
+  data_type: int16
 # TODO: add device_indepent_bitmap stream.
-- 
2.43.0


From a60ebaef120483aaad4da9b42e8f9d062b16b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 070/211] fix: names of the WMF raster operations

---
 dtformats/wemf.py | 76 +++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 7866125..357d691 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -342,44 +342,44 @@ class WMFFile(data_format.BinaryDataFile):
     # Reverse Polish wmf_raster_operation_code
     _WMF_RASTER_OPERATIONS = {
         0x00000042: "BLACKNESS",
-        0x00010289: "DPSOO",
-        0x00020C89: "DPSON",
-        0x000300AA: "PSO",
-        0x00040C88: "SDPON",
-        0x000500A9: "DPO",
-        0x00060865: "PDSXNO",
-        0x000702C5: "PDSAO",
-        0x00080F08: "SDPNA",
-        0x00090245: "PDSXO",
-        0x000A0329: "DPN",
-        0x000B0B2A: "PSDNAO",
-        0x000C0324: "SPN",
-        0x000D0B25: "PDSNAO",
-        0x000E08A5: "PDSONO",
-        0x000F0001: "P",
-        0x00100C85: "PDSON",
-        0x001100A6: "NOTSRCERAS",
-        0x00120868: "SDPXNO",
-        0x001302C8: "SDPAO",
-        0x00140869: "DPSXNO",
-        0x001502C9: "DPSAO",
-        0x00165CCA: "PSDPSANAX",
-        0x00171D54: "SSPXDSXAX",
-        0x00180D59: "SPXPDX",
-        0x00191CC8: "SDPSANAX",
-        0x001A06C5: "PDSPAO",
-        0x001B0768: "SDPSXAX",
-        0x001C06CA: "PSDPAO",
-        0x001D0766: "DSPDXAX",
-        0x001E01A5: "PDSO",
-        0x001F0385: "PDSOA",
-        0x00200F09: "DPSNA",
-        0x00210248: "SDPXO",
-        0x00220326: "DSN",
-        0x00230B24: "SPDNAO",
-        0x00240D55: "SPXDSX",
-        0x00251CC5: "PDSPANAX",
-        0x002606C8: "SDPSAO",
+        0x00010289: "DPSOON",
+        0x00020C89: "DPSONA",
+        0x000300AA: "PSON",
+        0x00040C88: "SDPONA",
+        0x000500A9: "DPON",
+        0x00060865: "PDSXNON",
+        0x000702C5: "PDSAON",
+        0x00080F08: "SDPNAA",
+        0x00090245: "PDSXON",
+        0x000A0329: "DPNA",
+        0x000B0B2A: "PSDNAON",
+        0x000C0324: "SPNA",
+        0x000D0B25: "PDSNAON",
+        0x000E08A5: "PDSONON",
+        0x000F0001: "PN",
+        0x00100C85: "PDSONA",
+        0x001100A6: "NOTSRCERASE",
+        0x00120868: "SDPXNON",
+        0x001302C8: "SDPAON",
+        0x00140869: "DPSXNON",
+        0x001502C9: "DPSAON",
+        0x00165CCA: "PSDPSANAXX",
+        0x00171D54: "SSPXDSXAXN",
+        0x00180D59: "SPXPDXA",
+        0x00191CC8: "SDPSANAXN",
+        0x001A06C5: "PDSPAOX",
+        0x001B0768: "SDPSXAXN",
+        0x001C06CA: "PSDPAOX",
+        0x001D0766: "DSPDXAXN",
+        0x001E01A5: "PDSOX",
+        0x001F0385: "PDSOAN",
+        0x00200F09: "DPSNAA",
+        0x00210248: "SDPXON",
+        0x00220326: "DSNA",
+        0x00230B24: "SPDNAON",
+        0x00240D55: "SPXDSXA",
+        0x00251CC5: "PDSPANAXN",
+        0x002606C8: "SDPSAOX",
         0x00271868: "SDPSXNOX",
         0x00280369: "DPSXA",
         0x002916CA: "PSDPSAOXXN",
-- 
2.43.0


From e77e3fa8d3eaf400b3887432494d77232ce57eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 071/211] fix: name of the debug information of a Chrome cache
 entry

---
 dtformats/chrome_cache.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/chrome_cache.debug.yaml b/dtformats/chrome_cache.debug.yaml
index a19a4b6..00668b1 100644
--- a/dtformats/chrome_cache.debug.yaml
+++ b/dtformats/chrome_cache.debug.yaml
@@ -39,7 +39,7 @@ attributes:
   description: "User"
   format: custom:array_of_decimals
 ---
-data_type_map: chrome_cache_data_block_file_header
+data_type_map: chrome_cache_entry
 attributes:
 - name: hash
   description: "Hash"
-- 
2.43.0


From f53f0770286930a5967870df4b698003b4ead16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 072/211] fix: determine the paths of the Chrome cache files

---
 dtformats/chrome_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 6020080..34f163b 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -665,7 +665,7 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath(path, "index")
+        index_file_path = self._file_system_helper.JoinPath([path, "index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
@@ -677,7 +677,7 @@ class ChromeCacheParser:
         for cache_address in index_file.index_table.values():
             if cache_address.filename not in data_block_files:
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    path, cache_address.filename
+                    [path, cache_address.filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
-- 
2.43.0


From 575681d45c17412e4494badf7a43a222804b0243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:48 +0000
Subject: [PATCH 073/211] fix: the key of a Chrome cache entry is already
 decoded

---
 dtformats/chrome_cache.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 34f163b..d68a52c 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -716,20 +716,7 @@ class ChromeCacheParser:
                     # print(f'Cache address\t: {cache_address_string:s}')
                     cache_entry = data_file.ReadCacheEntry(cache_address.block_offset)
 
-                    try:
-                        cache_entry_key = cache_entry.key.decode("ascii")
-                    except UnicodeDecodeError:
-                        logging.warning(
-                            f"Unable to decode cache entry key at cache address: "
-                            f"0x{cache_address.value:08x}. Characters that cannot be "
-                            f'decoded will be replaced with "?" or "\\ufffd".'
-                        )
-                        cache_entry_key = cache_entry.key.decode(
-                            "ascii", errors="replace"
-                        )
-
-                    # TODO: print(f'Url\t\t: {cache_entry_key:s}')
-                    _ = cache_entry_key
+                    # TODO: print(f'Url\t\t: {cache_entry.key:s}')
 
                     date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
                         microseconds=cache_entry.creation_time
-- 
2.43.0


From 580794262e63ed47689f24184a74dd035ebe36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:48 +0000
Subject: [PATCH 074/211] fix: format Chrome cache timestamps after the year
 9999

---
 dtformats/chrome_cache.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index d68a52c..a23505a 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -342,9 +342,13 @@ class DataBlockFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -521,9 +525,13 @@ class IndexFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -718,9 +726,13 @@ class ChromeCacheParser:
 
                     # TODO: print(f'Url\t\t: {cache_entry.key:s}')
 
-                    date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-                        microseconds=cache_entry.creation_time
-                    )
+                    try:
+                        date_string = datetime.datetime(
+                            1601, 1, 1
+                        ) + datetime.timedelta(microseconds=cache_entry.creation_time)
+                    except OverflowError:
+                        date_string = f"0x{cache_entry.creation_time:08x}"
+
                     # print(f"Creation time\t: {date_string!s}")
 
                     # print("")
-- 
2.43.0


From 84d9b9f28a9e23585f2e78b2711ad9d6bfe3bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:48 +0000
Subject: [PATCH 075/211] fix: print an allocated Chrome cache block range at
 the end of the bitmap

---
 dtformats/chrome_cache.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index a23505a..f11fe8e 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -265,6 +265,16 @@ class DataBlockFile(data_format.BinaryDataFile):
                 value_32bit >>= 1
                 block_number += 1
 
+        if in_block_range and self._debug:
+            block_range_size = block_range_end - block_range_start
+            self._DebugPrintValue(
+                "Block range",
+                (
+                    f"{block_range_start:d} - {block_range_end:d} "
+                    f"({block_range_size:d})"
+                ),
+            )
+
     def _DebugPrintCacheEntryDataStreamSizes(self, array_of_integers):
         """Prints cache entry data stream sizes debug information.
 
-- 
2.43.0


From 1b46382ae46272d41b17f31388daae906dda8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:48 +0000
Subject: [PATCH 076/211] fix: format Chrome cache addresses of an unknown file
 type

---
 dtformats/chrome_cache.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index f11fe8e..c5392f0 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -153,6 +153,12 @@ class CacheAddress:
         file_type_description = self._FILE_TYPE_DESCRIPTIONS.get(
             self.file_type, "Unknown"
         )
+        if self.file_type not in self._FILE_TYPE_DESCRIPTIONS:
+            return (
+                f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
+                f"file type: {file_type_description:s})"
+            )
+
         if self.file_type == 0:
             return (
                 f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
-- 
2.43.0


From ae603c2c6bfc196e6c02430bf96adab23ab6601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:48 +0000
Subject: [PATCH 077/211] fix: the last remaining byte of a SuperFastHash is
 signed

---
 dtformats/chrome_cache.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index c5392f0..2060907 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -30,6 +30,11 @@ def SuperFastHash(key):
     if isinstance(key[0], str):
         key = [ord(byte_value) for byte_value in key]
 
+    # Note that the last byte of an odd number of remaining bytes is signed.
+    last_byte = key[-1]
+    if last_byte > 0x7F:
+        last_byte -= 0x100
+
     for key_index in range(0, key_length, 4):
         hash_value = (
             hash_value + key[key_index] + (key[key_index + 1] << 8)
@@ -48,7 +53,7 @@ def SuperFastHash(key):
             hash_value + key[key_index] + (key[key_index + 1] << 8)
         ) & 0xFFFFFFFF
         hash_value ^= (hash_value << 16) & 0xFFFFFFFF
-        hash_value ^= (key[key_index + 2] << 18) & 0xFFFFFFFF
+        hash_value ^= (last_byte << 18) & 0xFFFFFFFF
         hash_value = (hash_value + (hash_value >> 11)) & 0xFFFFFFFF
 
     elif remainder == 2:
@@ -59,7 +64,7 @@ def SuperFastHash(key):
         hash_value = (hash_value + (hash_value >> 17)) & 0xFFFFFFFF
 
     elif remainder == 1:
-        hash_value = (hash_value + key[key_index]) & 0xFFFFFFFF
+        hash_value = (hash_value + last_byte) & 0xFFFFFFFF
         hash_value ^= (hash_value << 10) & 0xFFFFFFFF
         hash_value = (hash_value + (hash_value >> 1)) & 0xFFFFFFFF
 
-- 
2.43.0


From 518608da07e33b3f8068166d3159dad878014f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:48 +0000
Subject: [PATCH 078/211] fix: do not keep the index table of a previously read
 Chrome cache

---
 dtformats/chrome_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 2060907..9f5b52a 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -564,6 +564,8 @@ class IndexFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file header cannot be read.
         """
+        self.index_table = {}
+
         data_type_map = self._GetDataTypeMap("chrome_cache_index_file_header")
 
         file_header, _ = self._ReadStructureFromFileObject(
-- 
2.43.0


From 27190ce141f91dfc8a56c0e1d2eaa78d96fde81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:48 +0000
Subject: [PATCH 079/211] fix: read Chrome cache entry keys that are stored in
 multiple blocks

---
 dtformats/chrome_cache.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 9f5b52a..9e9630d 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -419,6 +419,13 @@ class DataBlockFile(data_format.BinaryDataFile):
             self._file_object, block_offset, data_type_map, "data block cache entry"
         )
         byte_string = bytes(cache_entry.key)
+        if cache_entry.key_size > len(byte_string) and not cache_entry.long_key_address:
+            # The key continues in the next blocks.
+            key_offset = block_offset + 96
+            byte_string = self._ReadData(
+                self._file_object, key_offset, cache_entry.key_size, "cache entry key"
+            )
+
         cache_entry_key, _, _ = byte_string.partition(b"\x00")
 
         try:
-- 
2.43.0


From 8c862014af7ad25097b9fc86e713a1ec8834dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:48 +0000
Subject: [PATCH 080/211] fix: refuse a Chrome cache file without a signature

---
 dtformats/chrome_cache.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 9e9630d..dd37c40 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -794,9 +794,12 @@ class ChromeCacheParser:
 
             try:
                 signature = self._UINT32LE.MapByteStream(signature_data)
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
-                    f"Unable to signature with error: {exception!s}"
+                    f"Unable to read signature with error: {exception!s}"
                 )
 
             if signature == DataBlockFile.SIGNATURE:
-- 
2.43.0


From 776ec744a1b10878088f96238971d0c0104b3205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:18 +0000
Subject: [PATCH 081/211] fix: open the Chrome cache files with the file system
 helper

---
 dtformats/chrome_cache.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index dd37c40..d337929 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -227,14 +227,19 @@ class DataBlockFile(data_format.BinaryDataFile):
 
     SIGNATURE = 0xC104CAC3
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a Chrome Cache data block file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self.block_size = None
         self.format_version = None
         self.number_of_entries = None
@@ -490,14 +495,19 @@ class IndexFile(data_format.BinaryDataFile):
 
     SIGNATURE = 0xC103CAC3
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a Chrome Cache index file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self.creation_time = None
         self.format_version = None
         self.index_table = {}
@@ -707,7 +717,11 @@ class ChromeCacheParser:
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
-        index_file = IndexFile(debug=self._debug, output_writer=self._output_writer)
+        index_file = IndexFile(
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
+        )
         index_file.Open(index_file_path)
 
         data_block_files = {}
@@ -725,7 +739,9 @@ class ChromeCacheParser:
 
                 else:
                     data_block_file = DataBlockFile(
-                        debug=self._debug, output_writer=self._output_writer
+                        debug=self._debug,
+                        file_system_helper=self._file_system_helper,
+                        output_writer=self._output_writer,
                     )
                     data_block_file.Open(data_block_file_path)
 
@@ -789,7 +805,7 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the file cannot be read.
         """
-        with open(path, "rb") as file_object:
+        with self._file_system_helper.OpenFileByPath(path) as file_object:
             signature_data = file_object.read(4)
 
             try:
-- 
2.43.0


From 20c19192f94298a62cd2dea1a1d97c57beae2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:18 +0000
Subject: [PATCH 082/211] fix: close the files of a Chrome cache that cannot be
 read

---
 dtformats/chrome_cache.py | 56 +++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index d337929..913baba 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -704,27 +704,17 @@ class ChromeCacheParser:
         self._file_system_helper = file_system_helper
         self._output_writer = output_writer
 
-    def ParseDirectory(self, path):
-        """Parses a Chrome Cache directory.
+    def _ReadCacheEntries(self, path, index_file, data_block_files):
+        """Reads the cache entries of a Chrome Cache directory.
 
         Args:
           path (str): path of the directory.
+          index_file (IndexFile): index file.
+          data_block_files (dict[str, DataBlockFile]): opened data block files.
 
         Raises:
-          ParseError: if the directory cannot be read.
+          ParseError: if the cache entries cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath([path, "index"])
-        if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
-            raise errors.ParseError(f"Missing index file: {index_file_path:s}")
-
-        index_file = IndexFile(
-            debug=self._debug,
-            file_system_helper=self._file_system_helper,
-            output_writer=self._output_writer,
-        )
-        index_file.Open(index_file_path)
-
-        data_block_files = {}
         have_all_data_block_files = True
         for cache_address in index_file.index_table.values():
             if cache_address.filename not in data_block_files:
@@ -788,14 +778,40 @@ class ChromeCacheParser:
                     cache_address = cache_entry.next
                     cache_address_chain_length += 1
 
-        for data_block_file in data_block_files.values():
-            data_block_file.Close()
-
-        index_file.Close()
-
         if not have_all_data_block_files:
             raise errors.ParseError("Missing data block files.")
 
+    def ParseDirectory(self, path):
+        """Parses a Chrome Cache directory.
+
+        Args:
+          path (str): path of the directory.
+
+        Raises:
+          ParseError: if the directory cannot be read.
+        """
+        index_file_path = self._file_system_helper.JoinPath([path, "index"])
+        if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
+            raise errors.ParseError(f"Missing index file: {index_file_path:s}")
+
+        index_file = IndexFile(
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
+        )
+        index_file.Open(index_file_path)
+
+        data_block_files = {}
+
+        try:
+            self._ReadCacheEntries(path, index_file, data_block_files)
+
+        finally:
+            for data_block_file in data_block_files.values():
+                data_block_file.Close()
+
+            index_file.Close()
+
     def ParseFile(self, path):
         """Parses a Chrome Cache file.
 
-- 
2.43.0


From c0e1ac4c5a7002e17be32db1ab578e8cfc46b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:41 +0000
Subject: [PATCH 083/211] fix: close a Chrome cache file opened with any file
 system helper

---
 dtformats/chrome_cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 913baba..86df31a 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -1,5 +1,6 @@
 """Chrome Cache files."""
 
+import contextlib
 import datetime
 import logging
 
@@ -821,7 +822,9 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the file cannot be read.
         """
-        with self._file_system_helper.OpenFileByPath(path) as file_object:
+        with contextlib.closing(
+            self._file_system_helper.OpenFileByPath(path)
+        ) as file_object:
             signature_data = file_object.read(4)
 
             try:
-- 
2.43.0


From 50b0c709c1dae406c6dac32cae0b090dd4d208ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:41 +0000
Subject: [PATCH 084/211] fix: refuse Chrome cache index addresses that are not
 in a block file

---
 dtformats/chrome_cache.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 86df31a..d24b5c9 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -718,6 +718,11 @@ class ChromeCacheParser:
         """
         have_all_data_block_files = True
         for cache_address in index_file.index_table.values():
+            if cache_address.block_offset is None:
+                raise errors.ParseError(
+                    f"Unsupported cache address: 0x{cache_address.value:08x}"
+                )
+
             if cache_address.filename not in data_block_files:
                 data_block_file_path = self._file_system_helper.JoinPath(
                     [path, cache_address.filename]
@@ -750,7 +755,7 @@ class ChromeCacheParser:
                         break
 
                     data_file = data_block_files.get(cache_address.filename)
-                    if not data_file:
+                    if not data_file or cache_address.block_offset is None:
                         logging.warning(
                             f"Cache address: 0x{cache_address.value:08x} missing "
                             f"filename."
-- 
2.43.0


From cf3433d43acaf0aae41b3c6665f91d73c1e49134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:41 +0000
Subject: [PATCH 085/211] fix: read Chrome cache entries chained from another
 data block file

---
 dtformats/chrome_cache.py | 40 ++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index d24b5c9..c9bcc6c 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -705,6 +705,26 @@ class ChromeCacheParser:
         self._file_system_helper = file_system_helper
         self._output_writer = output_writer
 
+    def _OpenDataBlockFile(self, path):
+        """Opens a data block file.
+
+        Args:
+          path (str): path of the data block file.
+
+        Returns:
+          DataBlockFile: data block file.
+
+        Raises:
+          ParseError: if the data block file cannot be read.
+        """
+        data_block_file = DataBlockFile(
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
+        )
+        data_block_file.Open(path)
+        return data_block_file
+
     def _ReadCacheEntries(self, path, index_file, data_block_files):
         """Reads the cache entries of a Chrome Cache directory.
 
@@ -734,14 +754,9 @@ class ChromeCacheParser:
                     have_all_data_block_files = False
 
                 else:
-                    data_block_file = DataBlockFile(
-                        debug=self._debug,
-                        file_system_helper=self._file_system_helper,
-                        output_writer=self._output_writer,
+                    data_block_files[cache_address.filename] = self._OpenDataBlockFile(
+                        data_block_file_path
                     )
-                    data_block_file.Open(data_block_file_path)
-
-                    data_block_files[cache_address.filename] = data_block_file
 
         if have_all_data_block_files:
             # TODO: read the cache entries from the data block files
@@ -755,6 +770,17 @@ class ChromeCacheParser:
                         break
 
                     data_file = data_block_files.get(cache_address.filename)
+                    if not data_file and cache_address.block_offset is not None:
+                        # The next cache entry can be in another data block file.
+                        data_block_file_path = self._file_system_helper.JoinPath(
+                            [path, cache_address.filename]
+                        )
+                        if self._file_system_helper.CheckFileExistsByPath(
+                            data_block_file_path
+                        ):
+                            data_file = self._OpenDataBlockFile(data_block_file_path)
+                            data_block_files[cache_address.filename] = data_file
+
                     if not data_file or cache_address.block_offset is None:
                         logging.warning(
                             f"Cache address: 0x{cache_address.value:08x} missing "
-- 
2.43.0


From 66634d01092b856e8fb339964ec5ff1c0e118af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:13 +0000
Subject: [PATCH 086/211] fix: joining the segments of a relative path gives
 the same file

---
 dtformats/file_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/file_system.py b/dtformats/file_system.py
index e48b0ed..2fac948 100644
--- a/dtformats/file_system.py
+++ b/dtformats/file_system.py
@@ -189,5 +189,9 @@ class NativeFileSystemHelper:
           list[str]: path segments without the root path segment, which is
               an empty string.
         """
+        # Note that JoinPath creates an absolute path.
+        if not os.path.isabs(path):
+            path = os.path.join(os.getcwd(), path)
+
         # Split the path with the path separator and remove empty path segments.
         return list(filter(None, path.split(os.path.sep)))
-- 
2.43.0


From 15fe70749c66ee07ad1695d12843b53665c29ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:14 +0000
Subject: [PATCH 087/211] fix: read a Chrome cache of a relative path

---
 dtformats/chrome_cache.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index c9bcc6c..451af4a 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -736,6 +736,8 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the cache entries cannot be read.
         """
+        path_segments = self._file_system_helper.SplitPath(path)
+
         have_all_data_block_files = True
         for cache_address in index_file.index_table.values():
             if cache_address.block_offset is None:
@@ -745,7 +747,7 @@ class ChromeCacheParser:
 
             if cache_address.filename not in data_block_files:
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    [path, cache_address.filename]
+                    path_segments + [cache_address.filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
@@ -773,7 +775,7 @@ class ChromeCacheParser:
                     if not data_file and cache_address.block_offset is not None:
                         # The next cache entry can be in another data block file.
                         data_block_file_path = self._file_system_helper.JoinPath(
-                            [path, cache_address.filename]
+                            path_segments + [cache_address.filename]
                         )
                         if self._file_system_helper.CheckFileExistsByPath(
                             data_block_file_path
@@ -822,7 +824,9 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath([path, "index"])
+        path_segments = self._file_system_helper.SplitPath(path)
+
+        index_file_path = self._file_system_helper.JoinPath(path_segments + ["index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
-- 
2.43.0


From 66b3c157e912417fa899d924b11b52820ce6fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 088/211] fix: print the record data size of a LevelDB log
 block

---
 dtformats/leveldb.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/leveldb.debug.yaml b/dtformats/leveldb.debug.yaml
index e9ae673..ffdeff6 100644
--- a/dtformats/leveldb.debug.yaml
+++ b/dtformats/leveldb.debug.yaml
@@ -5,7 +5,7 @@ attributes:
 - name: checksum
   description: "Checksum"
   format: hexadecimal_8digits
-- name: data_size
+- name: record_data_size
   description: "Record data size"
   format: decimal
 - name: record_type
-- 
2.43.0


From 9c62ccad3d0ea3bed7b000793acb4aeaa228cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 089/211] fix: refuse an incomplete LevelDB variable size
 integer

---
 dtformats/leveldb.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4ba5e17..e4316e0 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -84,8 +84,13 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
         data_size = len(data)
+        if data_size == 0:
+            raise errors.ParseError("Missing variable size integer data.")
 
         byte_value = data[0]
         bytes_read = 1
@@ -93,15 +98,16 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
         integer_value = int(byte_value) & 0x7F
 
-        while bytes_read < data_size and byte_value & 0x80:
+        while byte_value & 0x80:
+            if bytes_read >= min(data_size, 10):
+                raise errors.ParseError("Unsupported variable size integer.")
+
             byte_value = data[bytes_read]
             bytes_read += 1
             bit_shift += 7
 
             integer_value |= (int(byte_value) & 0x7F) << bit_shift
 
-            # TODO: check maximum size
-
         return integer_value, bytes_read
 
     @abc.abstractmethod
-- 
2.43.0


From 704b00679d055ac5a40260c593cd12c43fd3467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 090/211] fix: refuse an incomplete LevelDB record value

---
 dtformats/leveldb.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index e4316e0..1a91e35 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -233,6 +233,8 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
         value_data = data[bytes_read : bytes_read + data_size]
+        if len(value_data) != data_size:
+            raise errors.ParseError(f"Unable to read {description:s}: missing data.")
 
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
@@ -431,9 +433,15 @@ class LevelDBDatabaseDescriptorFile(LevelDBDatabaseLogFile):
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
         string_data = data[bytes_read : bytes_read + data_size]
+        if len(string_data) != data_size:
+            raise errors.ParseError(f"Unable to read {description:s}: missing data.")
 
-        string_value = string_data.decode("utf-8")
-
+        try:
+            string_value = string_data.decode("utf-8")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode {description:s} with error: {exception!s}"
+            )
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
             self._DebugPrintValue(f"{description:s} string size", value_string)
-- 
2.43.0


From 95074af3a263013d9bc97930069de79039e48dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 091/211] fix: refuse LevelDB log blocks that are not part of a
 record

---
 dtformats/leveldb.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 1a91e35..202492c 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -255,21 +255,33 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         """
         file_offset = 0
         page_size = 32 * 1024
-        record_data = b""
+        record_data = None
         record_offset = 0
 
         while file_offset < self._file_size:
             log_block, bytes_read = self._ReadBlock(file_object, file_offset)
 
+            if bytes_read > page_size:
+                raise errors.ParseError(
+                    f"Unsupported record data size: {log_block.record_data_size:d} at "
+                    f"offset: 0x{file_offset:08x}."
+                )
+
             if log_block.record_type in (1, 2):
                 record_data = log_block.record_data
                 record_offset = file_offset
 
             elif log_block.record_type in (3, 4):
+                if record_data is None:
+                    raise errors.ParseError(
+                        f"Missing first part of record at offset: 0x{file_offset:08x}."
+                    )
+
                 record_data = b"".join([record_data, log_block.record_data])
 
             if log_block.record_type in (1, 4):
                 self._ReadRecord(record_offset, record_data, len(record_data))
+                record_data = None
 
             file_offset += bytes_read
             page_size -= bytes_read
-- 
2.43.0


From e70b000959a149659383709587c67148c0bed899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 092/211] fix: refuse a LevelDB block that cannot be
 decompressed

---
 dtformats/leveldb.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 202492c..f73d55b 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -525,10 +525,20 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
             )
 
         if block_trailer.compression_type == 1:
-            block_data = snappy.decompress(block_data)
+            try:
+                block_data = snappy.decompress(block_data)
+            except snappy.UncompressError as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress block data with error: {exception!s}"
+                )
 
         elif block_trailer.compression_type == 2:
-            block_data = zstd.decompress(block_data)
+            try:
+                block_data = zstd.decompress(block_data)
+            except zstd.Error as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress block data with error: {exception!s}"
+                )
 
         return block_data
 
-- 
2.43.0


From e60211fae774a483100604dbba500e3c92764cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 093/211] fix: refuse LevelDB table entries that exceed the
 table

---
 dtformats/leveldb.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index f73d55b..645620c 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -718,6 +718,10 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
 
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
         table_data_end_offset -= 4 * number_of_restart_values
+        if table_data_end_offset < 0:
+            raise errors.ParseError(
+                f"Unsupported number of restart values: {number_of_restart_values:d}"
+            )
 
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"number_of_elements": number_of_restart_values}
@@ -728,7 +732,10 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 table_data[table_data_end_offset:], context=context
             )
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 (
                     f"Unable to parse array of 32-bit restart values with error: "
@@ -785,6 +792,16 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
             key_data_size = non_shared_key_data_size
 
             key_data_end_offset = data_offset + key_data_size
+
+            if (
+                shared_key_data_size > len(shared_key_data)
+                or key_data_end_offset + value_data_size > table_data_end_offset
+            ):
+                raise errors.ParseError(
+                    f"Unsupported data size of entry: {entry_index:d} at offset: "
+                    f"0x{entry_offset:08x}"
+                )
+
             key_data = table_data[data_offset:key_data_end_offset]
 
             if self._debug:
-- 
2.43.0


From 97219ee9a5c66bfb11303f40b7181a46a87db81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 094/211] fix: refuse an incomplete IndexedDB key

---
 dtformats/indexeddb.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dtformats/indexeddb.py b/dtformats/indexeddb.py
index c12e233..6dbea1d 100644
--- a/dtformats/indexeddb.py
+++ b/dtformats/indexeddb.py
@@ -1,5 +1,6 @@
 """IndexedDB database files."""
 
+from dtformats import errors
 from dtformats import leveldb
 
 
@@ -41,9 +42,16 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
         Returns:
           tuple[tuple[int, int, int], int]: key prefix and number of bytes read.
         """
-        byte_value = data[0]
+        byte_value = data[0] if data else 0
         bytes_read = 1
 
+        # The number of bytes of the identifiers is stored minus 1.
+        prefix_size = (byte_value >> 5) + ((byte_value & 0x1F) >> 2)
+        prefix_size += (byte_value & 0x03) + 4
+        if prefix_size > len(data):
+            raise errors.ParseError("Missing key prefix data.")
+
+
         database_identifier = 0
         object_store_identifier = 0
         index_identifier = 0
@@ -87,6 +95,9 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
             key_segments = [f"{value:d}" for value in key_prefix]
 
             if key_prefix == (0, 0, 0):
+                if bytes_read >= len(table_entry.key):
+                    raise errors.ParseError("Missing metadata type.")
+
                 metadata_type = int(table_entry.key[bytes_read])
                 bytes_read += 1
 
-- 
2.43.0


From 7298c6a1eefe5b73c62cff3ab6a86de31a2a20ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 095/211] fix: read a LevelDB database file from a storage
 media image

---
 scripts/leveldb.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index 770a43d..f4274e5 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -93,17 +93,23 @@ def Main():
 
     if file_signature == b"\x57\xfb\x80\x8b\x24\x75\x47\xdb":
         leveldb_file = leveldb.LevelDBDatabaseTableFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     elif path_segments[-1].startswith("MANIFEST"):
         leveldb_file = leveldb.LevelDBDatabaseDescriptorFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     else:
         leveldb_file = leveldb.LevelDBDatabaseLogFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     leveldb_file.Open(options.source)
-- 
2.43.0


From 2a1db8293d8326d361ad0134be47ea55907f0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:26 +0000
Subject: [PATCH 096/211] fix: read a LevelDB log file smaller than a table
 footer signature

---
 scripts/leveldb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index f4274e5..c0412e9 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -84,8 +84,10 @@ def Main():
         return False
 
     try:
-        file_object.seek(-8, os.SEEK_END)
-        file_signature = file_object.read(8)
+        file_signature = b""
+        if file_system_helper.GetFileSizeByPath(options.source) >= 8:
+            file_object.seek(-8, os.SEEK_END)
+            file_signature = file_object.read(8)
     finally:
         file_object.close()
 
-- 
2.43.0


From b528d4ea7c109e88cff861df5b8d2a86cd316348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:13 +0000
Subject: [PATCH 097/211] fix: keychain signed integer attribute values are
 reported as unsigned

---
 dtformats/keychain.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4ccfadf..0677162 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -104,7 +104,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
     _ATTRIBUTE_DATA_READ_FUNCTIONS = {
         0: "_ReadAttributeValueString",
-        1: "_ReadAttributeValueInteger",
+        1: "_ReadAttributeValueSignedInteger",
         2: "_ReadAttributeValueInteger",
         5: "_ReadAttributeValueDateTime",
         6: "_ReadAttributeValueBinaryData",
@@ -319,6 +319,43 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_value_data, file_offset, data_type_map, description
         )
 
+    def _ReadAttributeValueSignedInteger(
+        self,
+        attribute_values_data,
+        record_offset,
+        attribute_values_data_offset,
+        attribute_value_offset,
+        description,
+    ):
+        """Reads a signed integer attribute value.
+
+        Args:
+          attribute_values_data (bytes): attribute values data.
+          record_offset (int): offset of the record relative to the start of the file.
+          attribute_values_data_offset (int): offset of the attribute values data
+              relative to the start of the record.
+          attribute_value_offset (int): offset of the attribute relative to the start of
+              the record.
+          description (str): description of the attribute value.
+
+        Returns:
+          int: signed integer value or None if attribute value offset is not set.
+
+        Raises:
+          ParseError: if the attribute value cannot be read.
+        """
+        integer = self._ReadAttributeValueInteger(
+            attribute_values_data,
+            record_offset,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
+        if integer is not None and integer >= 0x80000000:
+            integer -= 0x100000000
+
+        return integer
+
     def _ReadAttributeValueString(
         self,
         attribute_values_data,
-- 
2.43.0


From 846da85b3903f6ae3f9f271effdd1f64f4c108d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:13 +0000
Subject: [PATCH 098/211] fix: keychain names that are not ASCII raise
 UnicodeDecodeError instead of ParseError

---
 dtformats/keychain.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 0677162..d8bed23 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -722,7 +722,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_name = attribute_values_data[
                 attribute_value_offset : attribute_value_offset + 4
             ]
-            attribute_name = attribute_name.decode("ascii")
+            try:
+                attribute_name = attribute_name.decode("ascii")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode attribute name with error: {exception!s}"
+                )
 
         column = KeychainDatabaseColumn()
         column.attribute_data_type = attribute_data_type
@@ -841,7 +846,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "schema information record values"
         )
 
-        relation_name = record_values.relation_name.decode("ascii")
+        try:
+            relation_name = record_values.relation_name.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode relation name with error: {exception!s}"
+            )
 
         if self._debug:
             self._DebugPrintValue(
-- 
2.43.0


From 7fe24e472d9a37d2a7c7edd1cf647a59482a5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:13 +0000
Subject: [PATCH 099/211] fix: keychain schema attribute without relation
 identifier raises TypeError

---
 dtformats/keychain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index d8bed23..92592e6 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -709,6 +709,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintText("\n")
 
+        if relation_identifier is None:
+            raise errors.ParseError("Missing relation identifier.")
+
         table = tables.get(relation_identifier)
         if not table:
             raise errors.ParseError(
-- 
2.43.0


From d4736280ed4d4a871f4f0670c22a06ae211b6d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:31 +0000
Subject: [PATCH 100/211] fix: keychain attribute value offsets before the
 values data read unrelated data

---
 dtformats/keychain.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 92592e6..85b5289 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -540,6 +540,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
           ParseError: if the record attribute value offsets cannot be read.
         """
         offsets_data_size = number_of_attribute_values * 4
+        values_data_offset = 24 + offsets_data_size
 
         offsets_data = file_object.read(offsets_data_size)
 
@@ -560,6 +561,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             context=context,
         )
 
+        for attribute_value_offset in attribute_value_offsets:
+            if 0 < attribute_value_offset <= values_data_offset:
+                raise errors.ParseError(
+                    f"Unsupported attribute value offset: {attribute_value_offset:d}"
+                )
+
         if self._debug:
             for index, attribute_value_offset in enumerate(attribute_value_offsets):
                 value_string = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
-- 
2.43.0


From 57848fd23784c9037d4aed8d8669d4839f2d1b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:31 +0000
Subject: [PATCH 101/211] fix: keychain data sizes that are too small read the
 remainder of the file

---
 dtformats/keychain.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 85b5289..b90a73e 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -456,6 +456,11 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             record_data_offset = file_offset - record_offset
             record_data_size = record_header.data_size
+            if record_data_size < record_data_offset:
+                raise errors.ParseError(
+                    f"Unsupported record data size: {record_data_size:d}"
+                )
+
             record_data = file_object.read(record_data_size - record_data_offset)
 
             if self._debug:
@@ -627,6 +632,11 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         attribute_values_data_size = record_header.data_size - (
             file_offset - record_offset
         )
+        if attribute_values_data_size < 0:
+            raise errors.ParseError(
+                f"Unsupported record data size: {record_header.data_size:d}"
+            )
+
         attribute_values_data = file_object.read(attribute_values_data_size)
 
         if self._debug:
@@ -800,7 +810,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -878,7 +888,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -942,7 +952,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = table_header.data_size - (file_offset - table_offset)
 
-            if trailing_data_size != 0:
+            if trailing_data_size > 0:
                 trailing_data = file_object.read(trailing_data_size)
                 self._DebugPrintData("Table trailing data", trailing_data)
 
-- 
2.43.0


From 77bc2f02a444575aa582c3f1e325532cc79e4ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:31 +0000
Subject: [PATCH 102/211] fix: keychain debug output of attribute values that
 are not stored in column order

---
 dtformats/keychain.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index b90a73e..67b029c 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -478,8 +478,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                     for offset in sorted(attribute_value_offsets)
                     if offset > record_data_offset
                 ]
+
                 data_offsets.append(record_data_size - record_data_offset)
-                data_offsets.pop(0)
 
             for index, column in enumerate(table.columns):
                 if self._debug:
@@ -490,10 +490,14 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                         attribute_value_offset = (
                             attribute_value_offsets[index] - record_data_offset - 1
                         )
-                        attribute_value_end_offset = data_offsets[0]
-                        while attribute_value_end_offset <= attribute_value_offset:
-                            data_offsets.pop(0)
-                            attribute_value_end_offset = data_offsets[0]
+                        attribute_value_end_offset = min(
+                            (
+                                offset
+                                for offset in data_offsets
+                                if offset > attribute_value_offset
+                            ),
+                            default=attribute_value_offset,
+                        )
 
                     description = (
                         f"Attribute value: {index:d} ({column.attribute_name:s}) data"
-- 
2.43.0


From 42cc2019cdc64a5780d013bc80aeee0076c1689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 103/211] fix: keychain records array offset is missing from
 the debug output

---
 dtformats/keychain.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/keychain.debug.yaml b/dtformats/keychain.debug.yaml
index 46658ea..947eef5 100644
--- a/dtformats/keychain.debug.yaml
+++ b/dtformats/keychain.debug.yaml
@@ -65,7 +65,7 @@ attributes:
 - name: number_of_records
   description: "Number of records"
   format: decimal
-- name: record_array_offset
+- name: records_array_offset
   description: "Record array offset"
   format: hexadecimal_8digits
 - name: unknown1
-- 
2.43.0


From c646546f4477b4846f182f48a38d369834ba1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 104/211] fix: keychain columns without a name raise TypeError
 in debug output and script

---
 dtformats/keychain.py | 3 ++-
 scripts/keychain.py   | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 67b029c..a6696fd 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -500,7 +500,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                         )
 
                     description = (
-                        f"Attribute value: {index:d} ({column.attribute_name:s}) data"
+                        f"Attribute value: {index:d} "
+                        f"({column.attribute_name or 'NULL':s}) data"
                     )
 
                     self._DebugPrintData(
diff --git a/scripts/keychain.py b/scripts/keychain.py
index cf0ced9..3acbae1 100755
--- a/scripts/keychain.py
+++ b/scripts/keychain.py
@@ -130,7 +130,9 @@ def Main():
                 )
             )
 
-            print("\t".join([column.attribute_name for column in table.columns]))
+            print(
+                "\t".join([column.attribute_name or "NULL" for column in table.columns])
+            )
 
             for record in table.records:
                 record_values = []
-- 
2.43.0


From 2f7d0c6ceb6b6828324bdcb6122e8fa7db8c0200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 105/211] fix: keychain schema attributes records lack the
 value of the AttributeNameID column

---
 dtformats/keychain.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index a6696fd..147cdf0 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -708,7 +708,16 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                 value_string = attribute_name
             self._DebugPrintValue("Attribute name", value_string)
 
-        # TODO: add support for AttributeNameID
+        attribute_name_identifier = self._ReadAttributeValueBinaryData(
+            attribute_values_data,
+            record_offset,
+            attribute_values_data_offset,
+            attribute_value_offsets[4],
+            "attribute name identifier",
+        )
+        if self._debug:
+            value_string = attribute_name_identifier or "NULL"
+            self._DebugPrintValue("Attribute name identifier", value_string)
 
         attribute_data_type = self._ReadAttributeValueInteger(
             attribute_values_data,
@@ -771,6 +780,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                 "AttributeID": attribute_identifier,
                 "AttributeNameFormat": attribute_name_data_type,
                 "AttributeName": attribute_name,
+                "AttributeNameID": attribute_name_identifier,
                 "AttributeFormat": attribute_data_type,
             }
         )
-- 
2.43.0


From ac49db3e30b72039b34b3942e1c0e3e5ae6c4813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:01 +0000
Subject: [PATCH 106/211] fix: keychain debug output prints offsets and
 identifiers as tuples

---
 dtformats/keychain.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 147cdf0..a1b6c41 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -140,7 +140,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, record_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(record_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(record_offset)
             line = self._FormatValue(f"Record offset: {index:d}", value_string)
             lines.append(line)
 
@@ -158,7 +158,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if integer is None:
             return "NULL"
 
-        return self._FormatIntegerAsHexadecimal8(integer)
+        value_string, _ = self._FormatIntegerAsHexadecimal8(integer)
+        return value_string
 
     def _FormatIntegerAsRecordType(self, integer):
         """Formats an integer as a record type.
@@ -183,7 +184,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, table_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(table_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(table_offset)
             line = self._FormatValue(f"Table offset: {index:d}", value_string)
             lines.append(line)
 
@@ -579,7 +580,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for index, attribute_value_offset in enumerate(attribute_value_offsets):
-                value_string = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
+                value_string, _ = self._FormatIntegerAsHexadecimal8(
+                    attribute_value_offset
+                )
                 self._DebugPrintValue(
                     f"Attribute value offset: {index:d}", value_string
                 )
-- 
2.43.0


From 0d474bca3607f795ee30ab755ea834a5a675bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:10 +0000
Subject: [PATCH 107/211] fix: Spotlight store truncated variable size integers
 raise IndexError

---
 dtformats/spotlight_storedb.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 657103e..9978563 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -174,7 +174,13 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data.")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -184,6 +190,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
                 break
             number_of_additional_bytes += 1
 
+        if len(data) <= number_of_additional_bytes:
+            raise errors.ParseError("Variable size integer data too small.")
+
         if number_of_additional_bytes > 4:
             byte_value = 0
         elif number_of_additional_bytes > 0:
@@ -1899,7 +1908,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data.")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -1909,6 +1924,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 break
             number_of_additional_bytes += 1
 
+        if len(data) <= number_of_additional_bytes:
+            raise errors.ParseError("Variable size integer data too small.")
+
         if number_of_additional_bytes > 4:
             byte_value = 0
         elif number_of_additional_bytes > 0:
-- 
2.43.0


From 65ff44f7f11ae9ab36a07c60cd008e00113704a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:10 +0000
Subject: [PATCH 108/211] fix: Spotlight store multi-value integers start with
 the data size and lack the last values

---
 dtformats/spotlight_storedb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 9978563..d6d3327 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1463,17 +1463,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         array_of_values = []
 
+        values_data = data[bytes_read : bytes_read + data_size]
+
         data_offset = 0
         while data_offset < data_size:
             integer_value, integer_value_size = self._ReadVariableSizeInteger(
-                data[data_offset:data_size]
+                values_data[data_offset:]
             )
             data_offset += integer_value_size
-
             array_of_values.append(integer_value)
 
         bytes_read += data_size
-
         return array_of_values, bytes_read
 
     def _ReadPropertyPage(self, file_object, file_offset, property_table):
-- 
2.43.0


From 655ada74512b2656403ae8e0827ae0d22d970116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:10 +0000
Subject: [PATCH 109/211] fix: Spotlight store truncated data raises
 ByteStreamTooSmallError instead of ParseError

---
 dtformats/spotlight_storedb.py | 60 +++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index d6d3327..bca90cc 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -370,7 +370,10 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         try:
             offsets_array = data_type_map.MapByteStream(data, context=context)
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit offsets with error: {exception!s}"
             )
@@ -604,7 +607,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             lz4_block_header = data_type_map.MapByteStream(compressed_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map LZ4 block header at offset: 0x{file_offset:08x} "
                 f"with error: {exception!s}"
@@ -773,7 +779,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -796,7 +805,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     page_data[page_data_offset + page_value_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 page_data_offset += page_value_size
                 raise errors.ParseError(
                     f"Unable to parse index data at offset: 0x{page_data_offset:08x} "
@@ -889,7 +901,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     stream_value[data_offset + padding_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1120,7 +1135,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of byte values with error: {exception!s}"
             )
@@ -1165,7 +1183,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1211,7 +1232,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 64-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1268,7 +1292,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -1385,7 +1412,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             try:
                 property_value = data_type_map.MapByteStream(stream_value[data_offset:])
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1426,7 +1456,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of string values with error: {exception!s}"
             )
@@ -1685,7 +1718,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(data, context=context)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map record at offset: 0x{page_data_offset:08x} with "
                 f"error: {exception!s}"
-- 
2.43.0


From c129de93b6ee68bcf971354ec76d6e75fee58c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:10 +0000
Subject: [PATCH 110/211] fix: Spotlight store corrupt compressed data raises
 errors other than ParseError

---
 dtformats/spotlight_storedb.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index bca90cc..51d418a 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -625,11 +625,24 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
 
-            uncompressed_data = lz4.block.decompress(
-                compressed_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-                dict=previous_uncompressed_data,
-            )
+            # Note that LZ4 compresses 255 bytes or less into a single byte.
+            if lz4_block_header.uncompressed_data_size > 255 * len(compressed_data):
+                raise errors.ParseError(
+                    f"Unsupported LZ4 uncompressed data size at offset: "
+                    f"0x{file_offset:08x}"
+                )
+
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    compressed_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                    dict=previous_uncompressed_data,
+                )
+            except lz4.block.LZ4BlockError as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block at offset: 0x{file_offset:08x} "
+                    f"with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -1797,8 +1810,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                     compressed_page_data, file_offset
                 )
 
-            elif compressed_page_data[0] == 0x78:
-                page_data = zlib.decompress(compressed_page_data)
+            elif compressed_page_data[:1] == b"\x78":
+                try:
+                    page_data = zlib.decompress(compressed_page_data)
+                except zlib.error as exception:
+                    raise errors.ParseError(
+                        f"Unable to decompress page data at offset: "
+                        f"0x{file_offset:08x} with error: {exception!s}"
+                    )
 
             # TODO: add support for other compression types.
             else:
-- 
2.43.0


From e0152e1b0fe4e11fd9d30053c4ff5349a8eff2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:35 +0000
Subject: [PATCH 111/211] fix: Spotlight store attributes in the last 4 bytes
 of a record are missing

---
 dtformats/spotlight_storedb.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 51d418a..39ebe63 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1668,9 +1668,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         metadata_attribute_index = 0
         metadata_type_index = 0
 
-        record_data_end_offset = page_data_offset + record_header.data_size
+        # Note that the record data size does not include the size of itself.
+        record_size = 4 + record_header.data_size
+        record_data_end_offset = page_data_offset + record_size - record_data_offset
 
-        while record_data_offset < record_header.data_size:
+        while record_data_offset < record_size:
             relative_metadata_type_index, bytes_read = self._ReadVariableSizeInteger(
                 page_data[page_data_offset:record_data_end_offset]
             )
@@ -1853,9 +1855,8 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             if self._debug:
-                record_data = page_data[
-                    page_data_offset + 4 : page_data_offset + record_header.data_size
-                ]
+                record_data_end_offset = page_data_offset + 4 + record_header.data_size
+                record_data = page_data[page_data_offset + 4 : record_data_end_offset]
                 self._DebugPrintData("Record data", record_data)
 
             if self._debug:
-- 
2.43.0


From b38a1219bfd61b849dbe88843bf273b91feeeca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:35 +0000
Subject: [PATCH 112/211] fix: Spotlight store unused data of uncompressed
 pages is read as records

---
 dtformats/spotlight_storedb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 39ebe63..9307cfe 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1802,7 +1802,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         file_offset += bytes_read
 
-        if page_header.uncompressed_page_size > 0:
+        if page_header.uncompressed_page_size == 0:
+            page_data = page_data[: page_header.used_page_size - bytes_read]
+
+        else:
             compressed_page_data = page_data
 
             if page_header.property_table_type & 0x00001000 and compressed_page_data[
-- 
2.43.0


From 1083c2c873a953071e36c9beb19c8f638dd675ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:36 +0000
Subject: [PATCH 113/211] fix: Spotlight store invalid page sizes and page
 loops read endlessly

---
 dtformats/spotlight_storedb.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 9307cfe..6fed68b 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -978,12 +978,21 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(page_header, debug_info)
 
+        map_values_size = page_header.number_of_map_values * 16
+        if page_header.page_size < page_header_size + map_values_size:
+            raise errors.ParseError(
+                f"Unsupported map page size: {page_header.page_size:d}"
+            )
+
         file_offset += page_header_size
 
         self._ReadMapPageValues(page_header, file_object, file_offset)
 
         if self._debug:
-            page_data = file_object.read(page_header.page_size - page_header_size)
+            file_object.seek(file_offset + map_values_size)
+            page_data = file_object.read(
+                page_header.page_size - page_header_size - map_values_size
+            )
             self._DebugPrintData("Page data", page_data)
 
         return page_header
@@ -1599,6 +1608,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         page_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "property page header"
         )
+        if not bytes_read <= page_header.used_page_size <= page_header.page_size:
+            raise errors.ParseError(
+                f"Unsupported used page size: {page_header.used_page_size:d}"
+            )
+
         if self._debug:
             block_number = file_offset // 0x1000
             self._DebugPrintDecimalValue("Block number", block_number)
@@ -1627,8 +1641,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the property pages cannot be read.
         """
+        block_numbers = set()
+
         file_offset = block_number * 0x1000
         while file_offset != 0:
+            if file_offset in block_numbers:
+                raise errors.ParseError(
+                    f"Property page at offset: 0x{file_offset:08x} already read"
+                )
+
+            block_numbers.add(file_offset)
+
             _, next_block_number = self._ReadPropertyPage(
                 file_object, file_offset, property_table
             )
-- 
2.43.0


From 3cfa57f0f0bac590cbf7b4694c6763ccad825ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:04 +0000
Subject: [PATCH 114/211] fix: Spotlight store values of a previously read file
 remain when reading another

---
 dtformats/spotlight_storedb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 6fed68b..2d17f63 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -2070,6 +2070,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._map_values = []
+        self._metadata_lists = {}
+        self._metadata_localized_strings = {}
+        self._metadata_types = {}
+        self._metadata_values = {}
+        self._record_descriptors = {}
+        self._record_pages_cache = {}
+
         file_header = self._ReadFileHeader(file_object)
 
         self._ReadMapPages(file_object, file_header.map_offset, file_header.map_size)
-- 
2.43.0


From 70520df8c282144b58554a1dddd70124187badd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:04 +0000
Subject: [PATCH 115/211] fix: Spotlight store invalid record data raises
 errors other than ParseError

---
 dtformats/spotlight_storedb.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 2d17f63..7fbea54 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1486,6 +1486,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"Unable to parse array of string values with error: {exception!s}"
             )
 
+        if property_type & 0x03 != 0x02 and not array_of_values:
+            raise errors.ParseError("Missing string value.")
+
         if property_type & 0x03 == 0x03:
             value = array_of_values[0]
             if "\x16\x02" in value:
@@ -1723,6 +1726,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 self._DebugPrintDecimalValue(description, metadata_type_index)
 
             metadata_type = self._metadata_types.get(metadata_type_index)
+            if not metadata_type:
+                raise errors.ParseError(
+                    f"Missing metadata attribute type: {metadata_type_index:d}"
+                )
+
             metadata_attribute, bytes_read = self._ReadMetadataAttribute(
                 metadata_type, page_data[page_data_offset:record_data_end_offset]
             )
@@ -1771,10 +1779,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         data_offset += bytes_read
 
-        flags = data[data_offset]
+        if data_offset >= len(data):
+            raise errors.ParseError(
+                f"Record data too small at offset: 0x{page_data_offset:08x}"
+            )
 
+        flags = data[data_offset]
         data_offset += 1
-
         value_names = ["item_identifier", "parent_identifier", "last_update_time"]
         values, bytes_read = self._ReadVariableSizeIntegers(
             data[data_offset:], value_names
-- 
2.43.0


From cd6fbc496e986199b889904f9714f8a0378ac9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:04 +0000
Subject: [PATCH 116/211] fix: Spotlight store timestamps out of range raise
 errors in debug output

---
 dtformats/spotlight_storedb.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 7fbea54..97ab934 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1,12 +1,12 @@
 """Apple Spotlight store database files."""
 
+import math
 import os
 import zlib
 
 import lz4.block
 
 from dfdatetime import cocoa_time as dfdatetime_cocoa_time
-from dfdatetime import posix_time as dfdatetime_posix_time
 from dtfabric import errors as dtfabric_errors
 from dtfabric.runtime import data_maps as dtfabric_data_maps
 
@@ -465,12 +465,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if value == 0:
             date_time_string = "Not set (0)"
         else:
-            date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
-            date_time_string = date_time.CopyToDateTimeString()
+            # Note that the number of seconds between January 1, 1970 and
+            # January 1, 2001 is 978307200.
+            date_time_string = None
+            if math.isfinite(value) and self._CheckPosixTime(int(value) + 978307200):
+                date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
+                date_time_string = date_time.CopyToDateTimeString()
+
             if date_time_string:
                 date_time_string = f"{date_time_string:s} UTC"
             else:
-                date_time_string = f"0x{value:08x}"
+                date_time_string, _ = self._FormatFloatingPoint(value)
 
         self._DebugPrintValue(description, date_time_string)
 
@@ -577,12 +582,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if value == 0:
             date_time_string = "Not set (0)"
         else:
-            date_time = dfdatetime_posix_time.PosixTimeInMicroseconds(timestamp=value)
-            date_time_string = date_time.CopyToDateTimeString()
-            if date_time_string:
-                date_time_string = f"{date_time_string:s} UTC"
-            else:
-                date_time_string = f"0x{value:08x}"
+            date_time_string = self._FormatIntegerAsPosixTimeInMicroseconds(value)
 
         self._DebugPrintValue(description, date_time_string)
 
@@ -760,7 +760,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(file_header, debug_info)
 
-        if self._debug:
+        if self._debug and file_header.map_offset > file_header_size:
             trailing_data = file_object.read(file_header.map_offset - file_header_size)
             self._DebugPrintData("Trailing data", trailing_data)
 
-- 
2.43.0


From 45dced3ef4b0c5957cfb524ccaec886b0400564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:38 +0000
Subject: [PATCH 117/211] fix: Spotlight store without records raises
 UnboundLocalError in debug mode

---
 dtformats/spotlight_storedb.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 97ab934..b409c1f 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -2147,8 +2147,4 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for record_identifier in sorted(self._record_descriptors.keys()):
-                metadata_item = self._GetMetadataItemByIdentifier(
-                    file_object, record_identifier
-                )
-            # TODO: do something with metadata_item or remove.
-            _ = metadata_item
+                self._GetMetadataItemByIdentifier(file_object, record_identifier)
-- 
2.43.0


From d903b31fdd9e8ce2040a4a1ac555382344733d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 118/211] fix: CIM repository cannot be opened due to unpacking
 of a filename glob

---
 dtformats/wmi_repository.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 576b057..0b3a24b 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3492,7 +3492,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         # Unsure how reliable this method is since multiple index[1-3].map files
         # can have the same sequence number but contain different mappings.
         for mapping_file_number in range(1, 4):
-            filename_as_glob, _ = self._FormatFilenameAsGlob(
+            filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
             path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
@@ -3851,7 +3851,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           IndexBinaryTreeFile: index binary tree file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("index.btr")
+        filename_as_glob = self._FormatFilenameAsGlob("index.btr")
         index_binary_tree_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3880,7 +3880,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           MappingFile: mapping file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob(filename)
+        filename_as_glob = self._FormatFilenameAsGlob(filename)
         mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
 
         mapping_file_path = glob.glob(mapping_file_glob)
@@ -3904,7 +3904,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           file: file-like object or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("mapping.ver")
+        filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
         mapping_version_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3925,7 +3925,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           ObjectsDataFile: objects data file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("objects.data")
+        filename_as_glob = self._FormatFilenameAsGlob("objects.data")
         objects_data_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3953,7 +3953,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           RepositoryFile: repository file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("cim.rep")
+        filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
         repository_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
-- 
2.43.0


From c6921d0264d440616ece3f9c84c4008d5439fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 119/211] fix: WMI repository debug output raises ValueError on
 offsets and page numbers

---
 dtformats/wmi_repository.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 0b3a24b..2f7b124 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -344,13 +344,13 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             self._DebugPrintDecimalValue(f"Unknown2: {index:d}", value)
 
         for index, page_number in enumerate(page_body.sub_pages):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(
                 f"Sub page: {index:d} mapped page number", value_string
             )
 
         for index, key_offset in enumerate(page_body.key_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(key_offset)
+            value_string = self._FormatIntegerAsOffset(key_offset)
             self._DebugPrintValue(f"Key: {index:d} offset", value_string)
 
         number_of_bytes = page_body.key_data_size * 2
@@ -362,7 +362,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         self._DebugPrintDecimalValue("Number of values", page_body.number_of_values)
 
         for index, offset in enumerate(page_body.value_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(offset)
+            value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
         number_of_bytes = page_body.value_data_size * 2
@@ -532,7 +532,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             page_key_offset = key_offset * 2
 
             if self._debug:
-                value_string, _ = self._FormatIntegerAsOffset(page_key_offset)
+                value_string = self._FormatIntegerAsOffset(page_key_offset)
                 self._DebugPrintValue(
                     f"Page key: {page_key_index:d} offset", value_string
                 )
@@ -697,7 +697,7 @@ class MappingFile(data_format.BinaryDataFile):
             "  Number of entries", unknown_table.number_of_entries
         )
         for index, page_number in enumerate(unknown_table.entries):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(f"  Entry: {index:d} page number", value_string)
 
         self._DebugPrintText("\n")
@@ -1697,10 +1697,10 @@ class RepositoryFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "node cell"
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(file_offset)
+            value_string = self._FormatIntegerAsOffset(file_offset)
             self._DebugPrintValue("Node cell offset", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(file_offset + 4)
+            value_string = self._FormatIntegerAsOffset(file_offset + 4)
             self._DebugPrintValue("Data offset", value_string)
 
             if cell_number is not None:
@@ -2307,18 +2307,18 @@ class ClassDefinition(CIMObject):
         """
         lines = []
         for index, property_descriptor in enumerate(array_of_property_descriptors):
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.name_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} name offset", value_string
             )
             lines.append(line)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.definition_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} definition offset", value_string
             )
             lines.append(line)
@@ -2679,7 +2679,7 @@ class ClassDefinition(CIMObject):
             )
             self._DebugPrintValue("        Index", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 class_definition_property.value_data_offset
             )
             self._DebugPrintValue("        Value data offset", value_string)
@@ -3116,7 +3116,7 @@ class Instance(CIMObject):
             "unknown offset",
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(unknown_offset)
+            value_string = self._FormatIntegerAsOffset(unknown_offset)
             self._DebugPrintValue("Unknown offset", value_string)
 
         data_offset += 4
-- 
2.43.0


From b47a221a54e5ad8e5b1984ef6ee543709bd3d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 120/211] fix: CIM repository with a relative path cannot be
 opened

---
 dtformats/wmi_repository.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2f7b124..3e81165 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3495,7 +3495,7 @@ class CIMRepository(data_format.BinaryDataFormat):
             filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
-            path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+            path_with_glob = self._file_system_helper.JoinPath(self._file_system_helper.SplitPath(glob.escape(path)) + [filename_as_glob])
             mapping_file_glob = glob.glob(path_with_glob)
             if not mapping_file_glob:
                 continue
@@ -3853,7 +3853,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("index.btr")
         index_binary_tree_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            self._file_system_helper.SplitPath(glob.escape(path)) + [filename_as_glob]
         )
 
         index_binary_tree_file_path = glob.glob(index_binary_tree_file_glob)
@@ -3881,7 +3881,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           MappingFile: mapping file or None if not available.
         """
         filename_as_glob = self._FormatFilenameAsGlob(filename)
-        mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+        mapping_file_glob = self._file_system_helper.JoinPath(self._file_system_helper.SplitPath(glob.escape(path)) + [filename_as_glob])
 
         mapping_file_path = glob.glob(mapping_file_glob)
         if not mapping_file_path:
@@ -3906,7 +3906,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
         mapping_version_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            self._file_system_helper.SplitPath(glob.escape(path)) + [filename_as_glob]
         )
 
         mapping_version_file_path = glob.glob(mapping_version_file_glob)
@@ -3927,7 +3927,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("objects.data")
         objects_data_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            self._file_system_helper.SplitPath(glob.escape(path)) + [filename_as_glob]
         )
 
         objects_data_file_path = glob.glob(objects_data_file_glob)
@@ -3955,7 +3955,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
         repository_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            self._file_system_helper.SplitPath(glob.escape(path)) + [filename_as_glob]
         )
         repository_file_path = glob.glob(repository_file_glob)
         if not repository_file_path:
-- 
2.43.0


From 5e142ecbd719045191bad5462c750afa17ef876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 121/211] fix: CIM index page debug output has wrong page body
 and value data sizes

---
 dtformats/wmi_repository.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 3e81165..4a683d8 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -365,10 +365,8 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
-        number_of_bytes = page_body.value_data_size * 2
         self._DebugPrintValue(
-            "Value data size",
-            f"{page_body.value_data_size:d} ({number_of_bytes:d} bytes)",
+            "Value data size", f"{page_body.value_data_size:d} bytes"
         )
         self._DebugPrintData("Value data", page_body.value_data)
 
@@ -445,7 +443,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
 
             if self._debug:
                 self._DebugPrintData(
-                    "Page body data", page_body_data[:page_data_offset]
+                    "Page body data", page_body_data[: context.byte_size]
                 )
 
             if self._debug:
@@ -549,7 +547,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             if self._debug:
                 page_key_end_offset = page_key_offset + context.byte_size
                 self._DebugPrintData(
-                    f"Page key: {page_key_index:d} data:",
+                    f"Page key: {page_key_index:d} data",
                     key_data[page_key_offset:page_key_end_offset],
                 )
 
-- 
2.43.0


From b3058cfb638a09810602d8de47e119160c02a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 122/211] fix: CIM repository with invalid index values raises
 IndexError or ByteStreamTooSmallError

---
 dtformats/wmi_repository.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 4a683d8..76c9a37 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -190,6 +190,10 @@ class MappingTable:
         Returns:
           int: (physical) page number.
         """
+        if not 0 <= mapped_page_number < len(self._mapping_table.entries):
+            raise errors.ParseError(
+                f"Invalid mapped page number: {mapped_page_number:d}"
+            )
         mapping_table_entry = self._mapping_table.entries[mapped_page_number]
         return mapping_table_entry.page_number
 
@@ -471,6 +475,10 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             for page_key_segments in index_binary_tree_page.page_key_segments:
                 key_segments = []
                 for segment_index in page_key_segments:
+                    if segment_index >= len(index_binary_tree_page.page_values):
+                        raise errors.ParseError(
+                            f"Invalid page key segment index: {segment_index:d}"
+                        )
                     page_value = index_binary_tree_page.page_values[segment_index]
                     key_segments.append(page_value)
 
@@ -587,7 +595,10 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
                 value_string = self._STRING.MapByteStream(
                     value_data[page_value_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to parse page value: {index:d} string with error: "
                     f"{exception!s}"
-- 
2.43.0


From e5254a7e55cc883618db3c7395da90dab2b9d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 123/211] fix: CIM repository with a loop in the index tree is
 read until RecursionError

---
 dtformats/wmi_repository.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 76c9a37..e4681be 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3716,15 +3716,31 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         Yields:
           str: a CIM key.
+
+        Raises:
+          ParseError: if the index binary-tree contains a loop.
         """
-        if index_page:
-            yield from index_page.keys
+        mapped_page_numbers = []
+        visited_page_numbers = set()
+
+        while index_page or mapped_page_numbers:
+            if index_page:
+                yield from index_page.keys
+
+                mapped_page_numbers.extend(reversed(index_page.sub_pages))
+
+            index_page = None
+            if mapped_page_numbers:
+                mapped_page_number = mapped_page_numbers.pop()
+                if mapped_page_number in visited_page_numbers:
+                    raise errors.ParseError(
+                        f"Index page: {mapped_page_number:d} already read"
+                    )
+                visited_page_numbers.add(mapped_page_number)
 
-            for mapped_page_number in index_page.sub_pages:
-                sub_index_page = self._GetIndexPageByMappedPageNumber(
+                index_page = self._GetIndexPageByMappedPageNumber(
                     mapped_page_number
                 )
-                yield from self._GetKeysFromIndexPage(sub_index_page)
 
     def _GetObjectsPageByMappedPageNumber(self, mapped_page_number, is_data_page):
         """Retrieves a specific objects page by mapped page number.
-- 
2.43.0


From a9aa0bf27d5e21cbf57acb21a67f06585d8f1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 124/211] fix: CIM object records that are missing or truncated
 raise AttributeError or return other data

---
 dtformats/wmi_repository.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index e4681be..226c94e 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1059,11 +1059,14 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the object record data segment cannot be read.
         """
+        if data_offset >= self._PAGE_SIZE:
+            raise errors.ParseError(
+                f"Invalid object record data offset: {data_offset:d}"
+            )
+
         # Make the offset relative to the start of the file.
         file_offset = objects_page.page_offset + data_offset
 
-        self._file_object.seek(file_offset, os.SEEK_SET)
-
         if self._debug:
             self._DebugPrintText(
                 f"Reading object record data segment at offset: {file_offset:d} "
@@ -1077,7 +1080,9 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         else:
             read_size = data_size
 
-        return self._file_object.read(read_size)
+        return self._ReadData(
+            self._file_object, file_offset, read_size, "object record data segment"
+        )
 
 
 class RepositoryFile(data_format.BinaryDataFile):
@@ -3800,7 +3805,11 @@ class CIMRepository(data_format.BinaryDataFormat):
                 object_descriptor = object_page.GetObjectDescriptor(
                     record_identifier, data_size
                 )
-
+                if not object_descriptor:
+                    raise errors.ParseError(
+                        f"Unable to retrieve objects record: "
+                        f"{record_identifier:d} descriptor."
+                    )
                 data_offset = object_descriptor.data_offset
                 is_data_page = True
             else:
-- 
2.43.0


From 02e4c80ffee7670bc70e4962cc33d449ae56d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 125/211] fix: CIM object descriptor data offset is relative to
 the descriptor in debug output

---
 dtformats/wmi_repository.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 226c94e..3596ecb 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -963,7 +963,9 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         setattr(
             object_descriptor,
             "data_file_offset",
-            file_offset + object_descriptor.data_offset,
+            file_offset
+            - (file_offset % self._PAGE_SIZE)
+            + object_descriptor.data_offset,
         )
         if self._debug:
             debug_info = self._DEBUG_INFORMATION.get("cim_object_descriptor")
-- 
2.43.0


From 0d8f97c1e8812773646734f0df53a097313c5794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 126/211] fix: CIM class with a missing or looping super class
 raises AttributeError or is read endlessly

---
 dtformats/wmi_repository.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 3596ecb..674eb06 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3592,7 +3592,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         if not class_value_data_map:
             class_definition = self._GetClassDefinitionByHash(class_name_hash)
             if not class_definition:
-                raise RuntimeError(
+                raise errors.ParseError(
                     (
                         f"Unable to retrieve definition of class with hash: "
                         f"{class_name_hash:s}"
@@ -3601,14 +3601,20 @@ class CIMRepository(data_format.BinaryDataFormat):
 
             class_definitions = [class_definition]
             while class_definition.super_class_name:
-                class_definition = self._GetClassDefinitionByName(
-                    class_definition.super_class_name
-                )
+                super_class_name = class_definition.super_class_name
+                class_definition = self._GetClassDefinitionByName(super_class_name)
                 if not class_definition:
-                    raise RuntimeError(
+                    raise errors.ParseError(
                         (
                             f"Unable to retrieve definition of class with name: "
-                            f"{class_definition.super_class_name:s}"
+                            f"{super_class_name:s}"
+                        )
+                    )
+                if class_definition in class_definitions:
+                    raise errors.ParseError(
+                        (
+                            f"Class with name: {super_class_name:s} is its own "
+                            f"super class"
                         )
                     )
 
-- 
2.43.0


From d42ac117c3cadab5f16d3e3bc31c9973321430bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:53 +0000
Subject: [PATCH 127/211] fix: CIM namespace without a name raises TypeError

---
 dtformats/wmi_repository.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 674eb06..7a5c334 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4165,6 +4165,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespace_hash = key_segment[3:].lower()
             parent_namespaces.add(namespace_hash)
 
+            if len(key_segments) < 3:
+                continue
+
             _, _, key_segment = key_segments[2].partition("_")
             if key_segment.lower() != class_name_hash:
                 continue
@@ -4209,6 +4212,8 @@ class CIMRepository(data_format.BinaryDataFormat):
 
                 for instance in instances:
                     name_property = instance.properties.get("Name")
+                    if not name_property:
+                        continue
 
                     namespace = "\\".join([parent_namespace, name_property])
 
-- 
2.43.0


From 312a2ecc5c431aac7fff1f3a025ba09a7d60dbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:53 +0000
Subject: [PATCH 128/211] fix: CIM namespaces more than 5 levels below a common
 namespace are not reported

---
 dtformats/wmi_repository.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 7a5c334..5c37933 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4198,7 +4198,7 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespace_hash = self._GetHashFromString(namespace)
             namespaces_by_hash[namespace_hash] = namespace
 
-        for _ in range(5):
+        while parent_namespaces:
             unresolved_namespaces = set()
             for parent_namespace_hash in parent_namespaces:
                 parent_namespace = namespaces_by_hash.get(parent_namespace_hash)
@@ -4223,6 +4223,9 @@ class CIMRepository(data_format.BinaryDataFormat):
                     instance.namespace = namespace
                     self._namespace_instances.append(instance)
 
+            if len(unresolved_namespaces) == len(parent_namespaces):
+                break
+
             parent_namespaces = unresolved_namespaces
 
     def Close(self):
-- 
2.43.0


From 80ff55e84652cd25c20dc628567af96bf5229645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:53 +0000
Subject: [PATCH 129/211] fix: CIM repository mapping and repository files are
 not closed

---
 dtformats/wmi_repository.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 5c37933..6988103 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3524,12 +3524,12 @@ class CIMRepository(data_format.BinaryDataFormat):
             )
             # TODO: change to only read limited information.
             mapping_file.Open(mapping_file_glob[0])
+            mapping_file.Close()
 
             if not active_mapping_file:
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
             elif mapping_file.sequence_number > active_mapping_file.sequence_number:
-                active_mapping_file.Close()
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
 
@@ -3934,9 +3934,8 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         mapping_file = MappingFile(debug=self._debug, output_writer=self._output_writer)
         mapping_file.Open(mapping_file_path[0])
-
+        mapping_file.Close()
         return mapping_file
-
     def _OpenMappingVersionFile(self, path):
         """Opens a mapping version file.
 
@@ -4246,6 +4245,10 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._index_binary_tree_file.Close()
             self._index_binary_tree_file = None
 
+        if self._repository_file:
+            self._repository_file.Close()
+            self._repository_file = None
+
     def GetInstances(self):
         """Retrieves instances.
 
@@ -4352,9 +4355,6 @@ class CIMRepository(data_format.BinaryDataFormat):
             else:
                 self.format_version = "2.2"
 
-            if basename == "index.btr" or not active_mapping_file:
-                index_mapping_file.Close()
-
             self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
 
             if basename == "index.btr":
@@ -4368,8 +4368,6 @@ class CIMRepository(data_format.BinaryDataFormat):
 
             self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
 
-            objects_mapping_file.Close()
-
             self._objects_data_file = self._OpenObjectsDataFile(path)
 
             self._ReadClassDefinitionsFromObjectRecords()
-- 
2.43.0


From ce2e346ea90c6414806e8bd5c29dc860498107a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:53 +0000
Subject: [PATCH 130/211] fix: CIM repository with missing files raises
 AttributeError or RuntimeError

---
 dtformats/wmi_repository.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 6988103..f40b12c 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3539,7 +3539,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         ):
             logging.warning("Mismatch in active mapping file number.")
 
-        if self._debug:
+        if self._debug and active_mapping_file:
             self._DebugPrintText(
                 f"Active mapping file: mapping{active_mapping_file_number:d}.map\n"
             )
@@ -3584,7 +3584,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           ClassValueMap: class value map or None.
 
         Raises:
-          RuntimeError: if a class definition cannot be found.
+          ParseError: if a class definition cannot be found.
         """
         lookup_key = class_name_hash.lower()
 
@@ -3678,19 +3678,19 @@ class CIMRepository(data_format.BinaryDataFormat):
           IndexBinaryTreePage: an index binary-tree page or None.
 
         Raises:
-          RuntimeError: if the index first mapped page could not be determined.
+          ParseError: if the index first mapped page could not be determined.
         """
         page_number = self._index_mapping_table.ResolveMappedPageNumber(0)
 
         index_page = self._index_binary_tree_file.GetPage(page_number)
         if not index_page:
-            raise RuntimeError(
+            raise errors.ParseError(
                 f"Unable to determine first mapped index binary-tree page: "
                 f"{page_number:d}."
             )
 
         if index_page.page_type != 0xADDD:
-            raise RuntimeError(
+            raise errors.ParseError(
                 f"Unsupported first mapped index binary-tree page type: "
                 f"0x{index_page.page_type:04x}"
             )
@@ -4348,6 +4348,8 @@ class CIMRepository(data_format.BinaryDataFormat):
                 active_mapping_file = self._GetActiveMappingFile(path)
                 index_mapping_file = active_mapping_file
 
+            if not index_mapping_file:
+                raise errors.ParseError("Missing index mapping file.")
             self._index_mapping_table = index_mapping_file.GetIndexMappingTable()
 
             if index_mapping_file.format_version == 1:
@@ -4357,6 +4359,9 @@ class CIMRepository(data_format.BinaryDataFormat):
 
             self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
 
+            if not self._index_binary_tree_file:
+                raise errors.ParseError("Missing index binary-tree file.")
+
             if basename == "index.btr":
                 return
 
@@ -4366,8 +4371,12 @@ class CIMRepository(data_format.BinaryDataFormat):
                     active_mapping_file = self._GetActiveMappingFile(path)
                 objects_mapping_file = active_mapping_file
 
+            if not objects_mapping_file:
+                raise errors.ParseError("Missing objects mapping file.")
             self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
 
             self._objects_data_file = self._OpenObjectsDataFile(path)
+            if not self._objects_data_file:
+                raise errors.ParseError("Missing objects data file.")
 
             self._ReadClassDefinitionsFromObjectRecords()
-- 
2.43.0


From 2a77e4cb76f76fe261efcc9513d5781ffec18afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:53 +0000
Subject: [PATCH 131/211] fix: retrieving a CIM object record by a key without
 a record raises TypeError

---
 dtformats/wmi_repository.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index f40b12c..435ad29 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4309,6 +4309,9 @@ class CIMRepository(data_format.BinaryDataFormat):
         data_type, _, mapped_page_number, record_identifier, data_size = (
             self._GetObjectRecordValuesFromKey(key_segments[-1])
         )
+        if data_type is None:
+            return None
+
         return self._GetObjectRecord(
             data_type, mapped_page_number, record_identifier, data_size
         )
-- 
2.43.0


From 13933c89209a44568e9236af217b3794e5f0fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:22 +0000
Subject: [PATCH 132/211] fix: CIM property with an unsupported type qualifier
 raises AttributeError or ValueError

---
 dtformats/wmi_repository.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 435ad29..b910d73 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -100,7 +100,7 @@ class ClassValueDataMap:
         for class_definition in class_definitions:
             for name, property_definition in class_definition.properties.items():
                 type_qualifier = property_definition.qualifiers.get("type")
-                if not type_qualifier:
+                if not isinstance(type_qualifier, str) or not type_qualifier:
                     name_lower = property_definition.name.lower()
                     if name_lower in self.properties:
                         continue
@@ -3161,6 +3161,8 @@ class Instance(CIMObject):
                     f"property_value_{property_value_data_map.type_qualifier:s}"
                 )
                 data_type_map = self._GetDataTypeMap(data_type_map_name)
+                if not data_type_map:
+                    raise errors.ParseError(f"Unsupported {description:s}")
 
                 property_value = self._ReadStructureFromByteStream(
                     property_values_data[property_map_offset:],
-- 
2.43.0


From e1fd2751e38028286e9fd4f6214d601fc6fdaa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:22 +0000
Subject: [PATCH 133/211] fix: CIM properties of type sint8, sint16, sint64,
 real32 and real64 raise ValueError

---
 dtformats/wmi_repository.yaml | 38 +++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/dtformats/wmi_repository.yaml b/dtformats/wmi_repository.yaml
index 97cc340..b2404cb 100644
--- a/dtformats/wmi_repository.yaml
+++ b/dtformats/wmi_repository.yaml
@@ -514,6 +514,44 @@ attributes:
   size: 8
   units: bytes
 ---
+name: property_value_sint8
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 1
+  units: bytes
+---
+name: property_value_sint16
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 2
+  units: bytes
+---
+name: property_value_sint64
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 8
+  units: bytes
+---
+name: property_value_real32
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 4
+  units: bytes
+---
+name: property_value_real64
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 8
+  units: bytes
+---
 name: property_value_offset
 type: integer
 attributes:
-- 
2.43.0


From 088804ba0a65c24de85e9bdc7a0e75cc2604d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:22 +0000
Subject: [PATCH 134/211] fix: CIM object records are not included in debug
 output

---
 dtformats/wmi_repository.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index b910d73..b8f0612 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2840,7 +2840,8 @@ class ClassDefinitionReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
+
         self.data = None
         self.offset = None
         self.super_class_name = None
@@ -2906,7 +2907,8 @@ class InstanceReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
+
         self._format_version = format_version
         self.class_name = None
         self.class_name_hash = None
-- 
2.43.0


From 9417065580a51e5267120e219f619ee6c91b2906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:43 +0000
Subject: [PATCH 135/211] fix: CIM qualifier descriptors are reported at a
 wrong offset

---
 dtformats/wmi_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index b8f0612..2bde26f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2592,17 +2592,17 @@ class ClassDefinition(CIMObject):
             )
 
         qualifiers = {}
-        qualifiers_data_offset = 0
+        data_offset = 0
         qualifier_index = 0
 
-        while qualifiers_data_offset < len(qualifiers_data):
-            record_data_offset = qualifiers_data_offset + qualifiers_data_offset
+        while data_offset < len(qualifiers_data):
+            record_data_offset = qualifiers_data_offset + data_offset
             data_type_map = self._GetDataTypeMap("qualifier_descriptor")
 
             context = dtfabric_data_maps.DataTypeMapContext()
 
             qualifier_descriptor = self._ReadStructureFromByteStream(
-                qualifiers_data[qualifiers_data_offset:],
+                qualifiers_data[data_offset:],
                 record_data_offset,
                 data_type_map,
                 "qualifier descriptor",
@@ -2669,7 +2669,7 @@ class ClassDefinition(CIMObject):
             qualifier_name = qualifier_name.lower()
             qualifiers[qualifier_name] = qualifier_value
 
-            qualifiers_data_offset += context.byte_size
+            data_offset += context.byte_size
             qualifier_index += 1
 
         return qualifiers
-- 
2.43.0


From aedc4fe940d8df59f5cc8e01ffb4345a40ff54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:24 +0000
Subject: [PATCH 136/211] fix: CIM repository file instance root node is read
 as class definition root node in debug mode

---
 dtformats/wmi_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2bde26f..b198bb0 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2006,15 +2006,15 @@ class RepositoryFile(data_format.BinaryDataFile):
                 ):
                     if value_node_offset > 40:
                         node_cell = self._ReadNodeCell(
-                            file_object, root_node_offset - 4
+                            file_object, value_node_offset - 4
                         )
-                        root_node = self._ReadClassDefinitionRootNode(
-                            node_cell.data, root_node_offset
+                        class_root_node = self._ReadClassDefinitionRootNode(
+                            node_cell.data, value_node_offset
                         )
-                        if root_node.class_definition_branch_node_offset > 40:
+                        if class_root_node.class_definition_branch_node_offset > 40:
                             self._ReadClassDefinition(
                                 file_object,
-                                root_node.class_definition_branch_node_offset,
+                                class_root_node.class_definition_branch_node_offset,
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-- 
2.43.0


From 1ee350888f95ccfe035dcddd3ee6974f2f2b8ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:24 +0000
Subject: [PATCH 137/211] fix: CIM repository file with missing nodes raises
 AttributeError or TypeError and yields None

---
 dtformats/wmi_repository.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index b198bb0..1a679e6 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1843,7 +1843,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     instance = self._ReadInstance(file_object, value_node_offset)
-                    yield instance
+                    if instance:
+                        yield instance
 
         if root_node.sub_node_offset > 40 and root_node.sub_node_type in (9, 10):
             for value_node_offset in self._ReadChildObjectsTree(
@@ -1901,6 +1902,9 @@ class RepositoryFile(data_format.BinaryDataFile):
         class_definition = self._ReadClassDefinition(
             file_object, root_node.class_definition_branch_node_offset
         )
+        if not class_definition:
+            return None
+
         node_cell = self._ReadNodeCell(
             file_object, instance_branch_node.instance_leaf_node_offset - 4
         )
@@ -1957,7 +1961,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            yield instance
+            if instance:
+                yield instance
 
         if self._debug:
             if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
@@ -2038,7 +2043,11 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            name_property = instance.properties.get("Name")
+            name_property = None
+            if instance:
+                name_property = instance.properties.get("Name")
+            if not name_property:
+                return
 
             namespace_segments = list(parent_namespace_segments)
             namespace_segments.append(name_property)
@@ -2073,7 +2082,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._system_class_definition_root_node_offset > 40:
+        if (self._system_class_definition_root_node_offset or 0) > 40:
             yield from self._ReadClassDefinitionHierarchy(
                 self._file_object, self._system_class_definition_root_node_offset
             )
@@ -2084,7 +2093,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if (self._root_namespace_node_offset or 0) > 40:
             yield from self._ReadInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset
             )
@@ -2095,7 +2104,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if (self._root_namespace_node_offset or 0) > 40:
             yield from self._ReadNamespaceInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset, []
             )
-- 
2.43.0


From e179ea2c8455f5bec4079a8457828b6cedc0c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:24 +0000
Subject: [PATCH 138/211] fix: CIM repository with a missing repository file
 raises AttributeError

---
 dtformats/wmi_repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 1a679e6..aed6e9d 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4358,6 +4358,8 @@ class CIMRepository(data_format.BinaryDataFormat):
             self.format_version = "2.0"
 
             self._repository_file = self._OpenRepositoryFile(path)
+            if not self._repository_file:
+                raise errors.ParseError("Missing repository file.")
         else:
             index_mapping_file = self._OpenMappingFile(path, "index.map")
             if not index_mapping_file:
-- 
2.43.0


From 52e544fb1577165b7d48fa2a0dbb9aed5a7d1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:42 +0000
Subject: [PATCH 139/211] fix: CIM repository file with loops in the node
 hierarchy is read endlessly

---
 dtformats/wmi_repository.py | 84 ++++++++++++++++++++++++++++++++++---
 1 file changed, 79 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index aed6e9d..f596a1f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1099,6 +1099,8 @@ class RepositoryFile(data_format.BinaryDataFile):
         custom_format_callbacks={"offset": "_FormatIntegerAsOffset"},
     )
 
+    _MAXIMUM_HIERARCHY_DEPTH = 256
+
     _DEBUG_INFO_INSTANCE_ROOT_NODE = [
         (
             "child_objects_root_node_offset",
@@ -1133,6 +1135,36 @@ class RepositoryFile(data_format.BinaryDataFile):
         self._root_namespace_node_offset = None
         self._system_class_definition_root_node_offset = None
 
+    def _CheckNodeHierarchy(self, root_node_offset, visited_offsets, depth):
+        """Checks that a node hierarchy contains no loops and is not too deep.
+
+        Args:
+          root_node_offset (int): offset of the root node relative to the start of
+              the file.
+          visited_offsets (set[int]): offsets of the root nodes that have already
+              been read or None if there are none.
+          depth (int): depth of the root node in the hierarchy.
+
+        Returns:
+          set[int]: offsets of the root nodes that have already been read, including
+              the specified root node.
+
+        Raises:
+          ParseError: if the node hierarchy contains a loop or is too deep.
+        """
+        if visited_offsets is None:
+            visited_offsets = set()
+
+        if root_node_offset in visited_offsets:
+            raise errors.ParseError(
+                f"Root node at offset: {root_node_offset:d} already read"
+            )
+        if depth > self._MAXIMUM_HIERARCHY_DEPTH:
+            raise errors.ParseError("Maximum depth of hierarchy exceeded")
+
+        visited_offsets.add(root_node_offset)
+        return visited_offsets
+
     def _ReadChildObjectsList(self, file_object, list_node_offset):
         """Reads a child objects list.
 
@@ -1148,9 +1180,17 @@ class RepositoryFile(data_format.BinaryDataFile):
         list_node = self._ReadChildObjectsListNode(node_cell.data, list_node_offset)
 
         list_element = 1
+        visited_offsets = set()
         next_list_element_node_offset = list_node.first_list_element_node_offset
 
         while next_list_element_node_offset > 40:
+            if next_list_element_node_offset in visited_offsets:
+                raise errors.ParseError(
+                    f"Child objects list element at offset: "
+                    f"{next_list_element_node_offset:d} already read"
+                )
+            visited_offsets.add(next_list_element_node_offset)
+
             if self._debug:
                 self._DebugPrintText(f"Reading list element: {list_element:d}\n")
 
@@ -1801,17 +1841,25 @@ class RepositoryFile(data_format.BinaryDataFile):
           Instance: instance.
         """
 
-    def _ReadClassDefinitionHierarchy(self, file_object, root_node_offset):
+    def _ReadClassDefinitionHierarchy(
+        self, file_object, root_node_offset, visited_offsets=None, depth=0
+    ):
         """Reads the class definition hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          visited_offsets (Optional[set[int]]): offsets of the root nodes that have
+              already been read.
+          depth (Optional[int]): depth of the root node in the hierarchy.
 
         Yields:
           Instance: instance.
         """
+        visited_offsets = self._CheckNodeHierarchy(
+            root_node_offset, visited_offsets, depth
+        )
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadClassDefinitionRootNode(node_cell.data, root_node_offset)
 
@@ -1852,7 +1900,10 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     yield from self._ReadClassDefinitionHierarchy(
-                        file_object, value_node_offset
+                        file_object,
+                        value_node_offset,
+                        visited_offsets=visited_offsets,
+                        depth=depth + 1,
                     )
 
         if self._debug:
@@ -1936,17 +1987,25 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         return instance
 
-    def _ReadInstanceHierarchy(self, file_object, root_node_offset):
+    def _ReadInstanceHierarchy(
+        self, file_object, root_node_offset, visited_offsets=None, depth=0
+    ):
         """Reads an instance hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          visited_offsets (Optional[set[int]]): offsets of the root nodes that have
+              already been read.
+          depth (Optional[int]): depth of the root node in the hierarchy.
 
         Yields:
           Instance: instance.
         """
+        visited_offsets = self._CheckNodeHierarchy(
+            root_node_offset, visited_offsets, depth
+        )
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2002,6 +2061,8 @@ class RepositoryFile(data_format.BinaryDataFile):
                         yield from self._ReadInstanceHierarchy(
                             file_object,
                             instance_leaf_value_node.instance_root_node_offset,
+                            visited_offsets=visited_offsets,
+                            depth=depth + 1,
                         )
 
         if self._debug:
@@ -2023,7 +2084,12 @@ class RepositoryFile(data_format.BinaryDataFile):
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-        self, file_object, root_node_offset, parent_namespace_segments
+        self,
+        file_object,
+        root_node_offset,
+        parent_namespace_segments,
+        visited_offsets=None,
+        depth=0,
     ):
         """Reads a namespace instance hierarchy.
 
@@ -2032,10 +2098,16 @@ class RepositoryFile(data_format.BinaryDataFile):
           root_node_offset (int): offset of the root node relative to the start of
               the file.
           parent_namespace_segments (list[str]): segments of the parent namespace.
+          visited_offsets (Optional[set[int]]): offsets of the root nodes that have
+              already been read.
+          depth (Optional[int]): depth of the root node in the hierarchy.
 
         Yields:
           Instance: instance.
         """
+        visited_offsets = self._CheckNodeHierarchy(
+            root_node_offset, visited_offsets, depth
+        )
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2074,6 +2146,8 @@ class RepositoryFile(data_format.BinaryDataFile):
                                 file_object,
                                 instance_leaf_value_node.instance_root_node_offset,
                                 namespace_segments,
+                                visited_offsets=visited_offsets,
+                                depth=depth + 1,
                             )
 
     def ReadClassDefinitions(self):
@@ -2143,7 +2217,7 @@ class RepositoryFile(data_format.BinaryDataFile):
             node_cell = self._ReadNodeCell(
                 file_object, file_offset, cell_number=cell_number
             )
-            if node_cell.size == 0:
+            if node_cell.size & 0x7FFFFFF == 0:
                 break
 
             if file_header.root_namespace_cell_number == cell_number:
-- 
2.43.0


From abfe9c1c2ad50e4603cda1eed541c1219878490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:23 +0000
Subject: [PATCH 140/211] fix: report the value of WMI qualifiers of type
 uint32

---
 dtformats/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index f596a1f..dd98316 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2714,7 +2714,7 @@ class ClassDefinition(CIMObject):
                 "CIM-TYPE-SINT8",
                 "CIM-TYPE-UINT8",
                 "CIM-TYPE-UINT16",
-                "CIM-TYPE-UINT16",
+                "CIM-TYPE-UINT32",
                 "CIM-TYPE-SINT64",
                 "CIM-TYPE-UINT64",
             ):
-- 
2.43.0


From 654d4faea46f2d59413fca5e13152fadec477fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:48 +0000
Subject: [PATCH 141/211] fix: format unknown1 of a WMI instance branch node as
 an integer

---
 dtformats/wmi_repository.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.debug.yaml b/dtformats/wmi_repository.debug.yaml
index 77296c3..38067d4 100644
--- a/dtformats/wmi_repository.debug.yaml
+++ b/dtformats/wmi_repository.debug.yaml
@@ -310,7 +310,7 @@ attributes:
   format: custom:offset
 - name: unknown1
   description: "Unknown1"
-  format: binary_data
+  format: hexadecimal_8digits
 - name: instance_leaf_node_offset
   description: "Instance leaf node offset"
   format: custom:offset
-- 
2.43.0


From 3229224c32dde38edf530f57c0175d40ce01e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 142/211] fix: do not keep the index mapping table of a
 previously read WMI mapping file

---
 dtformats/wmi_repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index dd98316..0e0dce5 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -874,6 +874,8 @@ class MappingFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._mapping_table2 = None
+
         self._ReadDetermineFormatVersion(file_object)
 
         file_object.seek(0, os.SEEK_SET)
-- 
2.43.0


From df45ad04977f8b85b6911a03f0ddb618134c65e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 143/211] fix: do not change a previously reported task
 configuration when reading another job file

---
 dtformats/job.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/job.py b/dtformats/job.py
index 6910a44..1e9de22 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -193,6 +193,8 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._task_configuration = WindowsTaskConfiguration()
+
         data_section = self._ReadStructureObjectFromFileObject(
             file_object, 0, "job_fixed_length_data_section", "fixed-length data section"
         )
-- 
2.43.0


From d239e08f43f396d6b401cce1c73fbfe7f431fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 144/211] fix: do not keep the ranges of a previously read
 Spotlight streams map offsets file

---
 dtformats/spotlight_storedb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index b409c1f..4045f03 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -359,6 +359,8 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self.ranges = []
+
         data_size = self._number_of_entries * 4
         data = file_object.read(data_size)
 
-- 
2.43.0


From 5a1210cf1fd7c5d230a7ccdf008af1b402ee3307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:32 +0000
Subject: [PATCH 145/211] fix: do not keep the values of a previously read
 Spotlight streams map data file

---
 dtformats/spotlight_storedb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 4045f03..0cb7249 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -218,6 +218,8 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self.stream_values = []
+
         data = file_object.read(self._data_size)
 
         for index, value_range in enumerate(self._ranges):
-- 
2.43.0


From eb359c36d0a3f1325750523da3a963b1616cb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:08 +0000
Subject: [PATCH 146/211] fix: refuse a LevelDB block whose uncompressed data
 does not fit in memory

---
 dtformats/leveldb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 645620c..b7e2d9e 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -527,7 +527,7 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         if block_trailer.compression_type == 1:
             try:
                 block_data = snappy.decompress(block_data)
-            except snappy.UncompressError as exception:
+            except (MemoryError, snappy.UncompressError) as exception:
                 raise errors.ParseError(
                     f"Unable to decompress block data with error: {exception!s}"
                 )
@@ -535,7 +535,7 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         elif block_trailer.compression_type == 2:
             try:
                 block_data = zstd.decompress(block_data)
-            except zstd.Error as exception:
+            except (MemoryError, zstd.Error) as exception:
                 raise errors.ParseError(
                     f"Unable to decompress block data with error: {exception!s}"
                 )
-- 
2.43.0


From 451cb7d7452e2db20aa918a4061d14f23106c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:08 +0000
Subject: [PATCH 147/211] fix: refuse a Spotlight streams map data size that
 does not fit in memory

---
 dtformats/spotlight_storedb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 0cb7249..898bb6c 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -220,7 +220,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         """
         self.stream_values = []
 
-        data = file_object.read(self._data_size)
+        data = self._ReadData(
+            file_object, 0, self._data_size, "stream values data", allow_partial=True
+        )
 
         for index, value_range in enumerate(self._ranges):
             value_offset, value_size = value_range
-- 
2.43.0


From 5f8f4fc374e1a58dc3618a0879b1cb80a0daac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:08 +0000
Subject: [PATCH 148/211] fix: raise OSError when a data range does not fit in
 memory

---
 dtformats/data_range.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index 7596555..cc6526e 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -63,7 +63,11 @@ class DataRange:
 
         self._file_object.seek(self.data_offset + self._current_offset, os.SEEK_SET)
 
-        data = self._file_object.read(size)
+        try:
+            data = self._file_object.read(size)
+        except (MemoryError, OverflowError) as exception:
+            raise OSError(f"Unable to read data with error: {exception!s}")
+
 
         self._current_offset += len(data)
 
-- 
2.43.0


From 2cfd085de2a05379a958681bb9eff90593239d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:23 +0000
Subject: [PATCH 149/211] fix: refuse a number of Spotlight streams map entries
 that does not fit in memory

---
 dtformats/data_range.py        | 1 -
 dtformats/spotlight_storedb.py | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index cc6526e..1878896 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -68,7 +68,6 @@ class DataRange:
         except (MemoryError, OverflowError) as exception:
             raise OSError(f"Unable to read data with error: {exception!s}")
 
-
         self._current_offset += len(data)
 
         return data
diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 898bb6c..f6b4fe7 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -366,7 +366,9 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         self.ranges = []
 
         data_size = self._number_of_entries * 4
-        data = file_object.read(data_size)
+        data = self._ReadData(
+            file_object, 0, data_size, "array of 32-bit offsets", allow_partial=True
+        )
 
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
 
-- 
2.43.0


From 67dc56271a9c2af5190802b758e9a37c9173e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:30 +0000
Subject: [PATCH 150/211] fix: raise OSError when a file to open does not exist
 in a dfVFS file system

---
 dtformats/dfvfs_helpers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dtformats/dfvfs_helpers.py b/dtformats/dfvfs_helpers.py
index 19b1605..3ffc850 100644
--- a/dtformats/dfvfs_helpers.py
+++ b/dtformats/dfvfs_helpers.py
@@ -124,6 +124,9 @@ class DFVFSFileSystemHelper(
 
         Returns:
           file: file-like object of the file.
+
+        Raises:
+          OSError: if the file cannot be opened.
         """
         path_spec = path_spec_factory.Factory.NewPathSpec(
             self._file_system.type_indicator,
@@ -131,7 +134,11 @@ class DFVFSFileSystemHelper(
             parent=self._parent_path_spec,
         )
 
-        return self._file_system.GetFileObjectByPathSpec(path_spec)
+        file_object = self._file_system.GetFileObjectByPathSpec(path_spec)
+        if not file_object:
+            raise OSError(f"Unable to open file: {path:s}")
+
+        return file_object
 
     def OpenFileSystem(self, path_spec):
         """Opens a file system.
-- 
2.43.0


From ca76061b72ee9ff8ca09623d73741fa4cf5a9b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 151/211] fix: locate the Spotlight streams map files with the
 file system helper

---
 dtformats/spotlight_storedb.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index f6b4fe7..f9a7f92 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1,7 +1,6 @@
 """Apple Spotlight store database files."""
 
 import math
-import os
 import zlib
 
 import lz4.block
@@ -1955,8 +1954,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the streams map cannot be read.
         """
-        path = os.path.abspath(self._path)
-        path_segments = self._file_system_helper.SplitPath(path)
+        path_segments = self._file_system_helper.SplitPath(self._path)
 
         path_segments.pop(-1)
         path_segments.append(f"dbStr-{streams_map_number:d}.map.header")
-- 
2.43.0


From 21bde39f9045cc2f145a20afc94151e74dc8a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 152/211] fix: refuse an AMCache file without a root key

---
 dtformats/amcache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index 6af3058..1a260e6 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -268,7 +268,10 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         regf_file.open_file_object(file_object)
 
         root_key = regf_file.get_root_key()
-        root_key_name = root_key.get_name()
+        if not root_key:
+            raise errors.ParseError("Missing root key.")
+
+        root_key_name = root_key.get_name() or ""
         if root_key_name.lower() not in self._ROOT_KEY_NAMES:
             return
 
-- 
2.43.0


From 00912fc63c82b6613af2a204989e5457ef9d65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 153/211] fix: refuse a storage in an automatic destinations
 Jump List

---
 dtformats/jump_list.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index f2a6e60..b838caf 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -110,6 +110,9 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
         if not olecf_item:
             raise errors.ParseError("Missing DestList stream.")
 
+        if not hasattr(olecf_item, "read"):
+            raise errors.ParseError("DestList is not a stream.")
+
         # The DestList stream can be of size 0 if the Jump List is empty.
         if olecf_item.size > 0:
             self._ReadDestListHeader(olecf_item)
@@ -195,6 +198,9 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintText(f"Reading LNK file from stream: {olecf_item.name:s}")
 
+        if not hasattr(olecf_item, "read"):
+            raise errors.ParseError(f"Item: {olecf_item.name!s} is not a stream.")
+
         jump_list_entry = JumpListEntry(olecf_item.name)
 
         try:
-- 
2.43.0


From 29f9635383b489c68015055bafa2d853b9cd8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 154/211] fix: read the version values of a VHDX header

---
 dtformats/vhdx.yaml | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dtformats/vhdx.yaml b/dtformats/vhdx.yaml
index 48ce281..2bcbdac 100644
--- a/dtformats/vhdx.yaml
+++ b/dtformats/vhdx.yaml
@@ -18,6 +18,13 @@ attributes:
   size: 1
   units: bytes
 ---
+name: uint16
+type: integer
+attributes:
+  format: unsigned
+  size: 2
+  units: bytes
+---
 name: uint32
 type: integer
 attributes:
@@ -78,6 +85,10 @@ members:
   type: uuid
 - name: log_identifier
   type: uuid
+- name: log_format_version
+  data_type: uint16
+- name: format_version
+  data_type: uint16
 - name: log_size
   data_type: uint32
 - name: log_offset
-- 
2.43.0


From d39d526e6d9e45e2a298d6146911d72f157e040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 155/211] fix: define the validation time of a Java IDX version
 6.0.2 section

---
 dtformats/java_idx.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/java_idx.yaml b/dtformats/java_idx.yaml
index 6090928..83e2a1d 100644
--- a/dtformats/java_idx.yaml
+++ b/dtformats/java_idx.yaml
@@ -87,6 +87,8 @@ members:
   data_type: uint64
 - name: expiration_time
   data_type: uint64
+- name: validiation_time
+  data_type: uint64
 ---
 name: java_idx_602_section2
 type: structure
-- 
2.43.0


From af5fac48ed949358c600a81a3abd561dbb3005fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:44 +0000
Subject: [PATCH 156/211] fix: define int32 used by the Firefox cache version 2
 definitions

---
 dtformats/firefox_cache2.yaml | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/firefox_cache2.yaml b/dtformats/firefox_cache2.yaml
index 44a0eff..5fd3c4c 100644
--- a/dtformats/firefox_cache2.yaml
+++ b/dtformats/firefox_cache2.yaml
@@ -5,6 +5,13 @@ type: format
 description: Mozilla Firefox cache version 2 file format
 urls: ["https://github.com/libyal/dtformats/blob/main/documentation/Firefox%20cache%20file%20format.asciidoc"]
 ---
+name: int32
+type: integer
+attributes:
+  format: signed
+  size: 4
+  units: bytes
+---
 name: uint32
 type: integer
 attributes:
-- 
2.43.0


From 73bcc6ff425e923e2dd0b3663a00960e89f61837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:03 +0000
Subject: [PATCH 157/211] fix: honour the flags, width and precision of unified
 logging format strings

---
 dtformats/unified_logging.py | 143 +++++++++++++++++++++++++----------
 1 file changed, 101 insertions(+), 42 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 48165ca..d730c63 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -255,6 +255,68 @@ class FormatStringOperator:
         self.specifier = specifier
         self.width = width
 
+    def FormatInteger(self, integer_value):
+        """Formats an integer.
+
+        Args:
+          integer_value (int): integer.
+
+        Returns:
+          str: formatted integer.
+        """
+        flags = self.flags or ""
+        precision = self.precision or ""
+        width = self.width or ""
+
+        python_specifier = self._PYTHON_SPECIFIERS.get(self.specifier, self.specifier)
+
+        precision_value = None
+        if precision and precision != ".*":
+            precision_value = int(precision[1:] or "0", 10)
+
+        prefix = ""
+        if python_specifier == "c":
+            # Note that the value of specifier "c" is converted to an unsigned char.
+            if self.specifier == "c":
+                integer_value &= 0xFF
+            elif integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
+
+            string = chr(integer_value)
+
+        else:
+            string = f"{abs(integer_value):{python_specifier:s}}"
+            if precision_value is not None:
+                string = string.zfill(precision_value)
+                if integer_value == 0 and precision_value == 0:
+                    string = ""
+
+            if self.specifier == "p" or (
+                python_specifier in ("x", "X") and "#" in flags and integer_value
+            ):
+                prefix = f"0{python_specifier:s}"
+            elif python_specifier == "o":
+                if "#" in flags and string[:1] != "0":
+                    string = f"0{string:s}"
+            elif integer_value < 0:
+                prefix = "-"
+            elif self.specifier in ("d", "D", "i"):
+                if "+" in flags:
+                    prefix = "+"
+                elif " " in flags:
+                    prefix = " "
+
+        if width and width != "*":
+            width_value = int(width, 10)
+            if "-" in flags:
+                string = string.ljust(width_value - len(prefix))
+            elif "0" in flags and precision_value is None and python_specifier != "c":
+                string = string.zfill(width_value - len(prefix))
+            else:
+                return f"{prefix:s}{string:s}".rjust(width_value)
+
+        return f"{prefix:s}{string:s}"
+
     def GetPythonFormatString(self):
         """Retrieves the Python format string.
 
@@ -285,8 +347,26 @@ class FormatStringOperator:
             elif precision == ".*":
                 precision = ""
 
-            if python_specifier in ("d", "o", "x", "X"):
-                flags = flags.replace("-", "<")
+            # Prevent: "ValueError: Invalid format specifier"
+            if width == "*":
+                width = ""
+
+            # Note that the flags can be in any order and that Python requires the
+            # alignment before the sign, the alternate form and the zero padding.
+            python_flags = "<" if "-" in flags else ""
+            if python_specifier not in ("c", "s"):
+                if "+" in flags:
+                    python_flags = f"{python_flags:s}+"
+                elif " " in flags:
+                    python_flags = f"{python_flags:s} "
+                if "#" in flags:
+                    python_flags = f"{python_flags:s}#"
+                if "0" in flags and "-" not in flags:
+                    python_flags = f"{python_flags:s}0"
+
+            flags = python_flags
+
+            if python_specifier in ("c", "d", "o", "x", "X"):
 
                 # Prevent: "ValueError: Precision not allowed in integer format
                 # specifier"
@@ -295,8 +375,6 @@ class FormatStringOperator:
             elif python_specifier == "s":
                 if width and not flags:
                     flags = ">"
-                else:
-                    flags = flags.replace("-", "<")
 
                 # Prevent: "%.0s" formatting as an empty string.
                 if precision == ".0":
@@ -304,11 +382,11 @@ class FormatStringOperator:
 
             if self.specifier == "p":
                 self._format_string = (
-                    f"0x{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
+                    f"0x{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
             else:
                 self._format_string = (
-                    f"{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
+                    f"{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
 
         return self._format_string
@@ -459,7 +537,11 @@ class StringFormatter:
                 decoder_names = [
                     value
                     for value in decoder_names
-                    if (value not in self._DECODERS_TO_IGNORE and value[:5] != "name=")
+                    if (
+                    value not in self._DECODERS_TO_IGNORE
+                    and value[:5] != "name="
+                    and value[:9] != "internal:"
+                )
                 ]
                 if not decoder_names:
                     internal_decoder = self._INTERNAL_DECODERS.get(specifier)
@@ -1549,11 +1631,9 @@ class SignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
         integer_value = int.from_bytes(value, "little", signed=True)
 
         if format_string_operator:
-            format_string = format_string_operator.GetPythonFormatString()
-        else:
-            format_string = "{0:d}"
+            return format_string_operator.FormatInteger(integer_value)
 
-        return format_string.format(integer_value)
+        return f"{integer_value:d}"
 
 
 class SignpostDescriptionAttributeFormatStringDecoder(BaseFormatStringDecoder):
@@ -1593,12 +1673,9 @@ class SignpostDescriptionAttributeFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            string_value = f"{integer_value:d}"
             if format_string_operator:
-                format_string = format_string_operator.GetPythonFormatString()
-            else:
-                format_string = "{0:d}"
-
-            string_value = format_string.format(integer_value)
+                string_value = format_string_operator.FormatInteger(integer_value)
 
         elif specifier in ("d", "D", "i", "m"):
             if value_size not in (1, 2, 4, 8):
@@ -1606,12 +1683,9 @@ class SignpostDescriptionAttributeFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=True)
 
+            string_value = f"{integer_value:d}"
             if format_string_operator:
-                format_string = format_string_operator.GetPythonFormatString()
-            else:
-                format_string = "{0:d}"
-
-            string_value = format_string.format(integer_value)
+                string_value = format_string_operator.FormatInteger(integer_value)
 
         elif specifier in ("@", "s", "S"):
             try:
@@ -1731,12 +1805,9 @@ class SignpostTelemetryNumberFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            string_value = f"{integer_value:d}"
             if format_string_operator:
-                format_string = format_string_operator.GetPythonFormatString()
-            else:
-                format_string = "{0:d}"
-
-            string_value = format_string.format(integer_value)
+                string_value = format_string_operator.FormatInteger(integer_value)
 
         elif specifier in ("d", "D", "i", "m"):
             if value_size not in (1, 2, 4, 8):
@@ -1744,12 +1815,9 @@ class SignpostTelemetryNumberFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=True)
 
+            string_value = f"{integer_value:d}"
             if format_string_operator:
-                format_string = format_string_operator.GetPythonFormatString()
-            else:
-                format_string = "{0:d}"
-
-            string_value = format_string.format(integer_value)
+                string_value = format_string_operator.FormatInteger(integer_value)
 
         elif specifier in ("@", "s", "S"):
             try:
@@ -1918,18 +1986,9 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
         integer_value = int.from_bytes(value, "little", signed=False)
 
         if format_string_operator:
-            if (
-                integer_value == 0
-                and format_string_operator.flags == "#"
-                and format_string_operator.specifier == "x"
-            ):
-                return f"{integer_value:x}"
-
-            format_string = format_string_operator.GetPythonFormatString()
-        else:
-            format_string = "{0:d}"
+            return format_string_operator.FormatInteger(integer_value)
 
-        return format_string.format(integer_value)
+        return f"{integer_value:d}"
 
 
 class UUIDFormatStringDecoder(BaseFormatStringDecoder):
-- 
2.43.0


From 7a22f5d4bc22ce5ad34bc51d6be4766947ac3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:03 +0000
Subject: [PATCH 158/211] fix: look up negative Darwin error codes in unified
 logging messages

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index d730c63..d64bed5 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -666,7 +666,7 @@ class ErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         return darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
@@ -690,7 +690,7 @@ class ExtendedErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         error_message = darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
-- 
2.43.0


From 78c2ce24004c646828e7d0f9a9135cf67e11f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:03 +0000
Subject: [PATCH 159/211] fix: format DNS flags without set flags in unified
 logging messages

---
 dtformats/unified_logging.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index d64bed5..e6bc717 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1182,16 +1182,14 @@ class BaseMDNSDNSStructureFormatStringDecoder(
             if flags & bitmask:
                 flag_names.append(name)
 
-        flag_names = ", ".join(flag_names)
 
         operation = (flags & self._OPERATION_BITMASK) >> 11
         operation_name = self._OPERATION_NAMES.get(operation, "?")
 
         query_or_response = "R" if flags & self._RESPONSE_OR_QUERY_BITMASK else "Q"
 
-        return (
-            f"{query_or_response:s}/{operation_name:s}, {flag_names:s}, "
-            f"{reponse_code:s}"
+        return ", ".join(
+            [f"{query_or_response:s}/{operation_name:s}", *flag_names, reponse_code]
         )
 
 
-- 
2.43.0


From 0b0217e9b0cc9c79dfea5756054fbbbe6c4781ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:03 +0000
Subject: [PATCH 160/211] fix: decode unified logging values of an unexpected
 size as unsupported

---
 dtformats/unified_logging.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index e6bc717..01cbb68 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1556,9 +1556,12 @@ class OpenDirectoryMembershipDetailsFormatStringDecoder(
 
         data_type_map = self._GetDataTypeMap(data_type_map_name)
 
-        membership_details = self._ReadStructureFromByteStream(
-            value[1:], 1, data_type_map, "Membership details"
-        )
+        try:
+            membership_details = self._ReadStructureFromByteStream(
+                value[1:], 1, data_type_map, "Membership details"
+            )
+        except errors.ParseError:
+            return "<decode: unsupported value>"
         if data_type_map_name == "membership_details_with_name":
             return (
                 f"{type_name:s}: {membership_details.name:s}@"
@@ -2003,6 +2006,9 @@ class UUIDFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted UUID value.
         """
+        if len(value) != 16:
+            return "<decode: unsupported value>"
+
         uuid_value = uuid.UUID(bytes=value)
         return f"{uuid_value!s}".upper()
 
@@ -2032,9 +2038,12 @@ class WindowsNTSecurityIdentifierFormatStringDecoder(
 
         data_type_map = self._GetDataTypeMap("windows_nt_security_identifier")
 
-        security_identifier = self._ReadStructureFromByteStream(
-            value, 0, data_type_map, "Windows NT security identifier (SID)"
-        )
+        try:
+            security_identifier = self._ReadStructureFromByteStream(
+                value, 0, data_type_map, "Windows NT security identifier (SID)"
+            )
+        except errors.ParseError:
+            return "<decode: unsupported value>"
         authority = security_identifier.authority_lower | (
             security_identifier.authority_upper << 32
         )
-- 
2.43.0


From 2bd4e5fb09963ba41f4b365ebb7990fc32a55ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:39 +0000
Subject: [PATCH 161/211] fix: decode negative and out of bounds time_t values
 in unified logging messages

---
 dtformats/unified_logging.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 01cbb68..191d4f8 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -628,7 +628,9 @@ class BooleanFormatStringDecoder(BaseFormatStringDecoder):
         return self._false_value
 
 
-class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
+class DateTimeInSecondsFormatStringDecoder(
+    BaseFormatStringDecoder, data_format.BinaryDataFormat
+):
     """Date and time value in seconds format string decoder."""
 
     def FormatValue(self, value, format_string_operator=None):
@@ -643,7 +645,13 @@ class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted date and time value in seconds.
         """
-        integer_value = int.from_bytes(value, "little", signed=False)
+        if len(value) not in (4, 8):
+            return "<decode: unsupported value>"
+
+        integer_value = int.from_bytes(value, "little", signed=True)
+
+        if not self._CheckPosixTime(integer_value):
+            return "<decode: unsupported value>"
 
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer_value)
         return date_time.CopyToDateTimeString()
-- 
2.43.0


From 72b03a4d38b99595fefc58bcb6aae73d4904765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:39 +0000
Subject: [PATCH 162/211] fix: format IPv6 socket addresses in unified logging
 messages

---
 dtformats/unified_logging.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 191d4f8..2b38b82 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3,6 +3,7 @@
 import abc
 import base64
 import collections
+import ipaddress
 import os
 import re
 import struct
@@ -1927,17 +1928,7 @@ class SocketAddressFormatStringDecoder(BaseFormatStringDecoder):
             if address_family == 30 and value_size == 28:
                 ipv6_address = value[8:24]
                 # Note that socket.inet_ntop() is not supported on Windows.
-                octet_pairs = zip(ipv6_address[0::2], ipv6_address[1::2])
-                octet_pairs = [octet1 << 8 | octet2 for octet1, octet2 in octet_pairs]
-                string_segments = [
-                    f"{octet_pair:04x}" if octet_pair else ""
-                    for octet_pair in octet_pairs
-                ]
-                ip_string = ":".join(string_segments)
-                # TODO: find a more elegant solution.
-                if ip_string == ":::::::":
-                    ip_string = "::"
-                return ip_string
+                return str(ipaddress.IPv6Address(ipv6_address))
 
         return "<decode: unsupported value>"
 
-- 
2.43.0


From 18275c637922cb07425352b3f05713017f824db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:10 +0000
Subject: [PATCH 163/211] fix: format a security identifier without sub
 authorities in unified logging messages

---
 dtformats/unified_logging.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 2b38b82..ca4b667 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2046,16 +2046,15 @@ class WindowsNTSecurityIdentifierFormatStringDecoder(
         authority = security_identifier.authority_lower | (
             security_identifier.authority_upper << 32
         )
-        sub_authorities = "-".join(
+        sub_authorities = [
+            f"{sub_authority:d}" for sub_authority in security_identifier.sub_authorities
+        ]
+        return "-".join(
             [
-                f"{sub_authority:d}"
-                for sub_authority in security_identifier.sub_authorities
+                f"S-{security_identifier.revision_number}-{authority:d}",
+                *sub_authorities,
             ]
         )
-        return (
-            f"S-{security_identifier.revision_number}-"
-            f"{authority:d}-{sub_authorities:s}"
-        )
 
 
 class DSCFile(data_format.BinaryDataFile):
-- 
2.43.0


From da81cff711cd8a0f586d43cae918a62d3e61e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:36 +0000
Subject: [PATCH 164/211] fix: treat unsupported and missing unified logging
 data item values the same without debug output

---
 dtformats/unified_logging.py | 44 ++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index ca4b667..4be9453 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2551,6 +2551,17 @@ class TraceV3File(data_format.BinaryDataFile):
     _DATA_ITEM_PRIVATE_VALUE_TYPES = (0x01, 0x21, 0x25, 0x31, 0x35, 0x41, 0x45)
     _DATA_ITEM_STRING_VALUE_TYPES = (0x20, 0x22, 0x40, 0x42)
 
+    _DATA_ITEM_VALUE_TYPES = frozenset(
+        [
+            *_DATA_ITEM_BINARY_DATA_VALUE_TYPES,
+            *_DATA_ITEM_NUMERIC_VALUE_TYPES,
+            *_DATA_ITEM_PRECISION_VALUE_TYPES,
+            *_DATA_ITEM_PRIVATE_VALUE_TYPES,
+            *_DATA_ITEM_STRING_VALUE_TYPES,
+            0x72,
+        ]
+    )
+
     _FLAG_HAS_ACTIVITY_IDENTIFIER = 0x0001
     _FLAG_HAS_LARGE_OFFSET = 0x0020
     _FLAG_HAS_PRIVATE_STRINGS_RANGE = 0x0100
@@ -3911,31 +3922,11 @@ class TraceV3File(data_format.BinaryDataFile):
                 debug_info = self._DEBUG_INFORMATION.get("tracev3_data_item")
                 self._DebugPrintStructureObject(data_item, debug_info)
 
-                if data_item.value_type not in (
-                    0x00,
-                    0x01,
-                    0x02,
-                    0x10,
-                    0x12,
-                    0x20,
-                    0x21,
-                    0x22,
-                    0x25,
-                    0x30,
-                    0x31,
-                    0x32,
-                    0x35,
-                    0x40,
-                    0x41,
-                    0x42,
-                    0x45,
-                    0x72,
-                    0xF2,
-                ):
-                    raise errors.ParseError(
-                        f"Unsupported data item value type: "
-                        f"0x{data_item.value_type:02x}."
-                    )
+            if data_item.value_type not in self._DATA_ITEM_VALUE_TYPES:
+                raise errors.ParseError(
+                    f"Unsupported data item value type: "
+                    f"0x{data_item.value_type:02x}."
+                )
 
             if data_item.value_type in self._DATA_ITEM_PRECISION_VALUE_TYPES:
                 precision = int.from_bytes(value_data, "little", signed=False)
@@ -3946,6 +3937,9 @@ class TraceV3File(data_format.BinaryDataFile):
                 if not value_data:
                     value = "<private>"
 
+            elif value_data is None:
+                value = "<decode: missing data>"
+
             if not value:
                 value = self._DecodeValue(
                     string_formatter, value_index, value_data, precision=precision
-- 
2.43.0


From 655ae1b47f16cdf4ac0b09b97ccfed0635835aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:36 +0000
Subject: [PATCH 165/211] fix: apply the precision stored in the data of a
 unified logging message

---
 dtformats/unified_logging.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 4be9453..4f78565 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2889,10 +2889,22 @@ class TraceV3File(data_format.BinaryDataFile):
         if not decoder_object:
             return f"<decode: unsupported decoder: {decoder_names[0]:s}>"
 
-        # TODO: add support for precision
-        _ = precision
-
         format_string_operator = string_formatter.GetFormatStringOperator(value_index)
+
+        if format_string_operator and format_string_operator.precision == ".*":
+            # Note that a negative precision is treated as if it were omitted.
+            if precision is None or precision < 0:
+                precision_string = None
+            else:
+                precision_string = f".{precision:d}"
+
+            format_string_operator = FormatStringOperator(
+                flags=format_string_operator.flags,
+                precision=precision_string,
+                specifier=format_string_operator.specifier,
+                width=format_string_operator.width,
+            )
+
         return decoder_object.FormatValue(
             value_data, format_string_operator=format_string_operator
         )
@@ -3929,7 +3941,7 @@ class TraceV3File(data_format.BinaryDataFile):
                 )
 
             if data_item.value_type in self._DATA_ITEM_PRECISION_VALUE_TYPES:
-                precision = int.from_bytes(value_data, "little", signed=False)
+                precision = int.from_bytes(value_data, "little", signed=True)
                 continue
 
             value = None
-- 
2.43.0


From 53d4ce162d253aa84817a71f481b108dd1491b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 166/211] fix: refuse a width or precision in a unified logging
 format string that exhausts memory

---
 dtformats/unified_logging.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 4f78565..9c4d2a9 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -240,6 +240,10 @@ class FormatStringOperator:
         "U": "d",
     }
 
+    # The maximum width and precision, which is the maximum size of the data of
+    # a tracepoint.
+    _MAXIMUM_SIZE = 65535
+
     def __init__(self, flags=None, precision=None, specifier=None, width=None):
         """Initializes a format string operator.
 
@@ -392,6 +396,19 @@ class FormatStringOperator:
 
         return self._format_string
 
+    def IsSupported(self):
+        """Determines if the width and precision are supported.
+
+        Returns:
+          bool: True if the width and precision do not exceed the maximum.
+        """
+        for value in (self.width, (self.precision or "")[1:]):
+            if value and value != "*":
+                if len(value) > 9 or int(value, 10) > self._MAXIMUM_SIZE:
+                    return False
+
+        return True
+
 
 class StringFormatter:
     """String formatter."""
@@ -2905,6 +2922,9 @@ class TraceV3File(data_format.BinaryDataFile):
                 width=format_string_operator.width,
             )
 
+        if format_string_operator and not format_string_operator.IsSupported():
+            return "<decode: unsupported value>"
+
         return decoder_object.FormatValue(
             value_data, format_string_operator=format_string_operator
         )
-- 
2.43.0


From e19853a44a1a8eace12175c23d69d2f55dae76c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 167/211] fix: read the private data of a unified logging
 oversize chunk after its data items

---
 dtformats/unified_logging.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 9c4d2a9..5daefce 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2687,6 +2687,9 @@ class TraceV3File(data_format.BinaryDataFile):
 
     _NANOSECONDS_PER_SECOND = 1000000000
 
+    # Size of the part of the oversize chunk before the number of data items.
+    _OVERSIZE_CHUNK_HEADER_SIZE = 32
+
     ACTIVITY_IDENTIFIER_BITMASK = (1 << 63) - 1
 
     def __init__(
@@ -4762,11 +4765,13 @@ class TraceV3File(data_format.BinaryDataFile):
             self._DebugPrintStructureObject(oversize_chunk, debug_info)
 
         data_offset = context.byte_size
-        data_size = data_offset + oversize_chunk.data_size
+
+        # Note that the data size includes the data items.
+        data_size = self._OVERSIZE_CHUNK_HEADER_SIZE + oversize_chunk.data_size
         oversize_chunk.values_data = chunk_data[data_offset:data_size]
 
-        data_offset += oversize_chunk.data_size
-        data_size = data_offset + oversize_chunk.private_data_size
+        data_offset = data_size
+        data_size += oversize_chunk.private_data_size
         oversize_chunk.private_data = chunk_data[data_offset:data_size]
 
         if self._debug and data_size < chunk_data_size:
-- 
2.43.0


From 5e9f1df33ce4c9820d911fde7e5ebdbf4ed2fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:42 +0000
Subject: [PATCH 168/211] fix: read a unified logging firehose chunk without
 log records

---
 dtformats/unified_logging.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 5daefce..14218e7 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4034,6 +4034,15 @@ class TraceV3File(data_format.BinaryDataFile):
                     f"catalog"
                 )
 
+        private_data_virtual_offset = (
+            firehose_header.private_data_virtual_offset & 0x0FFF
+        )
+        if not private_data_virtual_offset:
+            firehose_private_data = b""
+        else:
+            private_data_size = 4096 - private_data_virtual_offset
+            firehose_private_data = chunk_data[-private_data_size:]
+
         chunk_data_offset = 32
         while chunk_data_offset < firehose_header.public_data_size:
             if self._debug:
@@ -4216,21 +4225,12 @@ class TraceV3File(data_format.BinaryDataFile):
                         tracepoint_data_object, values_data, string_formatter
                     )
                 else:
-                    private_data_virtual_offset = (
-                        firehose_header.private_data_virtual_offset & 0x0FFF
-                    )
-                    if not private_data_virtual_offset:
-                        private_data = b""
-                    else:
-                        private_data_size = 4096 - private_data_virtual_offset
-                        private_data = chunk_data[-private_data_size:]
-
                     data_items, values_data, private_data = (
                         self._GetDataItemsAndValuesData(
                             proc_id,
                             tracepoint_data_object,
                             values_data,
-                            private_data,
+                            firehose_private_data,
                             oversize_chunks,
                         )
                     )
@@ -4393,7 +4393,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
             chunk_data_offset += alignment
 
-        private_data_size = len(private_data)
+        private_data_size = len(firehose_private_data)
         if private_data_size:
             chunk_data_size -= private_data_size
 
-- 
2.43.0


From 8346c99feeb971aa5ecd0ad28869637fea153d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 169/211] fix: cache unified logging image values by everything
 they are determined by

---
 dtformats/unified_logging.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 14218e7..86a4242 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3307,13 +3307,24 @@ class TraceV3File(data_format.BinaryDataFile):
 
         uuid_string = strings_file_identifier.hex.upper()
 
-        lookup_key = f"{uuid_string:s}:0x{string_reference:x}"
+        large_offset_data = (
+            getattr(tracepoint_data_object, "large_offset_data", None) or 0
+        )
+        large_shared_cache_data = (
+            getattr(tracepoint_data_object, "large_shared_cache_data", None) or 0
+        )
+
+        lookup_key = (
+            uuid_string,
+            strings_file_type in self._UUIDTEXT_STRINGS_FILE_TYPES,
+            string_reference,
+            is_dynamic,
+            image_text_offset,
+            large_offset_data,
+            large_shared_cache_data,
+        )
         image_values = self._cached_image_values.get(lookup_key)
         if not image_values:
-            large_offset_data = (
-                getattr(tracepoint_data_object, "large_offset_data", None) or 0
-            )
-
             if strings_file_type in self._UUIDTEXT_STRINGS_FILE_TYPES:
                 image_values = ImageValues(
                     identifier=strings_file_identifier, text_offset=image_text_offset
@@ -3341,9 +3352,6 @@ class TraceV3File(data_format.BinaryDataFile):
                         text_offset=image_text_offset,
                     )
 
-                large_shared_cache_data = getattr(
-                    tracepoint_data_object, "large_shared_cache_data", None
-                )
                 if large_offset_data and large_shared_cache_data:
                     calculated_large_offset_data = large_shared_cache_data >> 1
                     if large_offset_data != calculated_large_offset_data:
-- 
2.43.0


From 90fd4f6aacdf0ef7a18759bc9d628a131d115e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 170/211] fix: look up unified logging strings and images
 before the end of their range

---
 dtformats/unified_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 86a4242..f43c984 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2318,7 +2318,7 @@ class DSCFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - range_offset
-            if relative_offset <= range_size:
+            if relative_offset < range_size:
                 if is_dynamic:
                     string = "%s"
                 else:
@@ -3282,7 +3282,7 @@ class TraceV3File(data_format.BinaryDataFile):
                 ):
                     continue
 
-                if load_address_lower <= (
+                if load_address_lower < (
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
@@ -5351,7 +5351,7 @@ class UUIDTextFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - entry_descriptor.offset
-            if relative_offset <= entry_descriptor.data_size:
+            if relative_offset < entry_descriptor.data_size:
                 file_offset += relative_offset
                 return self._ReadString(self._file_object, file_offset)
 
-- 
2.43.0


From c29ab97341b4890a1b35c3b21ba9050f4f0913c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:55 +0000
Subject: [PATCH 171/211] fix: handle missing and out of bounds UUIDs of a
 unified logging catalog

---
 dtformats/unified_logging.py | 53 ++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index f43c984..2b18b89 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2745,15 +2745,12 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
 
         for process_information_entry in catalog.process_information_entries:
-            if process_information_entry.main_uuid_index >= 0:
-                process_information_entry.main_uuid = catalog.uuids[
-                    process_information_entry.main_uuid_index
-                ]
-
-            if process_information_entry.dsc_uuid_index >= 0:
-                process_information_entry.dsc_uuid = catalog.uuids[
-                    process_information_entry.dsc_uuid_index
-                ]
+            process_information_entry.main_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.main_uuid_index
+            )
+            process_information_entry.dsc_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.dsc_uuid_index
+            )
 
             if self._debug:
                 for sub_system_entry in process_information_entry.sub_system_entries:
@@ -3168,6 +3165,28 @@ class TraceV3File(data_format.BinaryDataFile):
 
         return strings_map
 
+    def _GetCatalogUUID(self, catalog, uuid_index):
+        """Retrieves an UUID from the catalog.
+
+        Args:
+          catalog (tracev3_catalog): catalog.
+          uuid_index (int): index of the UUID, where a negative index represents
+              no UUID.
+
+        Returns:
+          uuid.UUID: UUID or None if not available.
+
+        Raises:
+          ParseError: if the UUID index is out of bounds.
+        """
+        if uuid_index < 0:
+            return None
+
+        try:
+            return catalog.uuids[uuid_index]
+        except IndexError:
+            raise errors.ParseError(f"Catalog UUID index: {uuid_index:d} out of bounds")
+
     def _GetDataItemsAndValuesData(
         self,
         proc_id,
@@ -3266,16 +3285,20 @@ class TraceV3File(data_format.BinaryDataFile):
         image_text_offset = 0
 
         if strings_file_type == 0x0002:
-            strings_file_identifier = process_information_entry.main_uuid
+            strings_file_identifier = getattr(
+                process_information_entry, "main_uuid", None
+            )
 
         if strings_file_type in (0x0004, 0x000C):
-            strings_file_identifier = process_information_entry.dsc_uuid
+            strings_file_identifier = getattr(
+                process_information_entry, "dsc_uuid", None
+            )
 
         if strings_file_type == 0x0008:
             load_address_upper = tracepoint_data_object.load_address_upper or 0
             load_address_lower = tracepoint_data_object.load_address_lower
 
-            for uuid_entry in process_information_entry.uuid_entries:
+            for uuid_entry in getattr(process_information_entry, "uuid_entries", []):
                 if (
                     load_address_upper != uuid_entry.load_address_upper
                     or load_address_lower < uuid_entry.load_address_lower
@@ -3286,9 +3309,9 @@ class TraceV3File(data_format.BinaryDataFile):
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
-                        strings_file_identifier = self._catalog.uuids[
-                            uuid_entry.uuid_index
-                        ]
+                        strings_file_identifier = self._GetCatalogUUID(
+                            self._catalog, uuid_entry.uuid_index
+                        )
 
                     image_text_offset = uuid_entry.load_address_lower | (
                         uuid_entry.load_address_upper << 32
-- 
2.43.0


From 952d75d1552ead361b25fa0e319851ad04c7c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:55 +0000
Subject: [PATCH 172/211] fix: handle a unified logging signpost name that
 cannot be resolved

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 2b18b89..8ceef45 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4394,7 +4394,7 @@ class TraceV3File(data_format.BinaryDataFile):
                             name_string_reference,
                             is_dynamic,
                         )
-                        name_string = name_image_values.string
+                        name_string = getattr(name_image_values, "string", None)
 
                     log_entry.signpost_identifier = getattr(
                         tracepoint_data_object, "signpost_identifier", None
-- 
2.43.0


From 9063a47ed37a821fd8faf447e31a9fa74bf9f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:51 +0000
Subject: [PATCH 173/211] fix: refuse a unified logging timebase denominator of
 zero

---
 dtformats/unified_logging.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 8ceef45..0a086dd 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5015,6 +5015,11 @@ class TraceV3File(data_format.BinaryDataFile):
                     self._timesync_boot_record = record
 
         if self._timesync_boot_record:
+            if not self._timesync_boot_record.timebase_denominator:
+                raise errors.ParseError(
+                    "Invalid timesync timebase denominator value out of bounds"
+                )
+
             self._timesync_timebase = (
                 self._timesync_boot_record.timebase_numerator
                 / self._timesync_boot_record.timebase_denominator
@@ -5123,6 +5128,9 @@ class TraceV3File(data_format.BinaryDataFile):
 
         file_object.seek(file_offset, os.SEEK_SET)
 
+        if not header_chunk.timebase_denominator:
+            raise errors.ParseError("Invalid timebase denominator value out of bounds")
+
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
         self._header_timebase = (
             header_chunk.timebase_numerator / header_chunk.timebase_denominator
-- 
2.43.0


From 6ddc09729ee164f0dc38164284bbd2a2c993f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:42 +0000
Subject: [PATCH 174/211] fix: refuse a timesync record size that is too small

---
 dtformats/unified_logging.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 0a086dd..9eed425 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2472,9 +2472,13 @@ class TimesyncDatabaseFile(data_format.BinaryDataFile):
         file_offset = 0
 
         while file_offset < self._file_size:
-            record, _ = self._ReadRecord(self._file_object, file_offset)
-            yield record
+            record, bytes_read = self._ReadRecord(self._file_object, file_offset)
+            if record.record_size < bytes_read:
+                raise errors.ParseError(
+                    f"Invalid record size: {record.record_size:d} value out of bounds"
+                )
 
+            yield record
             file_offset += record.record_size
 
 
-- 
2.43.0


From 45f37c7056d1d8a1e6999dc139194cac64291b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:42 +0000
Subject: [PATCH 175/211] fix: close the timesync database files read for a
 tracev3 file

---
 dtformats/unified_logging.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 9eed425..b455f4e 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5005,18 +5005,24 @@ class TraceV3File(data_format.BinaryDataFile):
                 continue
 
             timesync_file = self._OpenTimesyncDatabaseFile(directory_entry)
+            if not timesync_file:
+                continue
+
+            try:
+                for record in timesync_file.ReadRecords():
+                    record_boot_identifier = getattr(record, "boot_identifier", None)
 
-            for record in timesync_file.ReadRecords():
-                record_boot_identifier = getattr(record, "boot_identifier", None)
+                    if self._timesync_boot_record:
+                        if record_boot_identifier:
+                            break
 
-                if self._timesync_boot_record:
-                    if record_boot_identifier:
-                        break
+                        self._timesync_sync_records.append(record)
 
-                    self._timesync_sync_records.append(record)
+                    elif record_boot_identifier == boot_identifier:
+                        self._timesync_boot_record = record
 
-                elif record_boot_identifier == boot_identifier:
-                    self._timesync_boot_record = record
+            finally:
+                timesync_file.Close()
 
         if self._timesync_boot_record:
             if not self._timesync_boot_record.timebase_denominator:
-- 
2.43.0


From 72c1f281e41535a98e82e84bb779c01697f5c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:42 +0000
Subject: [PATCH 176/211] fix: read a tracev3 file independent of what was read
 before

---
 dtformats/unified_logging.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index b455f4e..e16398c 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2726,6 +2726,7 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_strings_map = {}
         self._chunk_index = 0
         self._error_on_warning = error_on_warning
+        self._first_chunk_offset = 0
         self._header_timebase = 1.0
         self._header_timestamp = 0
         self._sorted_timesync_sync_records = []
@@ -4988,8 +4989,10 @@ class TraceV3File(data_format.BinaryDataFile):
         Args:
           boot_identifier (str): boot identifier (UUID).
         """
+        self._sorted_timesync_sync_records = []
         self._timesync_boot_record = None
         self._timesync_sync_records = []
+        self._timesync_timebase = 1.0
 
         if not self._timesync_path:
             return
@@ -5047,6 +5050,8 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           OSError: if the file is not opened.
         """
+        super().Close()
+
         for dsc_file in self._cached_dsc_files.values():
             if dsc_file:
                 dsc_file.Close()
@@ -5055,7 +5060,9 @@ class TraceV3File(data_format.BinaryDataFile):
             if uuidtext_file:
                 uuidtext_file.Close()
 
-        super().Close()
+        self._cached_dsc_files.clear()
+        self._cached_image_values.clear()
+        self._cached_uuidtext_files.clear()
 
     def ReadFileObject(self, file_object):
         """Reads a tracev3 file-like object.
@@ -5071,6 +5078,9 @@ class TraceV3File(data_format.BinaryDataFile):
         # * in ../ for *.logarchive/logdata.LiveData.tracev3
         # * in ../../ for .logarchive/*/*.tracev3
         # * in ../../uuidtext/ for /private/var/db/diagnostics/*/*.tracev3
+        self._timesync_path = None
+        self._uuidtext_path = None
+
         path_segments = self._file_system_helper.SplitPath(self._path)
 
         # Remove the filename from the path.
@@ -5136,7 +5146,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
         file_offset += alignment
 
-        file_object.seek(file_offset, os.SEEK_SET)
+        self._first_chunk_offset = file_offset
 
         if not header_chunk.timebase_denominator:
             raise errors.ParseError("Invalid timebase denominator value out of bounds")
@@ -5198,10 +5208,13 @@ class TraceV3File(data_format.BinaryDataFile):
 
             yield log_entry
 
-        file_offset = self._file_object.tell()
+        self._catalog = None
+        self._catalog_process_information_entries = {}
+        self._catalog_strings_map = {}
+        self._chunk_index = 2
 
+        file_offset = self._first_chunk_offset
         oversize_chunks = {}
-
         while file_offset < self._file_size:
             if self._debug:
                 self._DebugPrintText(f"Chunk: {self._chunk_index:d}\n")
-- 
2.43.0


From d65462343c82b2f07ddaeea41f49fe7835fda245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:42 +0000
Subject: [PATCH 177/211] fix: find the strings and timesync files of a tracev3
 file in a root or log archive directory

---
 dtformats/unified_logging.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index e16398c..31e8f6b 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5086,23 +5086,12 @@ class TraceV3File(data_format.BinaryDataFile):
         # Remove the filename from the path.
         path_segments.pop(-1)
 
-        lower_last_path_segment = path_segments[-1].lower()
-        if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
-
-        if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
-
-        if lower_last_path_segment.endswith(".logarchive"):
-            path_segments.append("dsc")
-            dsc_path = self._file_system_helper.JoinPath(path_segments)
-            if self._file_system_helper.CheckFileExistsByPath(dsc_path):
+        for _ in range(2):
+            if path_segments and not path_segments[-1].lower().endswith(".logarchive"):
                 path_segments.pop(-1)
-                self._uuidtext_path = self._file_system_helper.JoinPath(path_segments)
+
+        if path_segments and path_segments[-1].lower().endswith(".logarchive"):
+            self._uuidtext_path = self._file_system_helper.JoinPath(path_segments)
 
         else:
             path_segments.append("uuidtext")
-- 
2.43.0


From 5731b9856aa4ba4b6792dc2e553c1f589b10f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 178/211] fix: refuse a unified logging chunk set that cannot
 be read or decompressed

---
 dtformats/unified_logging.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 31e8f6b..b6ee424 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3777,7 +3777,9 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the chunk header cannot be read.
         """
-        chunk_data = file_object.read(chunk_header.chunk_data_size)
+        chunk_data = self._ReadData(
+            file_object, file_offset, chunk_header.chunk_data_size, "chunk set"
+        )
 
         data_type_map = self._GetDataTypeMap("tracev3_lz4_block_header")
 
@@ -3791,10 +3793,15 @@ class TraceV3File(data_format.BinaryDataFile):
         # TODO: add support for multi block compressed data.
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
-            uncompressed_data = lz4.block.decompress(
-                chunk_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    chunk_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                )
+            except (MemoryError, OverflowError, lz4.block.LZ4BlockError) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
-- 
2.43.0


From 1c7d769219d58166ef2935ec1da5a742f08801bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 179/211] fix: handle an unsupported decoder name in a unified
 logging state dump

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index b6ee424..f7ce303 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4945,12 +4945,12 @@ class TraceV3File(data_format.BinaryDataFile):
         event_message = ""
         if statedump_chunk.state_data_type == 0x03:
             library_data = statedump_chunk.library.split(b"\x00", maxsplit=1)[0]
-            library = library_data.decode("utf8")
+            library = library_data.decode("utf8", errors="backslashreplace")
 
             decoder_type_data = statedump_chunk.decoder_type.split(b"\x00", maxsplit=1)[
                 0
             ]
-            decoder_type = decoder_type_data.decode("utf8")
+            decoder_type = decoder_type_data.decode("utf8", errors="backslashreplace")
 
             decoder_name = f"{library:s}:{decoder_type:s}"
             decoder_class = self._FORMAT_STRING_DECODERS.get(decoder_name)
-- 
2.43.0


From af0026afc048866fee7970b859d85c375be60c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 180/211] fix: print a unified logging sub system that cannot
 be resolved in debug mode

---
 dtformats/unified_logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index f7ce303..354f700 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2767,7 +2767,8 @@ class TraceV3File(data_format.BinaryDataFile):
                     )
                     self._DebugPrintText(
                         f"Identifier: {sub_system_entry.identifier:d}, "
-                        f"Sub system: {sub_system:s}, Category: {category:s}\n"
+                        f"Sub system: {sub_system or '':s}, "
+                        f"Category: {category or '':s}\n"
                     )
 
                 self._DebugPrintText("\n")
-- 
2.43.0


From 9827f290574868ee6617d02b293538f50886966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 181/211] fix: refuse a unified logging trace with too few
 values data

---
 dtformats/unified_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 354f700..ecbda0f 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4712,6 +4712,11 @@ class TraceV3File(data_format.BinaryDataFile):
 
         value_data_offset = 0
         value_size_offset = -(1 + trace.number_of_values)
+        if len(values_data) < -value_size_offset:
+            raise errors.ParseError(
+                f"Invalid number of values: {trace.number_of_values:d} value out of bounds"
+            )
+
 
         for value_index in range(trace.number_of_values):
             value_data_size = values_data[value_size_offset]
-- 
2.43.0


From 14d31eac5196ffd86e446778d6b57d6369c0e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 182/211] fix: refuse a unified logging backtrace identifier
 index that is out of bounds

---
 dtformats/unified_logging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index ecbda0f..dfc15bb 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3930,10 +3930,15 @@ class TraceV3File(data_format.BinaryDataFile):
                 backtrace_frame.image_identifier = uuid.UUID(
                     "00000000-0000-0000-0000-000000000000"
                 )
-            else:
+            elif identifier_index < backtrace_data.number_of_identifiers:
                 backtrace_frame.image_identifier = backtrace_data.identifiers[
                     identifier_index
                 ]
+            else:
+                raise errors.ParseError(
+                    f"Invalid backtrace identifier index: {identifier_index:d} value "
+                    f"out of bounds"
+                )
 
             backtrace_frames.append(backtrace_frame)
 
-- 
2.43.0


From 4039c62e1a36cb9d2e86dca880d289fd9b55e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 183/211] fix: refuse a shared-cache strings range with an UUID
 index that is out of bounds

---
 dtformats/unified_logging.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index dfc15bb..9492130 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2369,7 +2369,13 @@ class DSCFile(data_format.BinaryDataFile):
             )
         )
         for dsc_range in self.ranges:
-            dsc_uuid = self.uuids[dsc_range.uuid_index]
+            try:
+                dsc_uuid = self.uuids[dsc_range.uuid_index]
+            except IndexError:
+                raise errors.ParseError(
+                    f"Invalid UUID descriptor index: {dsc_range.uuid_index:d} value "
+                    f"out of bounds"
+                )
 
             dsc_range.image_identifier = dsc_uuid.image_identifier
             dsc_range.image_path = dsc_uuid.image_path
-- 
2.43.0


From 159806a347c01e6486655fa6da3ce6269465ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 184/211] fix: resolve unified logging sub systems stored after
 a non-ASCII string

---
 dtformats/unified_logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 9492130..13b7433 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3173,7 +3173,8 @@ class TraceV3File(data_format.BinaryDataFile):
         map_offset = 0
         for string in catalog.sub_system_strings:
             strings_map[map_offset] = string
-            map_offset += len(string) + 1
+            # Note that the offset is relative to the encoded strings.
+            map_offset += len(string.encode("utf-8")) + 1
 
         return strings_map
 
-- 
2.43.0


From 4621c86ab9e0cf8a2ec7dcec559a9f2a3f0d1378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 185/211] fix: print the sub chunks data of a unified logging
 catalog in debug mode

---
 dtformats/unified_logging.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 13b7433..cbdf111 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3686,6 +3686,7 @@ class TraceV3File(data_format.BinaryDataFile):
           ParseError: if the chunk header cannot be read.
         """
         data_type_map = self._GetDataTypeMap("tracev3_catalog")
+        catalog_offset = file_offset
 
         catalog, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "Catalog"
@@ -3721,9 +3722,16 @@ class TraceV3File(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tracev3_catalog_sub_chunk")
 
         if self._debug:
-            file_object.seek(file_offset, os.SEEK_SET)
-            sub_chunks_data = file_object.read(chunk_data_size - bytes_read)
-            self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
+            catalog_end_offset = min(catalog_offset + chunk_data_size, self._file_size)
+            sub_chunks_data_size = catalog_end_offset - file_offset
+            if sub_chunks_data_size > 0:
+                sub_chunks_data = self._ReadData(
+                    file_object,
+                    file_offset,
+                    sub_chunks_data_size,
+                    "catalog sub chunks",
+                )
+                self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
 
         for _ in range(catalog.number_of_sub_chunks):
             catalog_sub_chunk, bytes_read = self._ReadStructureFromFileObject(
-- 
2.43.0


From def880e467d21beb03f871c83910a242a2dbbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:00 +0000
Subject: [PATCH 186/211] fix: read the 16-bit oversize data reference of a
 unified logging log and signpost

---
 dtformats/aul_tracev3.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/aul_tracev3.yaml b/dtformats/aul_tracev3.yaml
index 2aaa8b6..e970279 100644
--- a/dtformats/aul_tracev3.yaml
+++ b/dtformats/aul_tracev3.yaml
@@ -584,7 +584,7 @@ members:
   data_type: uint8
   condition: tracev3_firehose_tracepoint_flags & 0x0400 != 0
 - name: data_reference
-  data_type: uint8
+  data_type: uint16
   condition: tracev3_firehose_tracepoint_flags & 0x0800 != 0
 - name: unknown1
   data_type: uint8
@@ -630,7 +630,7 @@ members:
   data_type: uint8
   condition: tracev3_firehose_tracepoint_flags & 0x0400 != 0
 - name: data_reference
-  data_type: uint8
+  data_type: uint16
   condition: tracev3_firehose_tracepoint_flags & 0x0800 != 0
 - name: name_string_reference_lower
   data_type: uint32
-- 
2.43.0


From dfa63a33f46ab11a78a6be392f12bcc1a62f9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 187/211] fix: print USN journal records in the usn_journal
 script

---
 scripts/usn_journal.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scripts/usn_journal.py b/scripts/usn_journal.py
index 90fffe0..e582205 100755
--- a/scripts/usn_journal.py
+++ b/scripts/usn_journal.py
@@ -62,13 +62,14 @@ def Main():
     )
     usn_records.Open(options.source)
 
-    output_writer.WriteText("USN journal records information:")
-    output_writer.WriteText(
-        ",".join(["Date and time", "Name", "File reference", "Parent file reference"])
+    output_writer.WriteText("USN journal records information:\n")
+    header = ",".join(
+        ["Date and time", "Name", "File reference", "Parent file reference"]
     )
+    output_writer.WriteText(f"{header:s}\n")
     for usn_record in usn_records.ReadRecords():
         # pylint: disable=protected-access
-        date_time = usn_record._FormatIntegerAsFiletime(usn_record.timestamp)
+        date_time, _ = usn_records._FormatIntegerAsFiletime(usn_record.timestamp)
 
         mft_entry = usn_record.file_reference & ((1 << 48) - 1)
         sequence_number = usn_record.file_reference >> 48
@@ -78,11 +79,10 @@ def Main():
         sequence_number = usn_record.parent_file_reference >> 48
         parent_file_reference = f"{mft_entry:d}-{sequence_number:d}"
 
-        output_writer.WriteText(
-            ",".join(
-                [date_time, usn_record.name, file_reference, parent_file_reference]
-            )
+        line = ",".join(
+            [date_time, usn_record.name, file_reference, parent_file_reference]
         )
+        output_writer.WriteText(f"{line:s}\n")
 
     usn_records.Close()
 
-- 
2.43.0


From f0d4df3af8dc95312e3d13b2c0d258a142fcab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 188/211] fix: handle keychain columns without identifier or
 type in the keychain script

---
 scripts/keychain.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scripts/keychain.py b/scripts/keychain.py
index 3acbae1..9b533a2 100755
--- a/scripts/keychain.py
+++ b/scripts/keychain.py
@@ -100,14 +100,21 @@ def Main():
             print("\tColumn\tIdentifier\tName\tType")
 
             for index, column in enumerate(table.columns):
-                if column.attribute_identifier >= number_of_columns:
+                if (
+                    column.attribute_identifier is None
+                    or column.attribute_identifier >= number_of_columns
+                ):
                     attribute_identifier = ""
                 else:
                     attribute_identifier = f"{column.attribute_identifier:d}"
 
-                attribute_data_type = ATTRIBUTE_DATA_TYPES.get(
-                    column.attribute_data_type, f"0x{column.attribute_data_type:08x}"
-                )
+                if column.attribute_data_type is None:
+                    attribute_data_type = ""
+                else:
+                    attribute_data_type = ATTRIBUTE_DATA_TYPES.get(
+                        column.attribute_data_type,
+                        f"0x{column.attribute_data_type:08x}",
+                    )
 
                 attribute_name = column.attribute_name or "NULL"
                 print(
-- 
2.43.0


From 26f1a84248478b01bd8305bbd8d5d3ab6b403b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 189/211] fix: read from a storage media image in the indexeddb
 script

---
 scripts/indexeddb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/indexeddb.py b/scripts/indexeddb.py
index 659fabe..318bfd2 100755
--- a/scripts/indexeddb.py
+++ b/scripts/indexeddb.py
@@ -77,7 +77,9 @@ def Main():
         return False
 
     indexeddb_file = indexeddb.IndexedDBDatabaseTableFile(
-        debug=options.debug, output_writer=output_writer
+        debug=options.debug,
+        file_system_helper=file_system_helper,
+        output_writer=output_writer,
     )
 
     indexeddb_file.Open(options.source)
-- 
2.43.0


From 95a9168eef9b05f31fb75c75d4e1a4fb01c5d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 190/211] fix: require a source path with --image in the
 scripts

---
 scripts/indexeddb.py         | 14 +++++++-------
 scripts/jump_list.py         | 14 +++++++-------
 scripts/leveldb.py           | 14 +++++++-------
 scripts/spotlight_storedb.py | 14 +++++++-------
 scripts/unified_logging.py   | 14 +++++++-------
 5 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/scripts/indexeddb.py b/scripts/indexeddb.py
index 318bfd2..94a4fbf 100755
--- a/scripts/indexeddb.py
+++ b/scripts/indexeddb.py
@@ -50,6 +50,13 @@ def Main():
 
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return False
+
     if dfvfs_helpers and getattr(options, "image", None):
         file_system_helper = dfvfs_helpers.ParseDFVFSCLIArguments(options)
         if not file_system_helper:
@@ -58,13 +65,6 @@ def Main():
             return False
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return False
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = output_writers.StdoutWriter()
diff --git a/scripts/jump_list.py b/scripts/jump_list.py
index d259775..77562ed 100755
--- a/scripts/jump_list.py
+++ b/scripts/jump_list.py
@@ -495,6 +495,13 @@ def Main():
 
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return 1
+
     if dfvfs_helpers and getattr(options, "image", None):
         file_system_helper = dfvfs_helpers.ParseDFVFSCLIArguments(options)
         if not file_system_helper:
@@ -503,13 +510,6 @@ def Main():
             return 1
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return 1
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = StdoutWriter()
diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index c0412e9..34f5e10 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -51,6 +51,13 @@ def Main():
 
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return False
+
     if dfvfs_helpers and getattr(options, "image", None):
         file_system_helper = dfvfs_helpers.ParseDFVFSCLIArguments(options)
         if not file_system_helper:
@@ -59,13 +66,6 @@ def Main():
             return False
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return False
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = output_writers.StdoutWriter()
diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 7bdffdf..6dcd42a 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -205,6 +205,13 @@ def Main():
 
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return False
+
     if dfvfs_helpers and getattr(options, "image", None):
         file_system_helper = dfvfs_helpers.ParseDFVFSCLIArguments(options)
         if not file_system_helper:
@@ -213,13 +220,6 @@ def Main():
             return False
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return False
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = output_writers.StdoutWriter()
diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index 07e6988..a2b9ba5 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -130,6 +130,13 @@ def Main():
 
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return False
+
     if dfvfs_helpers and getattr(options, "image", None):
         file_system_helper = dfvfs_helpers.ParseDFVFSCLIArguments(options)
         if not file_system_helper:
@@ -138,13 +145,6 @@ def Main():
             return False
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return False
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = output_writers.StdoutWriter()
-- 
2.43.0


From 44fd2f6b3e5215efcb60bdd61896341830059a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 191/211] fix: handle WMI Name properties that are not strings
 in the wmi_repository script

---
 scripts/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/wmi_repository.py b/scripts/wmi_repository.py
index 071b778..f3a0a35 100755
--- a/scripts/wmi_repository.py
+++ b/scripts/wmi_repository.py
@@ -23,7 +23,7 @@ def PrintInstance(instance):
     dynasty = instance.dynasty or ""
 
     if name_property:
-        relpath = f'{instance.class_name:s}.Name="{name_property:s}"'
+        relpath = f'{instance.class_name:s}.Name="{name_property!s}"'
     else:
         relpath = f"{instance.class_name:s}=@"
 
-- 
2.43.0


From 5d4a2a329f5dddd02bc2466d3eea706eb7bac2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 192/211] fix: sort WMI namespaces without a name in the
 wmi_repository script

---
 scripts/wmi_repository.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/wmi_repository.py b/scripts/wmi_repository.py
index f3a0a35..6b7d250 100755
--- a/scripts/wmi_repository.py
+++ b/scripts/wmi_repository.py
@@ -155,7 +155,8 @@ def Main():
 
     elif options.output_mode == "namespaces":
         for instance in sorted(
-            cim_repository.GetNamespaces(), key=lambda instance: instance.namespace
+            cim_repository.GetNamespaces(),
+            key=lambda instance: instance.namespace or "",
         ):
             PrintNamespace(instance)
 
-- 
2.43.0


From 0070d13b3747fb14f8a85e7785effb1611e29ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 193/211] fix: skip missing object records in the
 wmi_repository script

---
 scripts/wmi_repository.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/wmi_repository.py b/scripts/wmi_repository.py
index 6b7d250..03181e0 100755
--- a/scripts/wmi_repository.py
+++ b/scripts/wmi_repository.py
@@ -169,6 +169,9 @@ def Main():
                 if data_type == "R":
                     if options.output_mode == "debug":
                         object_record = cim_repository.GetObjectRecordByKey(key)
+                        if not object_record:
+                            continue
+
                         registration = wmi_repository.Registration(
                             debug=options.debug, output_writer=output_writer
                         )
-- 
2.43.0


From 1c8565d0bc4e5b614a5fb0dfc72b75acb29c4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:05 +0000
Subject: [PATCH 194/211] fix: escape strings in the JSON output of the
 unified_logging script

---
 scripts/unified_logging.py | 40 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index a2b9ba5..a523b8e 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -3,8 +3,8 @@
 
 import argparse
 import heapq
+import json
 import logging
-import re
 import sys
 
 from dfdatetime import posix_time as dfdatetime_posix_time
@@ -59,6 +59,18 @@ class LogEntriesHeap:
         heapq.heappush(self._heap, log_entry)
 
 
+def EscapeJSONString(string):
+    """Escapes a string for usage in a JSON string.
+
+    Args:
+      string (str): string.
+
+    Returns:
+      str: string with the characters escaped that cannot be used in a JSON string.
+    """
+    return json.dumps(string, ensure_ascii=False)[1:-1].replace("/", "\\/")
+
+
 def GetDateTimeString(timestamp):
     """Determines the date and time string.
 
@@ -241,8 +253,6 @@ def Main():
         for log_entry in unified_logging_file.ReadLogEntries():
             log_entries_heap.PushLogEntry(log_entry)
 
-        escape_regex = re.compile(r'([\\/"])', re.MULTILINE)
-
         if options.format == "json":
             print("[{")
         else:
@@ -264,18 +274,16 @@ def Main():
 
             if options.format == "json":
                 boot_identifier = str(log_entry.boot_identifier).upper()
-                category = log_entry.category or ""
+                category = EscapeJSONString(log_entry.category or "")
                 event_type = log_entry.event_type or ""
-                sub_system = log_entry.sub_system or ""
+                sub_system = EscapeJSONString(log_entry.sub_system or "")
 
                 event_message = log_entry.event_message or ""
                 event_message = event_message.rstrip()
                 if len(event_message) >= 1085:
                     event_message = "".join([event_message[:1087], "<…>"])
 
-                event_message = escape_regex.sub(r"\\\1", event_message)
-                event_message = event_message.replace("\n", "\\n")
-                event_message = event_message.replace("\t", "\\t")
+                event_message = EscapeJSONString(event_message)
 
                 creator_activity_identifier = log_entry.creator_activity_identifier
 
@@ -284,10 +292,7 @@ def Main():
                     # is empty.
                     format_string = ""
                 else:
-                    format_string = log_entry.format_string or ""
-                    format_string = escape_regex.sub(r"\\\1", format_string)
-                    format_string = format_string.replace("\n", "\\n")
-                    format_string = format_string.replace("\t", "\\t")
+                    format_string = EscapeJSONString(log_entry.format_string or "")
 
                 process_image_identifier = ""
                 if log_entry.process_image_identifier:
@@ -295,8 +300,9 @@ def Main():
                         log_entry.process_image_identifier
                     ).upper()
 
-                process_image_path = log_entry.process_image_path or ""
-                process_image_path = escape_regex.sub(r"\\\1", process_image_path)
+                process_image_path = EscapeJSONString(
+                    log_entry.process_image_path or ""
+                )
 
                 sender_image_identifier = ""
                 if log_entry.sender_image_identifier:
@@ -304,9 +310,7 @@ def Main():
                         log_entry.sender_image_identifier
                     ).upper()
 
-                sender_image_path = log_entry.sender_image_path or ""
-                sender_image_path = sender_image_path.replace('"', '\\"')
-                sender_image_path = sender_image_path.replace("/", "\\/")
+                sender_image_path = EscapeJSONString(log_entry.sender_image_path or "")
 
                 if event_type == "timesyncEvent":
                     lines = [
@@ -458,7 +462,7 @@ def Main():
                         )
 
                     elif log_entry.signpost_identifier is not None:
-                        signpost_name = log_entry.signpost_name or ""
+                        signpost_name = EscapeJSONString(log_entry.signpost_name or "")
 
                         lines.append(f'  "signpostName" : "{signpost_name:s}",')
 
-- 
2.43.0


From 17ba834f3995121d62be315936192ad538c95fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:05 +0000
Subject: [PATCH 195/211] fix: handle log entries without event message in the
 unified_logging script

---
 scripts/unified_logging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index a523b8e..8b3a7eb 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -529,7 +529,9 @@ def Main():
                         f"[{log_entry.sub_system:s}:{log_entry.category:s}]"
                     )
 
-                event_message_parts.append(log_entry.event_message)
+                if log_entry.event_message:
+                    event_message_parts.append(log_entry.event_message)
+
                 event_message = " ".join(event_message_parts)
 
                 ttl = log_entry.ttl or 0
-- 
2.43.0


From 68d2ec0180c8325f38707a6912318093f430f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:05 +0000
Subject: [PATCH 196/211] fix: handle missing metadata items in the
 spotlight_storedb script

---
 scripts/spotlight_storedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 6dcd42a..d6e7c7f 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -347,7 +347,7 @@ def Main():
 
                     table_view.AddRow([name, f"= {value_string:s}"])
 
-            table_view.Write(output_writer)
+                table_view.Write(output_writer)
 
         spotlight_store_database.Close()
 
-- 
2.43.0


From 5d44a735f378dc64b145a5e01c1b9b4e3b992441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:00 +0000
Subject: [PATCH 197/211] fix: handle multiple and out of bounds values in the
 spotlight_storedb script

---
 scripts/spotlight_storedb.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index d6e7c7f..3cdf8df 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -77,6 +77,10 @@ def GetDateTimeString(timestamp):
     if timestamp is None:
         return "YYYY-MM-DD hh:ss:mm +####"
 
+    if not -63113904000.0 <= timestamp < 7500000000.0:
+        # The date and time cannot be represented.
+        return f"{timestamp!s}"
+
     date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=timestamp)
     iso8601_string = date_time.CopyToDateTimeStringISO8601()
     return "".join(
@@ -336,6 +340,9 @@ def Main():
                     if not metadata_attribute:
                         value_string = "(null)"
 
+                    elif isinstance(metadata_attribute.value, list):
+                        value_string = f"{metadata_attribute.value!s}"
+
                     elif metadata_attribute.value_type == 0x0B:
                         value_string = f'"{metadata_attribute.value:s}"'
 
-- 
2.43.0


From 9caadad7c0a03e09631d824498ec325e26688996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 198/211] fix: keep values such as 0 of composite objects in
 the NSKeyedArchiver decoder

---
 scripts/decode_nskeyedarchiver_plist.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 409a083..adad567 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -57,10 +57,9 @@ class NSKeyedArchiverDecoder:
                 continue
 
             encoded_value = encoded_object.get(key)
-            if encoded_value:
-                decoded_value = self._DecodeObject(encoded_value, objects_list)
+            decoded_value = self._DecodeObject(encoded_value, objects_list)
 
-                decoded_dict[key] = decoded_value
+            decoded_dict[key] = decoded_value
 
         return decoded_dict
 
@@ -81,10 +80,9 @@ class NSKeyedArchiverDecoder:
                 continue
 
             encoded_value = encoded_object.get(key)
-            if encoded_value:
-                decoded_value = self._DecodeObject(encoded_value, objects_list)
+            decoded_value = self._DecodeObject(encoded_value, objects_list)
 
-                decoded_dict[key] = decoded_value
+            decoded_dict[key] = decoded_value
 
         return decoded_dict
 
-- 
2.43.0


From 396b4151230dc28afb5b20b1da4161dd43e85e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 199/211] fix: return all the elements of a NSSet in the
 NSKeyedArchiver decoder

---
 scripts/decode_nskeyedarchiver_plist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index adad567..92f32d0 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -188,7 +188,7 @@ class NSKeyedArchiverDecoder:
 
             decoded_list.append(decoded_element)
 
-        return decoded_element
+        return decoded_list
 
     def _DecodeNSURL(self, encoded_object, objects_list):
         """Decodes a NSURL.
-- 
2.43.0


From 988885e16b97fae99baa4b6aeff77c3b576d9178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 200/211] fix: decode the elements of a NSSet by their class in
 the NSKeyedArchiver decoder

---
 scripts/decode_nskeyedarchiver_plist.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 92f32d0..bf719f4 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -184,7 +184,11 @@ class NSKeyedArchiverDecoder:
             plist_uid = self._GetPlistUID(value_object)
             referenced_object = objects_list[plist_uid]
 
-            decoded_element = self._DecodeContainer(referenced_object, objects_list)
+            if isinstance(referenced_object, dict) and "container" in referenced_object:
+                # Prevent decoding the object that contains the set.
+                decoded_element = self._DecodeContainer(referenced_object, objects_list)
+            else:
+                decoded_element = self._DecodeObject(referenced_object, objects_list)
 
             decoded_list.append(decoded_element)
 
-- 
2.43.0


From 4ea9799bd129c45b23cb8d1a0bc3f7c463749b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:13 +0000
Subject: [PATCH 201/211] fix: unified logging LZ4 uncompressed blocks have no
 compressed data size

---
 dtformats/aul_tracev3.yaml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/aul_tracev3.yaml b/dtformats/aul_tracev3.yaml
index e970279..c4b25ac 100644
--- a/dtformats/aul_tracev3.yaml
+++ b/dtformats/aul_tracev3.yaml
@@ -210,6 +210,7 @@ members:
   data_type: uint32
 - name: compressed_data_size
   data_type: uint32
+  condition: tracev3_lz4_block_header.signature == b"bv41"
 ---
 name: tracev3_catalog_uuid_entry
 type: structure
-- 
2.43.0


From b2cf8659bfccb84cfaed6f29b40e89ed91186c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 202/211] fix: unified logging debug output of continuous time
 is as stored

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index cbdf111..4330821 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3499,9 +3499,9 @@ class TraceV3File(data_format.BinaryDataFile):
         """
         timesync_record = self._GetTimesyncRecord(continuous_time)
         if timesync_record:
-            continuous_time -= timesync_record.kernel_time
+            relative_time = continuous_time - timesync_record.kernel_time
             timestamp = timesync_record.timestamp + int(
-                continuous_time * self._timesync_timebase
+                relative_time * self._timesync_timebase
             )
         elif self._timesync_boot_record:
             timestamp = self._timesync_boot_record.timestamp + int(
-- 
2.43.0


From 3613bb82d1d4a7d7bcf19806d140fae55357711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 203/211] fix: unified logging debug output shows the backtrace
 identifiers

---
 dtformats/aul_tracev3.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/aul_tracev3.debug.yaml b/dtformats/aul_tracev3.debug.yaml
index 564c90f..dbdfd26 100644
--- a/dtformats/aul_tracev3.debug.yaml
+++ b/dtformats/aul_tracev3.debug.yaml
@@ -263,7 +263,7 @@ attributes:
 - name: unknown3
   description: "Unknown3"
   format: hexadecimal_2digits
-- name: uuids
+- name: identifiers
   description: "Identifiers"
   format: custom:array_of_uuids
 - name: offsets
-- 
2.43.0


From 9f62cba5f36a9363d5fd3f3c5e30809cd355f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 204/211] fix: unified logging debug output shows the UUIDs of
 a process information entry

---
 dtformats/unified_logging.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 4330821..e697293 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2756,13 +2756,6 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
 
         for process_information_entry in catalog.process_information_entries:
-            process_information_entry.main_uuid = self._GetCatalogUUID(
-                catalog, process_information_entry.main_uuid_index
-            )
-            process_information_entry.dsc_uuid = self._GetCatalogUUID(
-                catalog, process_information_entry.dsc_uuid_index
-            )
-
             if self._debug:
                 for sub_system_entry in process_information_entry.sub_system_entries:
                     sub_system = self._catalog_strings_map.get(
@@ -3711,6 +3704,12 @@ class TraceV3File(data_format.BinaryDataFile):
             )
             file_offset += bytes_read
 
+            process_information_entry.main_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.main_uuid_index
+            )
+            process_information_entry.dsc_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.dsc_uuid_index
+            )
             if self._debug:
                 debug_info = self._DEBUG_INFORMATION.get(
                     "tracev3_catalog_process_information_entry", None
-- 
2.43.0


From 816227897187c41efa677a71c084e8cd43464848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 205/211] fix: WMI class definition and instance block offset
 is that of the block data

---
 dtformats/wmi_repository.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 0e0dce5..34f692a 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1827,7 +1827,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             debug=self._debug, output_writer=self._output_writer
         )
         class_definition.ReadClassDefinitionBlock(
-            leaf_node.class_definition_block_data, record_data_offset=leaf_node_offset
+            leaf_node.class_definition_block_data,
+            record_data_offset=leaf_node_offset + 4,
         )
         return class_definition
 
@@ -1882,7 +1883,7 @@ class RepositoryFile(data_format.BinaryDataFile):
                 )
                 class_definition.ReadClassDefinitionBlock(
                     leaf_node.class_definition_block_data,
-                    record_data_offset=leaf_node_offset,
+                    record_data_offset=leaf_node_offset + 4,
                 )
                 if self._debug:
                     class_definition.DebugPrint()
@@ -1975,7 +1976,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         instance.ReadInstanceBlockData(
             class_value_data_map,
             leaf_node.instance_block_data,
-            record_data_offset=instance_branch_node.instance_leaf_node_offset,
+            record_data_offset=instance_branch_node.instance_leaf_node_offset + 4,
         )
         # pylint: disable=attribute-defined-outside-init
         instance.class_name = class_value_data_map.class_name
@@ -2962,7 +2963,7 @@ class ClassDefinitionReference(CIMObject):
             )
 
         self.data = class_definition_object_record.class_definition_block_data
-        self.offset = context.byte_size
+        self.offset = context.byte_size - len(self.data)
         self.super_class_name = class_definition_object_record.super_class_name
 
 
@@ -3029,7 +3030,7 @@ class InstanceReference(CIMObject):
         if self._format_version == "2.1":
             self.offset = 84
         else:
-            self.offset = 144
+            self.offset = 148
 
         self.class_name_hash = instance_object_record.class_name_hash
         self.data = instance_object_record.instance_block_data
-- 
2.43.0


From afd91f637d90c1e85b8173ab25e485f9c4a5f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 206/211] fix: WMI property qualifiers offset is relative to
 the start of the record

---
 dtformats/wmi_repository.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 34f692a..4bbf8a0 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2588,7 +2588,9 @@ class ClassDefinition(CIMObject):
                 values_data,
                 values_data_offset,
             )
-            qualifiers_block_offset = property_descriptor.definition_offset + 18
+            qualifiers_block_offset = (
+                values_data_offset + property_descriptor.definition_offset + 18
+            )
 
             property_qualifiers = self._ReadQualifiers(
                 property_definition.qualifiers_block_data,
-- 
2.43.0


From 66247ab51b0f3800b0830b293cc81c1a963935c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:41 +0000
Subject: [PATCH 207/211] fix: refuse a Spotlight binary attribute value that
 is larger than its record

---
 dtformats/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index f9a7f92..88aa203 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1111,6 +1111,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 self._DebugPrintDecimalValue("Data size", data_size)
 
             value = data[bytes_read : bytes_read + data_size]
+            if len(value) != data_size:
+                raise errors.ParseError("Metadata attribute binary value too small.")
+
             bytes_read += data_size
 
             # TODO: decode binary data e.g. UUID
-- 
2.43.0


From 2446dba2d2a72cd45ee19e0954717bd099f84d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:00 +0000
Subject: [PATCH 208/211] fix: show the attribute flags of a file entry shell
 item as they are in jump_list.py

---
 scripts/jump_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/jump_list.py b/scripts/jump_list.py
index 77562ed..22d9eef 100755
--- a/scripts/jump_list.py
+++ b/scripts/jump_list.py
@@ -257,7 +257,7 @@ class StdoutWriter(output_writers.StdoutWriter):
         self.WriteValue("\t\t\tModification time", date_time_string)
 
         self.WriteValue(
-            "\t\t\tFile attribute flags", f"0x08{fwsi_item.file_attribute_flags:08x}"
+            "\t\t\tFile attribute flags", f"0x{fwsi_item.file_attribute_flags:08x}"
         )
 
         self.WriteValue("\t\t\tName", fwsi_item.name)
-- 
2.43.0


From 42b3e5009ff617cd46c455d70449364093510b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:59 +0000
Subject: [PATCH 209/211] fix: handle multiple date and time values in the
 spotlight_storedb script

---
 scripts/spotlight_storedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 3cdf8df..2925dad 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -340,7 +340,7 @@ def Main():
                     if not metadata_attribute:
                         value_string = "(null)"
 
-                    elif isinstance(metadata_attribute.value, list):
+                    elif isinstance(metadata_attribute.value, (list, tuple)):
                         value_string = f"{metadata_attribute.value!s}"
 
                     elif metadata_attribute.value_type == 0x0B:
-- 
2.43.0


From c292630eac83d612970751afbc1ba31db00ae0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:30 +0000
Subject: [PATCH 210/211] fix: report a namespace name that is not a string in
 CIM repository as a parse error

---
 dtformats/wmi_repository.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 4bbf8a0..2437021 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2124,6 +2124,9 @@ class RepositoryFile(data_format.BinaryDataFile):
             if not name_property:
                 return
 
+            if not isinstance(name_property, str):
+                raise errors.ParseError("Unsupported namespace name property.")
+
             namespace_segments = list(parent_namespace_segments)
             namespace_segments.append(name_property)
             instance.namespace = "\\".join(namespace_segments)
-- 
2.43.0


From 0339ab7ca5025bf0d77a8cadf74774f442ccd203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:22 +0000
Subject: [PATCH 211/211] fix: report a namespace name that is not a string in
 WMI repository as a parse error

---
 dtformats/wmi_repository.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2437021..50f2b40 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4309,6 +4309,9 @@ class CIMRepository(data_format.BinaryDataFormat):
                     if not name_property:
                         continue
 
+                    if not isinstance(name_property, str):
+                        raise errors.ParseError("Unsupported namespace name property.")
+
                     namespace = "\\".join([parent_namespace, name_property])
 
                     namespace_hash = self._GetHashFromString(namespace)
-- 
2.43.0

