From 147b105425d5d9b1ede3285f0886f5b0051f226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:14 +0000
Subject: [PATCH 01/96] fix: honour writer keyword options in dumps() and pass
 them on from dump()

---
 objutils/hexfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index cabd088..2dd6e73 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -332,7 +332,7 @@ class Writer(BaseType):
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length))
+        fp.write(self.dumps(image, row_length, **kws))
         if hasattr(fp, "close"):
             fp.close()
 
@@ -343,7 +343,7 @@ class Writer(BaseType):
             return b""
         if self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
             raise AddressRangeToLargeError("could not encode image.")
-        # params = self.set_parameters(**kws)
+        self.set_parameters(**kws)
         self.pre_processing(image)
         header = self.compose_header(image.meta if hasattr(image, "meta") else {})
         if header:
-- 
2.43.0


From a5597d96c878c1f996038f8d5c9183d4735dcd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:14 +0000
Subject: [PATCH 02/96] fix: do not truncate the destination file when an image
 can not be encoded

---
 objutils/binfile.py | 3 ++-
 objutils/hexfile.py | 3 ++-
 objutils/shf.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index cdbf28d..40117d4 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -67,9 +67,10 @@ class Reader:
 
 class Writer:
     def dump(self, fp, image, filler=b"\xff", **kws):
+        data = self.dumps(image, filler)  # May raise, so don't touch the destination before.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, filler))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 2dd6e73..60688c5 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -330,9 +330,10 @@ class Writer(BaseType):
         self.logger = Logger("Writer")
 
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
+        data = self.dumps(image, row_length, **kws)  # May raise, so don't touch the destination before.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length, **kws))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
diff --git a/objutils/shf.py b/objutils/shf.py
index faa4f26..0ca3b95 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -150,9 +150,10 @@ class Writer:
     logger = Logger(__name__)
 
     def dump(self, fp, image, **kws):
+        data = self.dumps(image)  # May raise, so don't touch the destination before.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
-- 
2.43.0


From c627040401512fc7cafe857f6ca1d24d1250e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:14 +0000
Subject: [PATCH 03/96] fix: Image() takes no 'valid' argument; loading binary
 files and files without data records raised TypeError

---
 objutils/binfile.py | 2 +-
 objutils/hexfile.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index 40117d4..40ba22f 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -50,7 +50,7 @@ class Reader:
             fp = open(fp, "rb")
         data = fp.read()
         sec = Section(address, data)
-        img = Image([sec], valid=True)
+        img = Image([sec])
         if hasattr(fp, "close"):
             fp.close()
         return img
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 60688c5..580f242 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -261,7 +261,7 @@ class Reader(BaseType):
             return Image(sections=join_sections(sections), meta=meta_data)
         else:
             self.error("File seems to be invalid.")
-            return Image([], valid=False)
+            return Image([])
 
     def _address_space(self, value):
         if value < 2**16:
-- 
2.43.0


From 4b746ce1a4ac8a4b7d15c2fd83446be117528bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:39 +0000
Subject: [PATCH 04/96] fix: binary writer failed for integer fillers and
 silently dropped gaps for an empty filler

---
 objutils/binfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index 40ba22f..d49085a 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -77,10 +77,12 @@ class Writer:
     def dumps(self, image, filler=b"\xff", **kws):
         if not isinstance(filler, (bytes, int)):
             raise TypeError("filler must be of type 'bytes' or 'int'")
-        if isinstance(filler, bytes) and len(filler) > 1:
+        if isinstance(filler, bytes) and len(filler) != 1:
             raise TypeError("filler must be a single byte")
-        elif isinstance(filler, int) and filler > 255:
-            raise ValueError("filler must be in range 0..255")
+        elif isinstance(filler, int):
+            if not (0 <= filler <= 255):
+                raise ValueError("filler must be in range 0..255")
+            filler = bytes([filler])
         result = bytearray()
         previous_address = None
         previous_length = None
-- 
2.43.0


From 68d5b05714761dc97500e4887d352116bf63a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:26 +0000
Subject: [PATCH 05/96] fix: address range check refused images ending at the
 top of the address space and ignored all but the last section

---
 objutils/hexfile.py | 13 ++++++-------
 objutils/sig.py     |  2 +-
 objutils/srec.py    |  8 +++-----
 objutils/tek.py     |  2 +-
 4 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 580f242..451e46e 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -24,7 +24,6 @@ __copyright__ = """
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 """
 
-import math
 import os
 import re
 from collections import defaultdict, namedtuple
@@ -364,13 +363,13 @@ class Writer(BaseType):
         else:
             return self.post_processing(bytes("\n".join(result)))
 
+    def highest_address(self, image):
+        """Address of the last byte of `image`."""
+        sections = image.sections if hasattr(image, "sections") else [image]
+        return max(section.start_address + section.length - 1 for section in sections)
+
     def calculate_address_bits(self, image):
-        if hasattr(image, "sections"):
-            last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
-        else:
-            last_segment = image
-        highest_address = last_segment.start_address + last_segment.length
-        return int(math.ceil(math.log(highest_address + 1) / math.log(2)))
+        return self.highest_address(image).bit_length()
 
     def post_processing(self, data):
         if not data.endswith(b"\n"):
diff --git a/objutils/sig.py b/objutils/sig.py
index 23c7120..1964c7a 100644
--- a/objutils/sig.py
+++ b/objutils/sig.py
@@ -65,7 +65,7 @@ class Writer(hexfile.Writer):
         )
         data_checksum = checksums.rotatedXOR(row, 8, checksums.ROTATE_LEFT)
         line = f":{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF  # Footer has only room for 16-bits.
         return line
 
     def compose_footer(self, meta):
diff --git a/objutils/srec.py b/objutils/srec.py
index 229758e..51435c0 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -148,18 +148,16 @@ class Writer(hexfile.Writer):
     checksum = partial(lrc, width=8, comp=COMPLEMENT_ONES)
 
     def pre_processing(self, image):
+        highest_address = self.highest_address(image)
         if self.record_type is None:
-            if hasattr(image, "sections"):
-                last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
-            else:
-                last_segment = image
-            highest_address = last_segment.start_address + last_segment.length
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
             elif highest_address <= 0x00FFFFFF:
                 self.record_type = 2
             elif highest_address <= 0xFFFFFFFF:
                 self.record_type = 3
+        elif highest_address.bit_length() > (self.record_type + 1) * 8:
+            raise hexfile.AddressRangeToLargeError(f"could not encode image using S{self.record_type} records.")
         self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
         self.offset = self.record_type + 2
 
diff --git a/objutils/tek.py b/objutils/tek.py
index 02dd6d0..161189e 100644
--- a/objutils/tek.py
+++ b/objutils/tek.py
@@ -68,5 +68,5 @@ class Writer(hexfile.Writer):
 
         data_checksum = checksums.nibble_sum(row)
         line = f"/{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)!s}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF  # Footer has only room for 16-bits.
         return line
-- 
2.43.0


From 77c42b70e6b7cdfb3a7819f2862d1eb2eb534dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:42 +0000
Subject: [PATCH 06/96] fix: S-record reader rejected the count records written
 for S2/S3 files

---
 objutils/srec.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 51435c0..19d6add 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -55,6 +55,8 @@ class Reader(hexfile.Reader):
         (S1, "S1LLAAAADDCC"),
         (S2, "S2LLAAAAAADDCC"),
         (S3, "S3LLAAAAAAAADDCC"),
+        (S5, "S5LLAAAAAAAACC"),  # Width of record count follows data records (s. writer).
+        (S5, "S5LLAAAAAACC"),
         (S5, "S5LLAAAACC"),
         (S7, "S7LLAAAAAAAACC"),
         (S8, "S8LLAAAAAACC"),
@@ -77,20 +79,9 @@ class Reader(hexfile.Reader):
         return data
 
     def check_line(self, line, format_type):
-        # todo: Fkt.!!!
-        if format_type in (S0, S1, S5, S9):
-            checksum_of_address = ((line.address & 0xFF00) >> 8) + (line.address & 0xFF)
-        elif format_type in (S2, S8):
-            checksum_of_address = ((line.address & 0xFF0000) >> 16) + ((line.address & 0xFF00) >> 8) + (line.address & 0xFF)
-        elif format_type in (S3, S7):
-            checksum_of_address = (
-                ((line.address & 0xFF000000) >> 24)
-                + ((line.address & 0xFF0000) >> 16)
-                + ((line.address & 0xFF00) >> 8)
-                + (line.address & 0xFF)
-            )
-        else:
+        if format_type not in BIAS:
             raise TypeError(f"Invalid format type '{format_type!s}'.")
+        checksum_of_address = sum(utils.int_to_array(line.address))
         if hasattr(line, "chunk"):
             checksum = (~(sum([line.length, checksum_of_address]) + sum(line.chunk))) & 0xFF
         else:
-- 
2.43.0


From c04332fab4194699203a4b55e8ea8ad9f206a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:42 +0000
Subject: [PATCH 07/96] fix: close S-record files after loading

---
 objutils/srec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/srec.py b/objutils/srec.py
index 19d6add..c7a45c8 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -67,6 +67,8 @@ class Reader(hexfile.Reader):
         if isinstance(fp, str):
             fp = open(fp, "rb")
         data = self.read(fp)
+        if hasattr(fp, "close"):
+            fp.close()
 
         ## todo: extract Symbols and wipe them out.
         """
-- 
2.43.0


From 66edfd49edaa93b013a99758982e065464ed452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:42 +0000
Subject: [PATCH 08/96] fix: S-record header records always carry a 16-bit
 address field

---
 objutils/srec.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index c7a45c8..4d4570b 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -157,10 +157,15 @@ class Writer(hexfile.Writer):
     def srecord(self, record_type, length, address, data=None):
         if data is None:
             data = []
-        length += self.offset
+        if record_type == 0:  # Address field of header records is always 16-bit wide.
+            length += BIAS[S0]
+            address_mask = "%04X"
+        else:
+            length += self.offset
+            address_mask = self.address_mask
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
-        mask = f"S%u%02X{self.address_mask!s}%s%02X"
+        mask = f"S%u%02X{address_mask!s}%s%02X"
         return mask % (record_type, length, address, Writer.hex_bytes(data), checksum)
 
     def compose_row(self, address, length, row):
-- 
2.43.0


From affeba12091718d683f4b12a676d7ec166a545a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 09/96] fix: Intel HEX writer lost upper address bits of
 sections and wrote records crossing a 64K boundary

---
 objutils/ihex.py | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index 7337044..8531127 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -107,37 +107,38 @@ class Reader(hexfile.Reader):
         return x
 
 
-def divmod(a, b):
-    return a / b, a % b
-
-
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 32
     checksum = partial(lrc, width=8, comp=COMPLEMENT_TWOS)
 
     def pre_processing(self, image):
-        self.previosAddress = None
+        self.previous_segment = 0
         self.start_address = 0
+        # Don't mix segment and linear addressing within a file.
+        self.linear_addressing = self.calculate_address_bits(image) > 20
 
     def compose_row(self, address, length, row):
-        result = ""
-        seg, offs = divmod(address, 0x10000)
+        result = []
+        room = 0x10000 - (address & 0xFFFF)  # Records must not cross a 64K boundary.
+        if length > room:
+            result.append(self.compose_row(address, room, row[:room]))
+            address += room
+            length -= room
+            row = row[room:]
+        segment, offset = divmod(address, 0x10000)
+        if segment != self.previous_segment:
+            self.previous_segment = segment
+            if self.linear_addressing:
+                result.append(self.compose_record(EXTENDED_LINEAR_ADDRESS, 0, self.word_to_bytes(segment)))
+            else:
+                result.append(self.compose_record(EXTENDED_SEGMENT_ADDRESS, 0, self.word_to_bytes(segment << 12)))
+        result.append(self.compose_record(DATA, offset, row))
+        return "\n".join(result)
+
+    def compose_record(self, record_type, address, data):
         hi, lo = self.word_to_bytes(address)
-        if offs != self.previosAddress:
-            # print("NEQ: {0:04x} [{1:04x}:{2:04x}]".format(address, seg, offs))
-            if address > 0xFFFF:
-                if address > 0xFFFFF:
-                    segHi, segLo = self.word_to_bytes(seg)
-                    result = f":02000004{int(seg):04X}{self.checksum(list((2, 4, segHi, segLo))):02X}\n"
-                else:
-                    seg = int(seg) << 12
-                    segHi, segLo = self.word_to_bytes(seg)
-                    result = f":02000002{int(seg):04X}{self.checksum(list((2, 2, segHi, segLo))):02X}\n"
-        address = offs
-        checksum = self.checksum(list((length, hi, lo)) + list(row))
-        self.previosAddress = offs + length
-        result += f":{length:02X}{address:04X}{DATA:02X}{Writer.hex_bytes(row)!s}{checksum:02X}"
-        return result
+        checksum = self.checksum([len(data), hi, lo, record_type] + list(data))
+        return f":{len(data):02X}{address:04X}{record_type:02X}{Writer.hex_bytes(data)!s}{checksum:02X}"
 
     def compose_footer(self, meta):
         hi, lo = self.word_to_bytes(self.start_address)
-- 
2.43.0


From f97250d35007a9ebe1b9b51d5d750001893d96c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 10/96] fix: FPC writer produced wrong length fields and
 padding for row lengths other than 12..21

---
 objutils/fpc.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 89affb8..4c80054 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -142,11 +142,9 @@ class Writer(hexfile.Writer):
             8,
             checksums.COMPLEMENT_TWOS,
         )
-        if length < self.row_length:
-            lengthToPad = self.row_length - length
-            padding = [0] * (lengthToPad)
-            row.extend(padding)
-        line = f"{checksum:02X}{length - 2}0000{address:08X}{Writer.hex_bytes(row)}"
+        padding = [0] * (-length % 4)  # Each quintuple encodes four bytes.
+        row.extend(padding)
+        line = f"{checksum:02X}{length + 4:02X}0000{address:08X}{Writer.hex_bytes(row)}"
         return line
 
     def compose_footer(self, meta):
-- 
2.43.0


From 33c2c3b0c71e28a89e7115849d6f25a479b019e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 11/96] fix: extended Tektronix codec could not load data
 records and wrote addresses without their digit count

---
 objutils/etek.py | 63 +++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index ed55daa..ddd7b9b 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -26,60 +26,63 @@ __copyright__ = """
 
 import re
 
-import objutils.checksums as checksums
 import objutils.hexfile as hexfile
-import objutils.utils as utils
 
 
 DATA = 1
 SYMBOL = 2
 EOF = 3
 
+HEADER_LENGTH = 5  # Length, type, and checksum digits.
+
+
+def record_checksum(length, record_type, payload):
+    """Sum of all digits, leading `%` and checksum excluded."""
+    return sum(int(digit, 16) for digit in f"{length:02X}{record_type}{payload}") & 0xFF
+
 
 class Reader(hexfile.Reader):
     VALID_CHARS = re.compile(r"^[a-zA-Z0-9_ %\n\r]*$")  # We need to consider symbol information.
 
     FORMAT_SPEC = (
-        (DATA, "%LL6CCAAAAADD"),
+        (DATA, "%LL6CCU"),
         (SYMBOL, "%LL3CCU"),
-        (EOF, "%LL8CCAAAAADD"),
+        (EOF, "%LL8CCU"),
     )
 
     def check_line(self, line, format_type):
-        if format_type == DATA:
-            line.length = (line.length / 2) - 5
-            checksum = checksums.nibble_sum(
-                utils.make_list(
-                    utils.int_to_array(line.address),
-                    6,
-                    ((line.length + 5) * 2),
-                    line.chunk,
-                )
-            )
-            if line.length != len(line.chunk):
-                raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
-            if line.checksum != checksum:
-                raise hexfile.InvalidRecordChecksumError()
-        elif format_type == SYMBOL:
-            checksum = checksums.nibble_sum(utils.make_list(3, ((line.length + 5) * 2), [ord(b) for b in line.chunk]))
-            chunk = line.chunk.strip()
-            address = int(chunk[-4:], 16)
-            line.address = address
-            # if line.checksum!=checksum:
-            #    raise hexfile.InvalidRecordChecksumError()
+        line.chunk = line.chunk.strip()
+        if line.length != len(line.chunk) + HEADER_LENGTH:
+            raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
+        if format_type == SYMBOL:
+            return
+        record_type = 6 if format_type == DATA else 8
+        if line.checksum != record_checksum(line.length, record_type, line.chunk):
+            raise hexfile.InvalidRecordChecksumError()
+        num_digits = int(line.chunk[0], 16) or 16  # Addresses are prefixed by their number of digits.
+        address, data = line.chunk[1 : num_digits + 1], line.chunk[num_digits + 1 :]
+        if len(address) != num_digits:
+            raise hexfile.InvalidRecordLengthError("Incomplete address.")
+        line.address = int(address, 16)
+        line.chunk = bytearray.fromhex(data)
 
     def is_data_line(self, line, format_type):
         return format_type == DATA
 
     def parseData(self, line, format_type):
-        return format_type != SYMBOL
+        return False  # Variable-length addresses, s. check_line().
 
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 24
 
     def compose_row(self, address, length, row):
-        checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
-
-        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:04X}{Writer.hex_bytes(row)!s}"
-        return line
+        digits = f"{address:04X}"
+        payload = f"{len(digits):X}{digits}{Writer.hex_bytes(row)}"
+        length = len(payload) + HEADER_LENGTH
+        return f"%{length:02X}6{record_checksum(length, 6, payload):02X}{payload}"
+
+    def compose_footer(self, meta):
+        payload = "10"  # Start address.
+        length = len(payload) + HEADER_LENGTH
+        return f"%{length:02X}8{record_checksum(length, 8, payload):02X}{payload}"
-- 
2.43.0


From adf25585140d90e30879a4c58350c3c3afee1503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 12/96] fix: sections shared their storage with the default
 value, caller's buffers, and each other

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index a1e8ea6..6f9d04c 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -154,7 +154,7 @@ def filler(ch, n):
 
 def _data_converter(data):
     if isinstance(data, bytearray):
-        pass  # no conversion needed.
+        data = copy(data)  # no conversion needed, but don't share storage.
     elif isinstance(data, int):
         raise ValueError("single int not permitted")
     elif isinstance(data, str):
-- 
2.43.0


From e8c32008e4a12e1600ec2c6276ea8c75b640c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 13/96] fix: join_sections() emptied the caller's list

---
 objutils/section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/section.py b/objutils/section.py
index 6f9d04c..68e50c1 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -432,6 +432,7 @@ def join_sections(sections):
         result_sections = SortedList(key=attrgetter("start_address"))
     else:
         result_sections = []
+    sections = sections.copy()  # Caller's collection must survive.
     prev_section = Section()
     while sections:
         section = sections.pop(0)
-- 
2.43.0


From 5a51aefcf3f1a255a99d7d8cd39ce778cdb6b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 14/96] fix: insert_section() accepted engulfing sections and
 measured non-byte data in items

The overlap test looked only at both ends of the new section, and arrays of
wider items advanced the insertion address by their item count.
---
 objutils/image.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index abf2f87..78355f2 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -217,7 +217,9 @@ class Image:
         -------
         bool
         """
-        return address in self or (address + length - 1) in self
+        return any(
+            address < section.start_address + section.length and section.start_address < address + length for section in self.sections
+        )
 
     def insert_section(self, data, start_address=None, join=True):
         """Insert/add a new section to image.
@@ -242,14 +244,16 @@ class Image:
         start_address = (
             start_address if start_address is not None else self.address
         )  # If Address omitted, create continuous address space.
-        if self._address_contained(start_address, len(data)):
-            raise InvalidAddressError("Overlapping address-space")
         if isinstance(data, str):
             data = [ord(x) for x in data]  # array.array('B',data)
-        self._sections.add(Section(start_address, data))
+        section = Section(start_address, data)
+        length = section.length  # Length in bytes, whatever the type of `data`.
+        if self._address_contained(start_address, length):
+            raise InvalidAddressError("Overlapping address-space")
+        self._sections.add(section)
         if join:
             self.join_sections()
-        self.address = start_address + len(data)
+        self.address = start_address + length
 
     @property
     def sections(self):
-- 
2.43.0


From b3f00070a02d9db93219e6934fd2185c0b8c08e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 15/96] fix: read_numeric_array(length=0) returned one element
 and empty arrays could not be written

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 68e50c1..2475849 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -226,7 +226,7 @@ class Section:
         """ """
         fmt, bo = self._verify_dtype(dtype)
 
-        if length > 1:
+        if length != 1:
             return f"{BYTEORDER.get(bo)}{length}{FORMATS.get(fmt)}"
         else:
             return f"{BYTEORDER.get(bo)}{FORMATS.get(fmt)}"
-- 
2.43.0


From 5a16b74eee704e2484dd506abe00ea149b720b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 16/96] fix: reading a 'byte' with a bit mask raised ValueError

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 2475849..c1a4cf9 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -281,7 +281,7 @@ class Section:
 
     def apply_bitmask(self, data, dtype, bit_mask):
         """ """
-        dtype, byteorder = dtype.lower().strip().split("_")
+        dtype, byteorder = self._verify_dtype(dtype)
         byteorder = "little" if byteorder == "le" else "big"
         # type_size = TYPE_SIZES.get(dtype)
         data_size = len(data)
-- 
2.43.0


From 71845cec6a602f8a87165e5fe53d55ed8a99de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 17/96] fix: Section.write() measured non-byte data in items
 and grew the section

---
 objutils/section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/section.py b/objutils/section.py
index c1a4cf9..8bd72fa 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -257,6 +257,7 @@ class Section:
 
         data: array-like
         """
+        data = _data_converter(data)
         length = len(data)
         offset = addr - self.start_address
         if offset < 0:
-- 
2.43.0


From 2f06bdc653d7784af55083cbef45b89510424393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 18/96] fix: string access ignored the end of the section and
 the encoded length

write_string() ran past the end of the section (growing it, or failing after
the memory had been modified) and used the number of characters as number of
bytes; read_string() silently truncated explicit lengths.
---
 objutils/section.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 8bd72fa..c6bf0d6 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -331,6 +331,8 @@ class Section:
         offset = addr - self.start_address
         if offset < 0:
             raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
+        if offset + max(length, 0) > self.length:
+            raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         if length == -1:
             pos = self.data[offset:].find(b"\x00")
         else:
@@ -344,10 +346,12 @@ class Section:
         if offset < 0:
             raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
         if PYTHON_VERSION.major == 3:
-            self.data[offset : offset + len(value)] = bytes(value, encoding=encoding)
+            data = bytes(value, encoding=encoding) + b"\x00"
         else:
-            self.data[offset : offset + len(value)] = bytes(value)
-        self.data[offset + len(value)] = 0
+            data = bytes(value) + b"\x00"
+        if offset + len(data) > self.length:
+            raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
+        self.data[offset : offset + len(data)] = data
 
     def write_ndarray(self, addr, array, order=None, **kws):
         """ """
-- 
2.43.0


From a44cd2950efbb8257c05db6a164bf547fd05150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 19/96] fix: diff_bin() dropped a modification running up to
 the end of the common part

---
 objutils/utils/diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/utils/diff.py b/objutils/utils/diff.py
index 56b6c3c..54e7543 100644
--- a/objutils/utils/diff.py
+++ b/objutils/utils/diff.py
@@ -90,6 +90,8 @@ def diff_bin(a, b):
             if diff_bytes_a:
                 tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
                 diff_bytes_a, diff_bytes_b = bytearray(), bytearray()
+    if diff_bytes_a:
+        tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
     if lb > la:
         tmp.append(BinDiff("A", len(a), None, b[-(lb - la) :]))
     elif lb < la:
-- 
2.43.0


From 9cf5f1c1d1ed164c12219e8e3bee0e1e061d25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 20/96] fix: short positive SLEB128 values were decoded as
 negative numbers

---
 objutils/dwarf/encoding.py | 2 +-
 objutils/readers.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 0d78ef1..14b2be4 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -105,7 +105,7 @@ class SLEB(Construct):
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
diff --git a/objutils/readers.py b/objutils/readers.py
index bfdbd51..a69bef3 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -114,7 +114,7 @@ class PlainBinaryReader:
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
-- 
2.43.0


From d9569e31781cb658051078536401f00e97b27f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:25 +0000
Subject: [PATCH 21/96] fix: reading 32-bit values in native byte order failed
 on LP64 platforms

'L'/'l' are 8 bytes wide with the default '@' prefix.
---
 objutils/readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/readers.py b/objutils/readers.py
index a69bef3..30a8022 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -75,7 +75,7 @@ class PlainBinaryReader:
         return self.value("H", 2)
 
     def u32(self):
-        return self.value("L", 4)
+        return self.value("I", 4)
 
     def u64(self):
         return self.value("Q", 8)
@@ -87,7 +87,7 @@ class PlainBinaryReader:
         return self.value("h", 2)
 
     def s32(self):
-        return self.value("l", 4)
+        return self.value("i", 4)
 
     def s64(self):
         return self.value("q", 8)
-- 
2.43.0


From 27dfab67801ba9dda17bfffee7ab38e48436c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 22/96] fix: hex dump showed the DEL control character as
 printable

---
 objutils/hexdump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexdump.py b/objutils/hexdump.py
index 0107393..feacb77 100644
--- a/objutils/hexdump.py
+++ b/objutils/hexdump.py
@@ -28,7 +28,7 @@ import sys
 
 
 def isprintable(ch) -> bool:
-    return 0x1F < ch < 0x80
+    return 0x1F < ch < 0x7F
 
 
 def unpack(*args):
-- 
2.43.0


From 25968d566bdb578fd6710c85abca9fef65e7d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 23/96] fix: hex dump truncated addresses above 4 GiB to 32
 bits

---
 objutils/section.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index c6bf0d6..1b3cac0 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -197,7 +197,8 @@ class Section:
         yield self
 
     def hexdump(self, fp=sys.stdout):
-        dumper = hexdump.CanonicalDumper(fp)
+        num_address_bits = 32 if self.start_address + self.length <= 2**32 else 64
+        dumper = hexdump.CanonicalDumper(fp, num_address_bits)
         dumper.dump_data(self)
 
     def tobytes(self):
-- 
2.43.0


From a4dacb4f55c42a56073afbf1d89cfd3e64c7f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 24/96] fix: DWARF expressions were decoded with the readers of
 the most recently created processor

The readers were stored on the operation base class, i.e. shared by all
processors of the process regardless of their byte order and word size.
---
 objutils/dwarf/sm.py | 39 ++++++---------------------------------
 1 file changed, 6 insertions(+), 33 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 53208be..e292a21 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -78,46 +78,19 @@ class OperationBase:
     PARAMETERS = []
     ARRAY_SIZE = None
 
-    @classmethod
-    def set_readers(cls, readers):
-        cls.readers = readers
-        cls.native_address = readers.native_address
-        cls.u8 = readers.u8
-        cls.s8 = readers.s8
-        cls.u16 = readers.u16
-        cls.s16 = readers.s16
-        cls.u32 = readers.u32
-        cls.s32 = readers.s32
-        cls.u64 = readers.u64
-        cls.s64 = readers.s64
-        cls.uleb = readers.uleb
-        cls.sleb = readers.sleb
-        cls.block1 = readers.block1
-        cls.READERS = {
-            "native_address": cls.native_address,
-            "u8": cls.u8,
-            "s8": cls.s8,
-            "u16": cls.u16,
-            "s16": cls.s16,
-            "u32": cls.u32,
-            "s32": cls.s32,
-            "u64": cls.u64,
-            "s64": cls.s64,
-            "uleb": cls.uleb,
-            "sleb": cls.sleb,
-            "block1": cls.block1,
-        }
+    def __init__(self, readers):
+        self.readers = readers
 
     def parse(self, image):
         self.result = []
         self.data_block = None
         for type_name in self.PARAMETERS:
-            reader = OperationBase.READERS[type_name]
+            reader = getattr(self.readers, type_name)
             data = reader.parse_stream(image)
             self.result.append(data)
         if self.result and self.ARRAY_SIZE is not None:
             length = self.result[self.ARRAY_SIZE]
-            self.data_block = Array(length, self.u8).parse_stream(image)
+            self.data_block = Array(length, self.readers.u8).parse_stream(image)
             print("*** DATA_BLOCK:", self.data_block)
             raise RuntimeError()
 
@@ -1329,7 +1302,7 @@ class StackMachine:
 
     def __init__(self, readers):
         self.stack = Stack()
-        OperationBase.set_readers(readers)
+        self.readers = readers
 
     def evaluate(self, expr: bytes):
         OPs = constants.Operation
@@ -1350,7 +1323,7 @@ class StackMachine:
                 opcode_name = opcode.name  # noqa: F841
             op_klass = OP_MAP.get(opcode_num)
             if op_klass:
-                operation = op_klass()
+                operation = op_klass(self.readers)
                 operation.parse(image)
                 result.append(str(operation))
                 operation.stack_op(self.stack)
-- 
2.43.0


From ab72e7730c267c94fd7e3b72de89c9138f6e6e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 25/96] fix: data blocks of DWARF operations were taken for
 further operations

implicit_value, entry_value and const_type (and their GNU predecessors) carry a
block of bytes, which has to be consumed and shown as operand.
---
 objutils/dwarf/sm.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index e292a21..65e7fe9 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -32,7 +32,7 @@ import io
 from dataclasses import dataclass
 from typing import Any, List
 
-from construct import Array
+from construct import Bytes
 
 from objutils.dwarf import constants
 
@@ -90,9 +90,7 @@ class OperationBase:
             self.result.append(data)
         if self.result and self.ARRAY_SIZE is not None:
             length = self.result[self.ARRAY_SIZE]
-            self.data_block = Array(length, self.readers.u8).parse_stream(image)
-            print("*** DATA_BLOCK:", self.data_block)
-            raise RuntimeError()
+            self.data_block = Bytes(length).parse_stream(image)
 
     @property
     def value(self):
@@ -109,6 +107,8 @@ class OperationBase:
                     params.append(f"0x{param:08x}")
                 else:
                     params.append(f"{param}")
+            if self.data_block is not None:
+                params.append(self.data_block.hex())
             return f"{self.DISPLAY_NAME}({', '.join(params)})"
         else:
             return f"{self.DISPLAY_NAME}()"
@@ -948,6 +948,7 @@ class Bit_Piece(OperationBase):
 class Implicit_Value(OperationBase):
     DISPLAY_NAME = "implicit_value"
     PARAMETERS = ["uleb"]
+    ARRAY_SIZE = 0
 
 
 class Stack_Value(OperationBase):
@@ -972,11 +973,13 @@ class Constx(OperationBase):
 class Entry_Value(OperationBase):
     DISPLAY_NAME = "entry_value"
     PARAMETERS = ["uleb"]
+    ARRAY_SIZE = 0
 
 
 class Const_Type(OperationBase):
     DISPLAY_NAME = "const_type"
     PARAMETERS = ["uleb", "u8"]
+    ARRAY_SIZE = 1
 
 
 class Regval_Type(OperationBase):
@@ -1031,11 +1034,13 @@ class Gnu_Implicit_Pointer(OperationBase):
 class Gnu_Entry_Value(OperationBase):
     DISPLAY_NAME = "GNU_entry_value"
     PARAMETERS = ["uleb"]
+    ARRAY_SIZE = 0
 
 
 class Gnu_Const_Type(OperationBase):
     DISPLAY_NAME = "GNU_const_type"
-    PARAMETERS = ["uleb", "u8", "block1"]
+    PARAMETERS = ["uleb", "u8"]
+    ARRAY_SIZE = 1
 
 
 class Gnu_Regval_Type(OperationBase):
-- 
2.43.0


From 33bf61461e15d75ac4e12aa18bccd2f63490815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 26/96] fix: operands of DWARF reference and GNU index
 operations

References into .debug_info are section offsets, i.e. 4 bytes wide in (the only
supported) 32-bit DWARF, independent of the size of an address; the index and
pointer operations of GNU have operands.
---
 objutils/dwarf/sm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 65e7fe9..5b92787 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -929,7 +929,7 @@ class Call4(OperationBase):
 
 class Call_Ref(OperationBase):
     DISPLAY_NAME = "call_ref"
-    PARAMETERS = ["native_address"]
+    PARAMETERS = ["u32"]
 
 
 class Form_Tls_Address(OperationBase):
@@ -957,7 +957,7 @@ class Stack_Value(OperationBase):
 
 class Implicit_Pointer(OperationBase):
     DISPLAY_NAME = "implicit_pointer"
-    PARAMETERS = ["native_address", "sleb"]
+    PARAMETERS = ["u32", "sleb"]
 
 
 class Addrx(OperationBase):
@@ -1029,6 +1029,7 @@ class Gnu_Encoded_Addr(OperationBase):
 
 class Gnu_Implicit_Pointer(OperationBase):
     DISPLAY_NAME = "GNU_implicit_pointer"
+    PARAMETERS = ["u32", "sleb"]
 
 
 class Gnu_Entry_Value(OperationBase):
@@ -1065,15 +1066,17 @@ class Gnu_Reinterpret(OperationBase):
 
 class Gnu_Parameter_Ref(OperationBase):
     DISPLAY_NAME = "GNU_parameter_ref"
-    PARAMETERS = ["native_address"]
+    PARAMETERS = ["u32"]
 
 
 class Gnu_Addr_Index(OperationBase):
     DISPLAY_NAME = "GNU_addr_index"
+    PARAMETERS = ["uleb"]
 
 
 class Gnu_Const_Index(OperationBase):
     DISPLAY_NAME = "GNU_const_index"
+    PARAMETERS = ["uleb"]
 
 
 class Hp_Unknown(OperationBase):
-- 
2.43.0


From e1063bc11082dcb62923d7799b63bfe00fda4782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 27/96] fix: DWARF null entries did not close the list of
 children

Siblings following an entry with children were reported as its descendants.
---
 objutils/dwarf/__init__.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 4f51d3d..ce0468b 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -744,25 +744,18 @@ class DwarfProcessor:
                 if not abbr:
                     print(f"<{start:2x}>: Abbrev Number: 0 ---")
                     level -= 1
+                    if len(die_stack) > 1:
+                        die_stack.pop()
                 else:
                     die = DebugInformationEntry(abbr.tag)
                     db_die = model.DebugInformationEntry(tag=abbr.tag)
                     self.db_session.add(db_die)
-                    if attr.attr != 0:
-                        die_stack[-1].children.append(die)
+                    die_stack[-1].children.append(die)
                     print(f"{'   ' * (level + 1)}<{level}><{start:02x}>: Abbrev Number: {attr.attr} ({abbr.tag})")
                     die_start = start
                     if abbr.children:
                         die_stack.append(die)
                         level += 1
-                    else:
-                        pass
-                    if attr.attr == 0:
-                        level -= 1
-                        if len(die_stack):
-                            die_stack.pop()
-                        else:
-                            print("DIE_STACK empty!!!")
                     for enc, form, special_value in abbr.attrs:
                         reader = form_readers.get(form)
                         start = image.tell()
-- 
2.43.0


From 18f962047b910fd72d74ad92d22e4747888b6edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 28/96] fix: implicit constants of DWARF abbreviations are
 signed

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index ce0468b..da5d03f 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -188,7 +188,7 @@ class Abbrevations:
 
     SpecialValueStruct = Struct(
         "start" / Tell,
-        "value" / ULEB,
+        "value" / SLEB,
         "stop" / Tell,
     )
 
-- 
2.43.0


From f1391fa28629849441e8e58fe267c88ab4d00c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:25 +0000
Subject: [PATCH 29/96] fix: last entry of a DWARF unit was lost or incomplete

An entry ending exactly at the end of its unit was not registered, attributes
without data following an implicit constant there were dropped, and an entry
consisting of the last byte of the section was not read at all.
---
 objutils/dwarf/__init__.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index da5d03f..e932f83 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -704,7 +704,7 @@ class DwarfProcessor:
         die_map = {}
         while True:
             section_pos = image.tell()
-            if section_pos >= section_length - 1:
+            if section_pos >= section_length:
                 break
             root_element = DebugInformationEntry("root")
             die_stack = [root_element]
@@ -737,7 +737,7 @@ class DwarfProcessor:
                 start = image.tell()
                 if start >= dbgInfo.start + cu_length + 4:
                     break
-                if start >= section_length - 1:
+                if start >= section_length:
                     break
                 attr = Attribute.parse_stream(image)
                 abbr = self.abbrevations.get(debug_abbrev_offset, attr.attr)
@@ -775,9 +775,6 @@ class DwarfProcessor:
                                     model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
                                 )
                                 offset += attr.stop - attr.start
-                                pos = image.tell()
-                                if pos >= dbgInfo.start + cu_length + 4:
-                                    break
                                 continue
                             else:
                                 print("*EF", enc, form, start, attr, abbr)
@@ -835,12 +832,9 @@ class DwarfProcessor:
                         )
                         db_die.attributes.append(model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value))
                     offset += attr.stop - attr.start
-                    pos = image.tell()
-                    if pos >= dbgInfo.start + cu_length + 4:
-                        break
-                # print(db_die, db_die.attributes)
-                # self.db_session.bulk_save_objects([db_die])
-                die_map[die_start] = die
+                    # print(db_die, db_die.attributes)
+                    # self.db_session.bulk_save_objects([db_die])
+                    die_map[die_start] = die
             result.append(root_element)
         self.db_session.commit()
         return DebugInformation(die_map, [d.children[0] for d in result])
-- 
2.43.0


From 4df6b53e2001b9414de36f79d101b1651e94a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 30/96] fix: block-encoded discriminant lists of DWARF entries
 raised TypeError

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index e932f83..1e06325 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -806,7 +806,7 @@ class DwarfProcessor:
                                 except Exception:
                                     print("VALUE", value, enc, form)
                                     raise
-                        elif enc in ENCODED_ATTRIBUTES:
+                        elif enc in ENCODED_ATTRIBUTES and isinstance(value, int):
                             res = encoding_repr(enc, value)
                             display_value = f"{res} (0x{value:08x})"
                         else:
-- 
2.43.0


From 4aecda61eb73f980f800ae66eff99504e4fa819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 31/96] fix: DWARF constants of 2**63 and above could not be
 stored

---
 objutils/dwarf/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 1e06325..56e71f2 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -111,6 +111,11 @@ def encoding_repr(encoding, value):
         return f"Unknown encoding value ({value})"
 
 
+def column_value(value):
+    """The value columns are of type VARCHAR; SQLite integers are limited to 64-bit signed."""
+    return str(value) if isinstance(value, int) else value
+
+
 @dataclass(frozen=True)
 class Attribute:
     encoding: constants.AttributeEncoding
@@ -772,7 +777,9 @@ class DwarfProcessor:
                                     )
                                 )
                                 db_die.attributes.append(
-                                    model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
+                                    model.DIEAttribute(
+                                        name=enc.name, raw_value=column_value(value), display_value=column_value(display_value)
+                                    )
                                 )
                                 offset += attr.stop - attr.start
                                 continue
@@ -830,7 +837,11 @@ class DwarfProcessor:
                                 DIEAttribute(value, display_value),
                             )
                         )
-                        db_die.attributes.append(model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value))
+                        db_die.attributes.append(
+                            model.DIEAttribute(
+                                name=enc.name, raw_value=column_value(value), display_value=column_value(display_value)
+                            )
+                        )
                     offset += attr.stop - attr.start
                     # print(db_die, db_die.attributes)
                     # self.db_session.bulk_save_objects([db_die])
-- 
2.43.0


From 1c0c864e9d3b288403e88b8e82f6714ce87cd216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 32/96] fix: interrupted loading of an ELF file left a partial
 but trusted database

Every symbol table was committed on its own, together with the hash identifying
the file; if loading was interrupted later on, further openings worked on the
incomplete database.
---
 objutils/elf/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 7e5ceb9..aa1fd97 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -404,7 +404,11 @@ class ElfParser:
         if new_db:
             meta = model.Meta(hash_value=hash_value)
             self.session.add(meta)
-            self.load_data()
+            try:
+                self.load_data()
+            except BaseException:
+                self.db.close()  # Discards the incomplete data and releases the database.
+                raise
         else:
             self._header = self.session.query(model.Elf_Header).first()
             self._program_headers = self.session.query(model.Elf_ProgramHeaders).all()
@@ -683,12 +687,7 @@ class ElfParser:
                 access=section_header.sh_flags if section_header else 0,
             )
             symbols.append(db_sym)
-        try:
-            self.session.bulk_save_objects(symbols)
-            self.session.commit()
-        except Exception as e:
-            self.session.rollback()
-            print(f"{e}")
+        self.session.bulk_save_objects(symbols)
 
     def _parse_comment(self, data):
         Line = Struct("line" / CString("ascii"), "pos" / Tell)
-- 
2.43.0


From dbaf7fe476cbc842dbc41acfc21165abc5bd4203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 33/96] fix: ELF values of 2**63 and above could not be stored

SQLite integers are 64-bit signed, i.e. files with e.g. kernel addresses could not
be opened at all, or lost their symbols.
---
 objutils/elf/__init__.py |  8 ++++----
 objutils/elf/model.py    | 22 ++++++++++++++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index aa1fd97..ef30114 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -204,7 +204,7 @@ class SectionAPI(DBAPI):
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-            query = query.order_by(model.Elf_Section.sh_addr)
+            query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         else:
             query = query.order_by(model.Elf_Section.section_name)
         result = query.all()
@@ -308,7 +308,7 @@ class SymbolAPI(DBAPI):
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
-            query = query.order_by(model.Elf_Symbol.st_value)
+            query = query.order_by(*model.unsigned_order(model.Elf_Symbol.st_value))
         else:
             query = query.order_by(model.Elf_Symbol.symbol_name)
         for key, value in groupby(query.all(), lambda s: s.section_name):
@@ -329,7 +329,7 @@ class SymbolAPI(DBAPI):
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
         syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
-        return syms.order_by(model.Elf_Symbol.st_value).all()
+        return syms.order_by(*model.unsigned_order(model.Elf_Symbol.st_value)).all()
 
 
 def calculate_crypto_hash(data: bytes) -> str:
@@ -992,7 +992,7 @@ class ElfParser:
         if exclude_pattern:
             query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
 
-        query = query.order_by(model.Elf_Section.sh_addr)
+        query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         result = []
         if callback:
             callback("start", None)
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index f1817e2..c15955b 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -87,9 +87,27 @@ table = Table(
 """
 
 
+class UnsignedInteger(types.TypeDecorator):
+    """Unsigned 64-bit integer (SQLite integers are signed)."""
+
+    impl = types.INTEGER
+    cache_ok = True
+
+    def process_bind_param(self, value, dialect):
+        return value - 2**64 if value is not None and value >= 2**63 else value
+
+    def process_result_value(self, value, dialect):
+        return value + 2**64 if value is not None and value < 0 else value
+
+
+def unsigned_order(column):
+    """Criteria ordering by an :class:`UnsignedInteger` column."""
+    return (column < 0, column)
+
+
 def StdInteger(default=0, primary_key=False, unique=False, nullable=False, index=False):
     return Column(
-        types.INTEGER,
+        UnsignedInteger,
         default=default,
         nullable=nullable,  # PassiveDefault(str(default))
         primary_key=primary_key,
@@ -112,7 +130,7 @@ def StdNumeric(default=0, primary_key=False, unique=False, nullable=False, index
 
 def StdBigInt(default=0, primary_key=False, unique=False, nullable=False, index=False):
     return Column(
-        types.INTEGER,
+        UnsignedInteger,
         default=default,
         nullable=nullable,
         primary_key=primary_key,
-- 
2.43.0


From b05f72109714e7e633c8355dcf7a2ea550b448b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 34/96] fix: descriptor of memory-mapped files was never closed

---
 objutils/utils/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index b086681..debc10d 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -179,4 +179,7 @@ class SingletonBase:
 def create_memorymapped_fileview(filename, writeable=False):
     size = os.path.getsize(filename)
     fd = os.open(filename, os.O_RDWR if writeable else os.O_RDONLY)
-    return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    try:
+        return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    finally:
+        os.close(fd)  # The mapping keeps its own reference.
-- 
2.43.0


From 7ee7431513e98fb471e657940cceda2bdcee183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 35/96] fix: only the first of several symbol types was
 honoured

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index ef30114..9a6e77d 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -303,7 +303,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_COMMON)
                 elif item == "tls":
                     flt.append(defs.SymbolType.STT_TLS)
-                query = query.filter(model.Elf_Symbol.st_type.in_(flt))
+            query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
-- 
2.43.0


From d2454f6133b413b4e295ff2d0a337f60c1484c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 36/96] fix: SectionAPI.fetch() ignored its 'sections' argument

---
 objutils/elf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 9a6e77d..cdd6364 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -201,6 +201,9 @@ class SectionAPI(DBAPI):
         """
 
         query = self.query(model.Elf_Section)
+        if sections:
+            sections = [s for s in re.split(r"[ ,]", sections) if s]
+            query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-- 
2.43.0


From 0fd745486f23eaee6b7fbc4954ab0e2edcef1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 37/96] fix: binding properties of symbols raised TypeError

---
 objutils/elf/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index c15955b..9aab805 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -338,7 +338,7 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def weak(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_WEAK
+        return self.st_bind == defs.SymbolBinding.STB_WEAK
 
     @hybrid_property
     def absolute(self):
@@ -350,11 +350,11 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def local(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_LOCAL
+        return self.st_bind == defs.SymbolBinding.STB_LOCAL
 
     @hybrid_property
     def global_(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_GLOBAL
+        return self.st_bind == defs.SymbolBinding.STB_GLOBAL
 
     @hybrid_method
     def get_access(self):
-- 
2.43.0


From 81dae08adb99f7829e13b37db537fc9a8fa4a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 38/96] fix: is_debug/is_dwo properties of sections raised
 AttributeError

---
 objutils/elf/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 9aab805..e0ef544 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -208,11 +208,11 @@ class Elf_Section(Base, RidMixIn):
 
     @hybrid_property
     def is_debug(self):
-        return self.section_name.starts_with(".debug")
+        return self.section_name.startswith(".debug")
 
     @hybrid_property
     def is_dwo(self):
-        return self.section_name.starts_with(".dwo")
+        return self.section_name.startswith(".dwo")
 
     @hybrid_property
     def has_content(self):
-- 
2.43.0


From 80662009c3452013c3721e1e9db37f7a1f0bed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 39/96] fix: ElfParser.header_bytes raised AttributeError

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index cdd6364..776a7d4 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -844,7 +844,7 @@ class ElfParser:
 
     @property
     def header_bytes(self):
-        return self._basic_header.header.bytes
+        return self.fp[: self.EI_NIDENT].tobytes()
 
     @property
     def e_type(self):
-- 
2.43.0


From 66bde80110897d6d51639109b227daa2ed859da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 40/96] fix: only the first note of an ELF section was read,
 and notes with unaligned names were garbled

Name and descriptor of a note are padded to the alignment of the section; a
section may contain several notes, and names may be empty.
---
 objutils/elf/__init__.py | 22 +++++++++++++---------
 objutils/elf/model.py    |  2 +-
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 776a7d4..8c97f12 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -539,8 +539,7 @@ class ElfParser:
                 self._sections_by_name[name] = section
                 image = self._images[idx]
                 if section.sh_type == defs.SectionType.SHT_NOTE:
-                    note_obj = self._parse_note(image)
-                    if note_obj:
+                    for note_obj in self._parse_notes(image, 8 if section.sh_addralign == 8 else 4):
                         note = model.Elf_Note(
                             section_name=name,
                             type=note_obj.type,
@@ -709,19 +708,24 @@ class ElfParser:
             i += line.pos
         return "\n".join(result)
 
-    def _parse_note(self, data):
+    def _parse_notes(self, data, alignment):
         Note = Struct(
             "namesz" / self.Word,
             "descsz" / self.Word,
             "type" / self.Word,
             "name" / Bytes(this.namesz),
+            "_padding" / Bytes(lambda ctx: -(12 + ctx.namesz) % alignment),
             "desc" / Bytes(this.descsz),
+            "size" / Tell,
         )
-        if not data:
-            return None
-        result = Note.parse(data)
-        result.desc = binascii.b2a_hex(result.desc).decode()
-        result.name = self.asciiCString.parse(result.name)
+        result = []
+        offset = 0
+        while data and offset < len(data):
+            note = Note.parse(data[offset:])
+            note.desc = binascii.b2a_hex(note.desc).decode()
+            note.name = note.name.partition(b"\x00")[0].decode("ascii")
+            result.append(note)
+            offset += note.size + -note.size % alignment
         return result
 
     def debug_sections(self):
@@ -924,7 +928,7 @@ class ElfParser:
 
     @property
     def notes(self):
-        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name).all()
+        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name, model.Elf_Note.rid).all()
         if notes:
             return notes
         else:
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index e0ef544..2f3c45d 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -398,7 +398,7 @@ class Elf_Comment(Base, RidMixIn):
 class Elf_Note(Base, RidMixIn):
     """ """
 
-    section_name = Column(types.VARCHAR, unique=True)
+    section_name = Column(types.VARCHAR)
     type = StdInteger()
     name = Column(types.VARCHAR)
     desc = Column(types.VARCHAR)
-- 
2.43.0


From 435a89fe44f36abf44210bc7c4c44c8f06bb45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 41/96] fix: string offset equal to the size of the string
 table raised StreamError

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 8c97f12..cb6186e 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -576,7 +576,7 @@ class ElfParser:
             self.session.bulk_save_objects(sections)
 
     def get_string(self, table_index, entry):
-        if entry > len(self._images[table_index]):
+        if entry >= len(self._images[table_index]):
             return ""
         name = self.asciiCString.parse(self._images[table_index][entry:])
         return name
-- 
2.43.0


From 36b9ff62be4cabc7f1d797a4b8a8db3c151c1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 42/96] fix: implicit constants of unknown DWARF attributes
 raised TypeError

---
 objutils/dwarf/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 56e71f2..5facf6c 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -257,9 +257,13 @@ class Abbrevations:
                     offset += attr.stop - attr.start
                     special_value = self.SpecialValueStruct.parse(self.image[offset:])
                     offset += special_value.stop - special_value.start
+                    try:
+                        encoding = constants.AttributeEncoding(attr.attrValue)
+                    except TypeError:
+                        encoding = constants.FakeEncoding(attr.attrValue)
                     self.abbrevations[key].attrs.append(
                         Attribute(
-                            constants.AttributeEncoding(attr.attrValue),
+                            encoding,
                             constants.AttributeForm(attr.formValue),
                             special_value.value,
                         )
-- 
2.43.0


From f2e027ffed0692477583e76982abf9c6f6beb13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 43/96] fix: codec names are case-insensitive, creating the
 registry again lost all codecs

Registry.get() lower-cases the name it is asked for, but register() did not:
codecs registered under a name with capitals were unreachable.  Every call of
Registry() re-initialized the shared instance.
---
 objutils/registry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 6e9d1bb..71ae010 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -42,7 +42,8 @@ Codec = namedtuple("Codec", "Reader Writer description")
 
 class Registry(SingletonBase):
     def __init__(self):
-        self._codecs = OrderedDict()
+        if not hasattr(self, "_codecs"):  # __init__() is called for each "instantiation".
+            self._codecs = OrderedDict()
 
     def __iter__(self):
         return iter(self._codecs.items())
@@ -60,6 +61,7 @@ class Registry(SingletonBase):
         return codec
 
     def register(self, name, readerClass, writerClass, description=""):
+        name = name.lower()
         if name in self.codecs:
             raise CodecAlreadyExistError(name)
         self._codecs[name] = Codec(readerClass, writerClass, description)
-- 
2.43.0


From 638939e7f82f8a4dc840056cba33f2623802501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 44/96] fix: every Logger instance added another handler

Messages got repeated once per reader/writer created so far.
---
 objutils/logger.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/objutils/logger.py b/objutils/logger.py
index e443e81..07af1ef 100644
--- a/objutils/logger.py
+++ b/objutils/logger.py
@@ -35,11 +35,12 @@ class Logger:
     def __init__(self, name, level=logging.WARN):
         self.logger = logging.getLogger(f"{self.LOGGER_BASE_NAME}.{name}")
         self.logger.setLevel(level)
-        handler = logging.StreamHandler()
-        handler.setLevel(level)
-        formatter = logging.Formatter(self.FORMAT)
-        handler.setFormatter(formatter)
-        self.logger.addHandler(handler)
+        if not self.logger.handlers:
+            handler = logging.StreamHandler()
+            handler.setLevel(level)
+            formatter = logging.Formatter(self.FORMAT)
+            handler.setFormatter(formatter)
+            self.logger.addHandler(handler)
         self.lastMessage = None
         self.lastSeverity = None
 
-- 
2.43.0


From 91b51d162876dee5f0c6dbd31f9bd1cc945f4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:37 +0000
Subject: [PATCH 45/96] fix: ARM attributes with unknown tags or values raised
 KeyError

The ABI defines how to skip tags a consumer doesn't know: from 32 upwards
even tags carry an ULEB128 value and odd tags a string.
---
 objutils/elf/arm/attributes.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 3bc99c1..213cd0c 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -391,6 +391,13 @@ WRS         Wind River Systems.
 """
 
 
+def describe_attribute(tag):
+    if tag in ATTRIBUTES:
+        return ATTRIBUTES[tag]
+    parameterType = Reader.CSTRING if tag > 32 and tag % 2 else Reader.ULEB
+    return AttributeDescription(f"Tag_unknown_{tag}", tag, parameterType, Ident)
+
+
 class Attribute:
     def __init__(self, tag, tag_name, value, description=None):
         self.tag = tag
@@ -437,9 +444,9 @@ def parse(buffer, byteorder="<"):
 
     RawAttribute = Struct(
         "tag" / ULEB,
-        "parameterType" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].parameterType),
-        "name" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].tag),
-        "_conv" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].conv),
+        "parameterType" / Computed(lambda ctx: describe_attribute(ctx.tag).parameterType),
+        "name" / Computed(lambda ctx: describe_attribute(ctx.tag).tag),
+        "_conv" / Computed(lambda ctx: describe_attribute(ctx.tag).conv),
         "value"
         / Switch(
             this.parameterType,
@@ -465,7 +472,7 @@ def parse(buffer, byteorder="<"):
             attr = RawAttribute.parse(res.data[j:])
             r = Attribute(attr.tag, attr.name, attr.value)
             if attr._conv != Ident:
-                r.description = attr._conv[attr.value]
+                r.description = attr._conv.get(attr.value, attr.value)
             result[section.vendor].append(r)
             j += attr.pos
         if i >= length:
-- 
2.43.0


From b6302dda8920ae7281d656033a3a9bafa63cd5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 46/96] fix: ARM compatibility attribute consists of a flag and
 a vendor name

With a flag of zero the vendor name got parsed as further attributes.
---
 objutils/elf/arm/attributes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 213cd0c..c1ff9ed 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -54,6 +54,7 @@ class Reader(IntEnum):
     INT32 = 1
     CSTRING = 2
     ULEB = 3
+    ULEB_CSTRING = 4
 
 
 Ident = {}
@@ -335,7 +336,7 @@ ATTRIBUTES = {
     29: AttributeDescription("Tag_ABI_WMMX_args", 29, Reader.ULEB, Tag_ABI_WMMX_args),
     30: AttributeDescription("Tag_ABI_optimization_goals", 30, Reader.ULEB, Tag_ABI_optimization_goals),
     31: AttributeDescription("Tag_ABI_FP_optimization_goals", 31, Reader.ULEB, Tag_ABI_FP_optimization_goals),
-    32: AttributeDescription("Tag_compatibility", 32, Reader.CSTRING, Ident),
+    32: AttributeDescription("Tag_compatibility", 32, Reader.ULEB_CSTRING, Ident),
     34: AttributeDescription("Tag_CPU_unaligned_access", 34, Reader.ULEB, Tag_CPU_unaligned_access),
     36: AttributeDescription(
         "Tag_FP_HP_extension (was Tag_VFP_HP_extension)",
@@ -442,6 +443,11 @@ def parse(buffer, byteorder="<"):
         "data" / Bytes(this.len - this._pos),
     )
 
+    FlagAndName = Struct(
+        "flag" / ULEB,
+        "name" / CString(encoding="ascii"),
+    )
+
     RawAttribute = Struct(
         "tag" / ULEB,
         "parameterType" / Computed(lambda ctx: describe_attribute(ctx.tag).parameterType),
@@ -454,6 +460,7 @@ def parse(buffer, byteorder="<"):
                 Reader.INT32: Integer,
                 Reader.ULEB: ULEB,
                 Reader.CSTRING: CString(encoding="ascii"),
+                Reader.ULEB_CSTRING: FlagAndName,
             },
         ),
         "pos" / Tell,
@@ -470,7 +477,8 @@ def parse(buffer, byteorder="<"):
         j = 0
         while j < len(res.data):
             attr = RawAttribute.parse(res.data[j:])
-            r = Attribute(attr.tag, attr.name, attr.value)
+            value = (attr.value.flag, attr.value.name) if attr.parameterType == Reader.ULEB_CSTRING else attr.value
+            r = Attribute(attr.tag, attr.name, value)
             if attr._conv != Ident:
                 r.description = attr._conv.get(attr.value, attr.value)
             result[section.vendor].append(r)
-- 
2.43.0


From c261bc2d26fb9970a36068c0f56783ec73b4168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 47/96] fix: ASCII-Hex writer produced files no reader accepts

Addresses have to be terminated (`$A1000,`), and the checksum field is
introduced by `$S`.
---
 objutils/ash.py     | 3 ++-
 objutils/hexfile.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/objutils/ash.py b/objutils/ash.py
index e6d6996..acb8f28 100644
--- a/objutils/ash.py
+++ b/objutils/ash.py
@@ -65,6 +65,7 @@ class Reader(hexfile.ASCIIHexReader):
 class Writer(hexfile.ASCIIHexWriter):
     MAX_ADDRESS_BITS = 16
     ADDRESS_DESIGNATOR = "$A"
+    address_terminator = ","
 
     def __init__(self, address_designator="$A"):
         super().__init__(address_designator)
@@ -76,7 +77,7 @@ class Writer(hexfile.ASCIIHexWriter):
         return line
 
     def compose_footer(self, meta):
-        line = f"{ETX}$${self.checksum % 65536:04X},"
+        line = f"{ETX}$S{self.checksum % 65536:04X},"
         return line
 
     def row_callout(self, address, length, row):
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 451e46e..302c85f 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -471,6 +471,7 @@ class ASCIIHexReader(Reader):
 
 class ASCIIHexWriter(Writer):
     MAX_ADDRESS_BITS = 16
+    address_terminator = ""
     previous_address = None
 
     def __init__(self, address_designator):
@@ -483,7 +484,7 @@ class ASCIIHexWriter(Writer):
         self.previous_address = address + length
         if prepend_address:
             line = "{}\n{}".format(
-                f"{self.address_designator}{address:04X}",
+                f"{self.address_designator}{address:04X}{self.address_terminator}",
                 f"{self.separator}".join([f"{x:02X}" for x in row]),
             )
         else:
-- 
2.43.0


From 2e072ea97347f223bebcef9ff2a4efd81c4cd8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 48/96] fix: separator of ASCII-Hex writer was used for the
 first line of a block only

---
 objutils/hexfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 302c85f..a5812e2 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -488,7 +488,7 @@ class ASCIIHexWriter(Writer):
                 f"{self.separator}".join([f"{x:02X}" for x in row]),
             )
         else:
-            line = " ".join([f"{x:02X}" for x in row])
+            line = self.separator.join([f"{x:02X}" for x in row])
         self.row_callout(address, length, row)
         return line
 
-- 
2.43.0


From fa3d91548cb299a81c5520908822782a49be2a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 49/96] fix: read_ndarray() took unknown type names ('byte_be')
 for numpy types

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 1b3cac0..57eb28c 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -219,7 +219,7 @@ class Section:
             print("DTYPE:", dtype)
             raise TypeError("dtype must be suffixed with '_be' or '_le'")
         match = DTYPE.match(dtype)
-        if not match:
+        if not match or dtype[:-3] not in FORMATS:
             raise TypeError(f"Invalid datatype '{dtype}'")
         return dtype.split("_")
 
-- 
2.43.0


From 34959b5da22e18558cf2fb64f793c1b2be06ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 50/96] fix: word-wise checksums of lists of integers raised
 TypeError

---
 objutils/checksums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/checksums.py b/objutils/checksums.py
index fcbf715..9c1f8f0 100644
--- a/objutils/checksums.py
+++ b/objutils/checksums.py
@@ -756,7 +756,7 @@ def wordSum(modulus, step):
             mask = "<I"
         else:
             raise NotImplementedError("Only WORDs or DWORDs are supported.")
-        x = [struct.unpack(mask, frame[x : x + step])[0] for x in range(0, len(frame), step)]
+        x = [struct.unpack(mask, bytes(frame[x : x + step]))[0] for x in range(0, len(frame), step)]
         return sum(x) % modulus
 
     return add
-- 
2.43.0


From 2ec518d250459e035ce7da05d3a9abe1c0f25851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 51/96] fix: hex dumper elided rows of a section because of the
 section dumped before

---
 objutils/hexdump.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/hexdump.py b/objutils/hexdump.py
index feacb77..d1d2c69 100644
--- a/objutils/hexdump.py
+++ b/objutils/hexdump.py
@@ -45,6 +45,8 @@ class Dumper:
         self.elided = False
 
     def dump_data(self, section, offset=0):
+        self.previous_row = b""
+        self.elided = False
         end = section.length
         # line_count = math.ceil(len(section.data) / self.LINE_LENGTH)
         start_pos = 0
-- 
2.43.0


From fd9a67f46f2d24c9eb2ce361c06d40823eca8fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 52/96] fix: ELF files without section name or symbol name
 string table raised TypeError

---
 objutils/elf/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index cb6186e..5e2d38e 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -576,9 +576,10 @@ class ElfParser:
             self.session.bulk_save_objects(sections)
 
     def get_string(self, table_index, entry):
-        if entry >= len(self._images[table_index]):
+        table = self._images.get(table_index)
+        if table is None or entry >= len(table):
             return ""
-        name = self.asciiCString.parse(self._images[table_index][entry:])
+        name = self.asciiCString.parse(table[entry:])
         return name
 
     def _parse_program_headers(self):
-- 
2.43.0


From 641e2244fd283d950a973166dc5835ef59407faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 53/96] fix: hidden symbols were not recognized if further bits
 of st_other are set

---
 objutils/elf/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 2f3c45d..c0fbb53 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -327,14 +327,14 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def hidden(self):
-        return self.st_other in (
+        return (self.st_other & 0x03) in (
             defs.SymbolVisibility.STV_HIDDEN,
             defs.SymbolVisibility.STV_INTERNAL,
         )
 
     @hidden.expression
     def hidden(self):
-        return self.st_other.in_((defs.SymbolVisibility.STV_HIDDEN, defs.SymbolVisibility.STV_INTERNAL))
+        return self.st_other.op("&")(0x03).in_((defs.SymbolVisibility.STV_HIDDEN, defs.SymbolVisibility.STV_INTERNAL))
 
     @hybrid_property
     def weak(self):
-- 
2.43.0


From 1fd7141b9c4e915c0055f47ae0994a0e1bbc49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 54/96] fix: description of ARM machine data changed after its
 first use

---
 objutils/elf/defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index f26eee4..6cfcc46 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -583,7 +583,7 @@ class ArmMachineData(MachineData):
 
     def specific(self) -> list:
         eabi = self.flags & EF_ARM_EABIMASK
-        flags = self.flags = self.flags & EF_ARM_EABIMASK_COM
+        flags = self.flags & EF_ARM_EABIMASK_COM
         print("ARM", hex(eabi), hex(flags))
         result = []
 
-- 
2.43.0


From d78c8d70f18df66da6e5bc2b799519e28034d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 55/96] fix: database of a cached ELF file stayed locked by a
 second connection

---
 objutils/elf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 5e2d38e..49e5a5d 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -393,9 +393,9 @@ class ElfParser:
             meta = session.query(model.Meta).first()
             if meta:
                 print(f"Calculated hash: {hash_value} DB-hash: {meta.hash_value} EQ: {hash_value == meta.hash_value}")
-            if (meta is None) or (hash_value != meta.hash_value):
-                db.close()
-                new_db = True
+            new_db = (meta is None) or (hash_value != meta.hash_value)
+            db.close()
+            if new_db:
                 try:
                     os.unlink(self.db_name)
                 except Exception as e:
-- 
2.43.0


From a2f5d13a8950423fcda521efee01fafe80f2ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 56/96] fix: empty symbol tables raised TypeError

---
 objutils/elf/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 49e5a5d..076317c 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -661,9 +661,10 @@ class ElfParser:
             )
         symbol_cache = {}
         # num_symbols = len(section.image) // Symbol.sizeof()
-        for offset in range(0, len(section.image), Symbol.sizeof()):
+        image = section.image or b""  # An empty table has no image.
+        for offset in range(0, len(image), Symbol.sizeof()):
             try:
-                sym = Symbol.parse(section.image[offset : offset + Symbol.sizeof()])
+                sym = Symbol.parse(image[offset : offset + Symbol.sizeof()])
             except StreamError as e:
                 print(f"parse symbol section: {e}")
                 continue
-- 
2.43.0


From 406930084c81ffc594876ad4514e0d8dabbda4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 57/96] fix: name patterns of ELF queries selected the wrong
 items

SQLAlchemy registers a function REGEXP with swapped arguments on every
connection, which replaced the one of objutils.
---
 objutils/elf/__init__.py | 10 +++++-----
 objutils/elf/model.py    |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 076317c..b624f2f 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -205,7 +205,7 @@ class SectionAPI(DBAPI):
             sections = [s for s in re.split(r"[ ,]", sections) if s]
             query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
+            query = query.filter(func.name_matches(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
             query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         else:
@@ -308,7 +308,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_TLS)
             query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
+            query = query.filter(func.name_matches(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
             query = query.order_by(*model.unsigned_order(model.Elf_Symbol.st_value))
@@ -330,7 +330,7 @@ class SymbolAPI(DBAPI):
         """
         syms = self.query(model.Elf_Symbol).filter(model.Elf_Symbol.st_shndx == defs.SectionName.SHN_ABS)
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
-        syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
+        syms = syms.filter(func.name_matches(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
         return syms.order_by(*model.unsigned_order(model.Elf_Symbol.st_value)).all()
 
@@ -996,10 +996,10 @@ class ElfParser:
         # print("SECTIONS", sections)
 
         if include_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, include_pattern))
+            query = query.filter(func.name_matches(model.Elf_Section.section_name, include_pattern))
 
         if exclude_pattern:
-            query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
+            query = query.filter(not_(func.name_matches(model.Elf_Section.section_name, exclude_pattern)))
 
         query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         result = []
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index c0fbb53..06973e0 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -473,7 +473,8 @@ def regexer(value, expr):
 
 @event.listens_for(Engine, "connect")
 def set_sqlite3_pragmas(dbapi_connection, connection_record):
-    dbapi_connection.create_function("REGEXP", 2, regexer)
+    # NB: SQLAlchemy provides its own REGEXP function (with swapped arguments).
+    dbapi_connection.create_function("NAME_MATCHES", 2, regexer)
     cursor = dbapi_connection.cursor()
     # cursor.execute("PRAGMA jornal_mode=WAL")
     cursor.execute("PRAGMA FOREIGN_KEYS=ON")
-- 
2.43.0


From e42c6efae231583b234bfcfbef99b038dae3c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 58/96] fix: blocks, string lists and the implicit flag could
 not be encoded

Parsed blocks are bytes, but building one raised TypeError unless it
was given as str; DW_FORM_flag_present has no encoded bytes at all; a
list of strings was built without its terminator and decoded with a
fixed encoding.
---
 objutils/dwarf/encoding.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 14b2be4..e699ec3 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -133,10 +133,7 @@ class One(Construct):
         return 1
 
     def _build(self, value, stream, context, path):
-        count = struct.pack("B", 1)
-        value = 1
-        stream.write(count)
-        stream.write(bytes(value, encoding="ascii"))
+        pass  # Implicit value, doesn't occupy space.
 
 
 class Block(Construct):
@@ -156,9 +153,10 @@ class Block(Construct):
 
     def _build(self, value, stream, context, path):
         msk = f"{self.BYTEORDER}{self.MASK}"
-        count = struct.pack(msk, len(value))
+        data = bytes(value, encoding="ascii") if isinstance(value, str) else bytes(value)
+        count = struct.pack(msk, len(data))
         stream.write(count)
-        stream.write(bytes(value, encoding="ascii"))
+        stream.write(data)
 
 
 @singleton
@@ -169,9 +167,10 @@ class BlockUleb(Block):
         return result
 
     def _build(self, value, stream, context, path):
-        count = ULEB.build(len(value))
+        data = bytes(value, encoding="ascii") if isinstance(value, str) else bytes(value)
+        count = ULEB.build(len(data))
         stream.write(count)
-        stream.write(bytes(value, encoding="ascii"))
+        stream.write(data)
 
 
 @singleton
@@ -259,7 +258,7 @@ class StrP(Construct):
 
 class ArrayOfCStrings(Construct):
 
-    def __init__(self, encoding: str = "ascii") -> None:
+    def __init__(self, encoding: str = "utf8") -> None:
         self.str_type = CString(encoding=encoding)
         super().__init__()
 
@@ -267,7 +266,7 @@ class ArrayOfCStrings(Construct):
         result = []
 
         while True:
-            value = CString(encoding="utf8").parse_stream(stream)
+            value = self.str_type.parse_stream(stream)
             if not value:
                 break
             result.append(value)
@@ -275,12 +274,9 @@ class ArrayOfCStrings(Construct):
         return result
 
     def _build(self, values, stream, context, path):
-        if values:
-            for value in values:
-                stream.write(self.str_type.build(value))
-        else:
-            stream.write(NULL_CHAR)
-        # stream.write(NULL_CHAR)
+        for value in values:
+            stream.write(self.str_type.build(value))
+        stream.write(NULL_CHAR)
 
 
 @dataclass
-- 
2.43.0


From 76c463413ce634441d7748dea428b810419abe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 59/96] fix: DW_OP_GNU_push_tls_address was rendered as
 HP_unknown

0xE0 is a GNU operation in the files of all supported tool chains, the
boundary of the user range and an HP operation; the last one won.
---
 objutils/dwarf/constants.py | 2 +-
 objutils/dwarf/sm.py        | 2 --
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/objutils/dwarf/constants.py b/objutils/dwarf/constants.py
index 9548c46..d28b68e 100644
--- a/objutils/dwarf/constants.py
+++ b/objutils/dwarf/constants.py
@@ -637,9 +637,9 @@ class Operation(EnumBase):
     convert = 0xA8
     reinterpret = 0xA9
 
+    GNU_push_tls_address = 0xE0
     lo_user = 0xE0
     hi_user = 0xFF
-    GNU_push_tls_address = 0xE0
     GNU_uninit = 0xF0
     GNU_encoded_addr = 0xF1
     GNU_implicit_pointer = 0xF2
diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 5b92787..2c2320a 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -1276,7 +1276,6 @@ OP_MAP = {
     constants.Operation.xderef_type: Xderef_Type,
     constants.Operation.convert: Convert,
     constants.Operation.reinterpret: Reinterpret,
-    constants.Operation.lo_user: Lo_User,
     constants.Operation.hi_user: Hi_User,
     constants.Operation.GNU_push_tls_address: Gnu_Push_Tls_Address,
     constants.Operation.GNU_uninit: Gnu_Uninit,
@@ -1291,7 +1290,6 @@ OP_MAP = {
     constants.Operation.GNU_parameter_ref: Gnu_Parameter_Ref,
     constants.Operation.GNU_addr_index: Gnu_Addr_Index,
     constants.Operation.GNU_const_index: Gnu_Const_Index,
-    constants.Operation.HP_unknown: Hp_Unknown,
     constants.Operation.HP_is_value: Hp_Is_Value,
     constants.Operation.HP_fltconst4: Hp_Fltconst4,
     constants.Operation.HP_fltconst8: Hp_Fltconst8,
-- 
2.43.0


From fc44e40f7808b9efddd8c4da541eb3e31f9caf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 60/96] fix: tags and calling conventions added by DWARF 5 were
 reported as unknown

---
 objutils/dwarf/constants.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/objutils/dwarf/constants.py b/objutils/dwarf/constants.py
index d28b68e..b333ae4 100644
--- a/objutils/dwarf/constants.py
+++ b/objutils/dwarf/constants.py
@@ -108,7 +108,14 @@ class Tag(EnumBase):
     type_unit = 0x41
     rvalue_reference_type = 0x42
     template_alias = 0x43
+    coarray_type = 0x44
+    generic_subrange = 0x45
+    dynamic_type = 0x46
     atomic_type = 0x47
+    call_site = 0x48
+    call_site_parameter = 0x49
+    skeleton_unit = 0x4A
+    immutable_type = 0x4B
     lo_user = 0x4080
     hi_user = 0xFFFF
     MIPS_loop = 0x4081
@@ -747,6 +754,8 @@ class CallingConvention(EnumBase):
     normal = 0x01
     program = 0x02
     nocall = 0x03
+    pass_by_reference = 0x04
+    pass_by_value = 0x05
     renesas_sh = 0x40
     borland_fastcall_i386 = 0x41
     thiscall_i386 = 0x42
-- 
2.43.0


From bf9c17f7b8e209698f2ddfb81818559aefc6da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 61/96] fix: type and skeleton units of DWARF 5 were decoded
 from the wrong position

The headers of these units are followed by further fields, which were
taken for the first entry of the unit.
---
 objutils/dwarf/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 5facf6c..739cc14 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -684,6 +684,22 @@ class DwarfProcessor:
             "unit_type" / self.readers.u8,
             "address_size" / self.readers.u8,
             "debug_abbrev_offset" / self.readers.u32,
+            "unit_id"
+            / If(
+                lambda ctx: ctx.unit_type
+                in (
+                    constants.UnitHeader.DW_UT_type,
+                    constants.UnitHeader.DW_UT_skeleton,
+                    constants.UnitHeader.DW_UT_split_compile,
+                    constants.UnitHeader.DW_UT_split_type,
+                ),
+                self.readers.u64,
+            ),
+            "type_offset"
+            / If(
+                lambda ctx: ctx.unit_type in (constants.UnitHeader.DW_UT_type, constants.UnitHeader.DW_UT_split_type),
+                self.readers.u32,
+            ),
             "stop" / Tell,
         )
 
-- 
2.43.0


From a3ff734cd5ea247accfd72173f9cdf43cd1f868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 62/96] fix: DW_FORM_ref_addr of DWARF 2 was decoded with the
 wrong size

References of this form are of the size of an address in DWARF 2.
---
 objutils/dwarf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 739cc14..6d68203 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -580,7 +580,7 @@ class DwarfProcessor:
 
             MacroInformationHeader.parse_stream(image)
 
-    def get_form_readers(self, addressSize):
+    def get_form_readers(self, addressSize, version=3):
         return {
             constants.AttributeForm.DW_FORM_string: self.readers.cstring_utf8,
             constants.AttributeForm.DW_FORM_udata: self.readers.uleb,
@@ -595,7 +595,7 @@ class DwarfProcessor:
             constants.AttributeForm.DW_FORM_block2: self.readers.block2,
             constants.AttributeForm.DW_FORM_block4: self.readers.block4,
             constants.AttributeForm.DW_FORM_flag: self.readers.u8,
-            constants.AttributeForm.DW_FORM_ref_addr: self.readers.u32,
+            constants.AttributeForm.DW_FORM_ref_addr: Address(addressSize, self.endianess) if version < 3 else self.readers.u32,
             constants.AttributeForm.DW_FORM_ref1: self.readers.u8,
             constants.AttributeForm.DW_FORM_ref2: self.readers.u16,
             constants.AttributeForm.DW_FORM_ref4: self.readers.u32,
@@ -754,7 +754,7 @@ class DwarfProcessor:
             level = 0
             pos = 0
             offset += dbgInfo.stop - dbgInfo.start
-            form_readers = self.get_form_readers(address_size)
+            form_readers = self.get_form_readers(address_size, version)
             print("Pos, Length", pos, cu_length)
             if pos >= cu_length:
                 break
-- 
2.43.0


From 1eb405dc8ec42ec8c1871dab02b35c09befdb755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:38 +0000
Subject: [PATCH 63/96] fix: SHF readers and writers shared the report of their
 last error

The logger was a class attribute, so the report of an object was replaced
(or cleared) by every other object, in other threads as well.
---
 objutils/shf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/objutils/shf.py b/objutils/shf.py
index 0ca3b95..2f1c2d6 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -77,7 +77,8 @@ def sha1_digest(text: str):
 class Reader:
     """ """
 
-    logger = Logger(__name__)
+    def __init__(self):
+        self.logger = Logger(__name__)
 
     def load(self, fp):
         if isinstance(fp, str):
@@ -147,7 +148,8 @@ class Reader:
 class Writer:
     """ """
 
-    logger = Logger(__name__)
+    def __init__(self):
+        self.logger = Logger(__name__)
 
     def dump(self, fp, image, **kws):
         data = self.dumps(image)  # May raise, so don't touch the destination before.
-- 
2.43.0


From ac9cd18178f298d8375e6b67047f34ed1dd105cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 64/96] fix: options of one write were kept by the writer for
 the next one

A writer object remembered the options of a former dump(), and the S-record
writer even the record type it had chosen itself: writing a 16-bit image and
then a 32-bit one with the same object raised AddressRangeToLargeError.
---
 objutils/hexfile.py | 17 ++++++++++++-----
 objutils/srec.py    | 25 +++++++++++++------------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index a5812e2..ef24e36 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -337,13 +337,20 @@ class Writer(BaseType):
             fp.close()
 
     def dumps(self, image, row_length=16, **kws):
-        result = []
         self.row_length = row_length
         if hasattr(image, "sections") and not image.sections:
             return b""
         if self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
             raise AddressRangeToLargeError("could not encode image.")
-        self.set_parameters(**kws)
+        saved = self.set_parameters(**kws)
+        try:
+            return self._dumps(image, row_length)
+        finally:  # The next write starts with the defaults again.
+            for k, v in saved.items():
+                setattr(self, k, v)
+
+    def _dumps(self, image, row_length):
+        result = []
         self.pre_processing(image)
         header = self.compose_header(image.meta if hasattr(image, "meta") else {})
         if header:
@@ -381,13 +388,13 @@ class Writer(BaseType):
 
     def set_parameters(self, **kws):
         params = {}
-        for k, v in kws.items():
+        for k in kws:
             try:
                 params[k] = getattr(self, k)
             except AttributeError as e:
                 raise AttributeError(f"Invalid keyword argument {k!r}.") from e
-            else:
-                setattr(self, k, v)
+        for k, v in kws.items():
+            setattr(self, k, v)
         return params
 
     def compose_row(self, address, length, row):
diff --git a/objutils/srec.py b/objutils/srec.py
index 4d4570b..7b15f9a 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -142,17 +142,18 @@ class Writer(hexfile.Writer):
 
     def pre_processing(self, image):
         highest_address = self.highest_address(image)
-        if self.record_type is None:
+        self.data_record_type = self.record_type
+        if self.data_record_type is None:
             if highest_address <= 0x000000FFFF:
-                self.record_type = 1
+                self.data_record_type = 1
             elif highest_address <= 0x00FFFFFF:
-                self.record_type = 2
+                self.data_record_type = 2
             elif highest_address <= 0xFFFFFFFF:
-                self.record_type = 3
-        elif highest_address.bit_length() > (self.record_type + 1) * 8:
-            raise hexfile.AddressRangeToLargeError(f"could not encode image using S{self.record_type} records.")
-        self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
-        self.offset = self.record_type + 2
+                self.data_record_type = 3
+        elif highest_address.bit_length() > (self.data_record_type + 1) * 8:
+            raise hexfile.AddressRangeToLargeError(f"could not encode image using S{self.data_record_type} records.")
+        self.address_mask = f"%0{(self.data_record_type + 1) * 2:d}X"
+        self.offset = self.data_record_type + 2
 
     def srecord(self, record_type, length, address, data=None):
         if data is None:
@@ -170,7 +171,7 @@ class Writer(hexfile.Writer):
 
     def compose_row(self, address, length, row):
         self.record_count += 1
-        return self.srecord(self.record_type, length, address, row)
+        return self.srecord(self.data_record_type, length, address, row)
 
     def compose_header(self, meta):
         self.record_count = 0
@@ -185,19 +186,19 @@ class Writer(hexfile.Writer):
         if self.s5record:
             result.append(self.srecord(5, 0, self.record_count))
         if self.start_address is not None:
-            if self.record_type == 1:  # 16bit.
+            if self.data_record_type == 1:  # 16bit.
                 if S9 in meta:
                     s9 = meta[S9][0]
                     result.append(self.srecord(9, 0, s9.address))
                 else:
                     result.append(self.srecord(9, 0, self.start_address))
-            elif self.record_type == 2:  # 24bit.
+            elif self.data_record_type == 2:  # 24bit.
                 if S8 in meta:
                     s8 = meta[S8][0]
                     result.append(self.srecord(8, 0, s8.address))
                 else:
                     result.append(self.srecord(8, 0, self.start_address))
-            elif self.record_type == 3:  # 32bit.
+            elif self.data_record_type == 3:  # 32bit.
                 if S7 in meta:
                     s7 = meta[S7][0]
                     result.append(self.srecord(7, 0, s7.address))
-- 
2.43.0


From 32b1dfe1375e731d8925f85d2e1b39c5f1b51357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 65/96] fix: readers and writers kept addresses of the file
 they had processed before

- Intel HEX and COSMAC readers applied the extended respectively the last
  address of the file read before,
- the TI-TXT writer left out the address of a section which directly follows
  the last one of the image written before.
---
 objutils/cosmac.py  | 4 ++++
 objutils/hexfile.py | 3 +++
 objutils/ihex.py    | 7 ++++---
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/objutils/cosmac.py b/objutils/cosmac.py
index e20ae6d..2c4e1f7 100644
--- a/objutils/cosmac.py
+++ b/objutils/cosmac.py
@@ -43,6 +43,10 @@ class Reader(hexfile.Reader):
     previous_address = 0
     previous_length = 0
 
+    def read(self, fp):
+        self.previous_address = self.previous_length = 0
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         return True
 
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index ef24e36..de5e2a9 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -486,6 +486,9 @@ class ASCIIHexWriter(Writer):
         self.address_designator = address_designator
         super().__init__()
 
+    def pre_processing(self, image):
+        self.previous_address = None
+
     def compose_row(self, address, length, row):
         prepend_address = True if address != self.previous_address else False
         self.previous_address = address + length
diff --git a/objutils/ihex.py b/objutils/ihex.py
index 8531127..451bc07 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -49,6 +49,10 @@ class Reader(hexfile.Reader):
         super().__init__()
         self.segmentAddress = 0
 
+    def read(self, fp):
+        self._address_calculator = partial(operator.add, 0)  # No extended address yet.
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         if line.length != len(line.chunk):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
@@ -103,9 +107,6 @@ class Reader(hexfile.Reader):
         else:
             self.warn(f"Invalid record type [{line.type:u}] at line {line.line_number:u}")
 
-    def _address_calculator(self, x):
-        return x
-
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 32
-- 
2.43.0


From 06f647c884adc64b494e64cd6c98ea830c309fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 66/96] fix: registry admitted a name twice when two threads
 registered it, and listing broke on registration

Registry.register() tests and inserts under the lock now, iterating uses a snapshot.
---
 objutils/registry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 71ae010..aa4ece4 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -46,7 +46,7 @@ class Registry(SingletonBase):
             self._codecs = OrderedDict()
 
     def __iter__(self):
-        return iter(self._codecs.items())
+        return iter(list(self._codecs.items()))  # Registering meanwhile must not break the iteration.
 
     def _get_codecs(self):
         return self._codecs
@@ -62,9 +62,10 @@ class Registry(SingletonBase):
 
     def register(self, name, readerClass, writerClass, description=""):
         name = name.lower()
-        if name in self.codecs:
-            raise CodecAlreadyExistError(name)
-        self._codecs[name] = Codec(readerClass, writerClass, description)
+        with self._lock:
+            if name in self.codecs:
+                raise CodecAlreadyExistError(name)
+            self._codecs[name] = Codec(readerClass, writerClass, description)
         readerClass.codecName = name
         writerClass.codecName = name
 
-- 
2.43.0


From 2486878fe86dbc487c1e53771ebebd464aec5984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 67/96] fix: oj_hex_info reported success for invalid files

Unreadable files end with a message and exit status 1, like in the other tools.
---
 objutils/scripts/oj_hex_info.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/objutils/scripts/oj_hex_info.py b/objutils/scripts/oj_hex_info.py
index c053cc9..37c60b9 100644
--- a/objutils/scripts/oj_hex_info.py
+++ b/objutils/scripts/oj_hex_info.py
@@ -70,7 +70,14 @@ def main():
         print(f"File '{args.hex_file}' does not exist.")
         sys.exit(1)
 
-    img = load(args.file_type.lower(), args.hex_file)
+    try:
+        img = load(args.file_type.lower(), args.hex_file)
+    except Exception as e:
+        print(f"\n{args.hex_file!r} is not valid {args.file_type} file. Raised exception: {e!r}.")
+        sys.exit(1)
+    if not img:
+        print(f"\n{args.hex_file!r} contains no {args.file_type} data.")
+        sys.exit(1)
     # print(img.meta)
     print("\nSections")
     print("--------\n")
-- 
2.43.0


From 2ca0ef2dba0a76b6688b7628f3f28154262a0aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 68/96] fix: oj_elf_syms failed on symbols with reserved
 bindings or types

The number is shown if there is no name.
---
 objutils/scripts/oj_elf_syms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/objutils/scripts/oj_elf_syms.py b/objutils/scripts/oj_elf_syms.py
index 5dc4ab4..e8ea086 100644
--- a/objutils/scripts/oj_elf_syms.py
+++ b/objutils/scripts/oj_elf_syms.py
@@ -26,7 +26,14 @@ __copyright__ = """
 
 import argparse
 
-from objutils.elf import ElfParser
+from objutils.elf import ElfParser, defs
+
+
+def enum_name(enum_class, value):
+    try:
+        return enum_class(value).name[4:]
+    except ValueError:
+        return str(value)
 
 
 def main():
@@ -108,8 +115,8 @@ def main():
                     sym.symbol_name,
                     sym.st_value,
                     sym.st_size,
-                    sym.symbol_bind.name[4:],
-                    sym.symbol_type.name[4:],
+                    enum_name(defs.SymbolBinding, sym.st_bind),
+                    enum_name(defs.SymbolType, sym.st_type),
                     access_str,
                 )
             )
-- 
2.43.0


From 440ad7fd499ca77d2ce91614f401551fd7c08bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 69/96] fix: oj_elf_info could not be started

The names of program headers are in objutils.elf.defs.
---
 objutils/scripts/oj_elf_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index baa301b..d1b2175 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -32,8 +32,6 @@ import argparse
 from objutils.elf import (
     ElfParser,
     model,
-    program_header_flags_name,
-    program_header_name,
 )
 from objutils.elf.defs import (
     ELF_BYTE_ORDER_NAMES,
@@ -41,6 +39,8 @@ from objutils.elf.defs import (
     ELF_TYPE_NAMES,
     ELFAbiType,
     ELFType,
+    program_header_flags_name,
+    program_header_name,
 )
 
 
-- 
2.43.0


From 1419cf657c3c70c133158bc64b4b1cf475b08031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 70/96] fix: oj_elf_info failed on types without a name

Processor or system specific types of files, sections and segments are shown as numbers.
---
 objutils/elf/defs.py            |  5 ++++-
 objutils/scripts/oj_elf_info.py | 14 +++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index 6cfcc46..94fa384 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -898,7 +898,10 @@ class ProgramHeader(enum.IntEnum):
 
 
 def program_header_name(tp: int) -> str:
-    return ProgramHeader(tp).name[3:]
+    try:
+        return ProgramHeader(tp).name[3:]
+    except ValueError:
+        return f"0x{tp:08x}"
 
 
 PF_X = 0x1  # Execute.
diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index d1b2175..43b53fd 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -39,11 +39,19 @@ from objutils.elf.defs import (
     ELF_TYPE_NAMES,
     ELFAbiType,
     ELFType,
+    SectionType,
     program_header_flags_name,
     program_header_name,
 )
 
 
+def enum_name(enum_class, value, prefix):
+    try:
+        return enum_class(value).name[len(prefix) :]
+    except ValueError:
+        return f"0x{value:x}"
+
+
 def main():
     parser = argparse.ArgumentParser(description="Display informations about ELF files.")
     parser.add_argument("elf_file", help="ELF file")  # , nargs = "+"
@@ -79,10 +87,10 @@ def main():
     args = parser.parse_args()
     ep = ElfParser(args.elf_file)
     print(f"Class:       {ELF_CLASS_NAMES.get(ep.ei_class, '*** INVALID ***')}")
-    print(f"Type:        {ELFType(ep.e_type).name[3:]} [{ELF_TYPE_NAMES.get(ep.e_type, '')}]")
+    print(f"Type:        {enum_name(ELFType, ep.e_type, 'ET_')} [{ELF_TYPE_NAMES.get(ep.e_type, '')}]")
     print(f"Machine:     {ep.machine_data}")
     print(f"Data:        {ELF_BYTE_ORDER_NAMES.get(ep.ei_data, '*** INVALID ***')}")
-    print(f"OS/ABI       {ELFAbiType(ep.ei_osabi).name[9:]} / v{ep.ei_abiversion}")
+    print(f"OS/ABI       {enum_name(ELFAbiType, ep.ei_osabi, 'ELFOSABI_')} / v{ep.ei_abiversion}")
 
     sections = ep.query(model.Elf_Section).order_by(model.Elf_Section.index).all()
     print_header("Sections")
@@ -90,7 +98,7 @@ def main():
     print("-" * 79)
     for sec in sections:
         print(
-            f"{sec.section_name:25} {sec.section_type.name[4:]:14} {sec.sh_addr:08x} {sec.sh_offset:08x}"
+            f"{sec.section_name:25} {enum_name(SectionType, sec.sh_type, 'SHT_'):14} {sec.sh_addr:08x} {sec.sh_offset:08x}"
             f" {sec.sh_size:06x} {sec.sh_addralign:2}"
         )
 
-- 
2.43.0


From 2262bea7c514a8d9b563a5a27f5e454542c7eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 71/96] fix: SHF reader dropped blocks whose checksum is
 written in upper case digits

---
 objutils/shf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/shf.py b/objutils/shf.py
index 2f1c2d6..fc7c64a 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -121,7 +121,7 @@ class Reader:
             checksum = attrib.get("checksum")
             if checksum:
                 checksum = remove_ws(checksum)
-                if sha1_digest(section_data) != checksum:
+                if sha1_digest(section_data) != checksum.lower():
                     self.logger.error(f"Block #{idx}: Wrong `checksum`.")
                     continue
             else:
-- 
2.43.0


From 4a9a8bc2ec148df3279e7c835ff0332fdb32b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 72/96] fix: toJSON() of debug information failed for entries
 with block values

---
 objutils/dwarf/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 6d68203..946e9b9 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -140,6 +140,11 @@ class Readers:
     pass
 
 
+def json_value(value):
+    """Blocks (bytes) are shown as hex digits, everything else by its attributes."""
+    return value.hex() if isinstance(value, (bytes, bytearray)) else value.__dict__
+
+
 @dataclass
 class DIEAttribute:
     raw_value: Any
@@ -156,7 +161,7 @@ class DebugInformationEntry:
     children: List = field(default_factory=list)
 
     def toJSON(self):
-        return json.dumps(self, default=lambda o: o.__dict__, sort_keys=True, indent=4)
+        return json.dumps(self, default=json_value, sort_keys=True, indent=4)
 
 
 @dataclass
@@ -165,7 +170,7 @@ class DebugInformation:
     die_entries: List[DebugInformationEntry]
 
     def toJSON(self):
-        return json.dumps(self, default=lambda o: o.__dict__, sort_keys=True, indent=4)
+        return json.dumps(self, default=json_value, sort_keys=True, indent=4)
 
 
 class Abbrevations:
-- 
2.43.0


From b21b0101bbaec4a242dd50ebc049a59394c6f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 73/96] fix: AVR link-relax flag was never reported

---
 objutils/elf/defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index 94fa384..7ae9651 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -574,7 +574,7 @@ class AvrMachineData(MachineData):
             result.append(AVRMachineTypeNames[flags])
         else:
             result.append("avr:<unknown>")
-        if flags & EF_AVR_LINKRELAX_PREPARED:
+        if self.flags & EF_AVR_LINKRELAX_PREPARED:
             result.append("link-relax")
         return result
 
-- 
2.43.0


From af0a50fdc4c22ce9354580b236185e4f764935c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 74/96] fix: S-record writer wrote malformed start address
 records if the address exceeds the record type

---
 objutils/srec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/objutils/srec.py b/objutils/srec.py
index 7b15f9a..c178c64 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -142,6 +142,10 @@ class Writer(hexfile.Writer):
 
     def pre_processing(self, image):
         highest_address = self.highest_address(image)
+        if self.start_address is not None:  # Has to fit into the termination record.
+            if not 0 <= self.start_address <= 0xFFFFFFFF:
+                raise hexfile.AddressRangeToLargeError("start address exceeds 32 bits.")
+            highest_address = max(highest_address, self.start_address)
         self.data_record_type = self.record_type
         if self.data_record_type is None:
             if highest_address <= 0x000000FFFF:
-- 
2.43.0


From 1c22329578b0183065c3bee0c92166bf0168d54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 75/96] fix: S-record writer wrote a malformed count record for
 more than 65535 S1 records

S6 (24-bit count) is used then; the reader checks it, too.
---
 objutils/srec.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index c178c64..f1960aa 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -42,8 +42,9 @@ S7 = 6
 S8 = 7
 S9 = 8
 SYM = 9
+S6 = 10
 
-BIAS = {S0: 3, S1: 3, S2: 4, S3: 5, S5: 2, S7: 5, S8: 4, S9: 3}
+BIAS = {S0: 3, S1: 3, S2: 4, S3: 5, S5: 2, S6: 4, S7: 5, S8: 4, S9: 3}
 
 SYMBOLTABLE = re.compile(r"(^\$\$\s+(?P<modulename>\S*)(?P<symbols>.*?)\$\$)", re.MULTILINE | re.DOTALL)
 SYMBOL = re.compile(r"\s+(?P<symbol>.*?)\s+\$(?P<value>.+)", re.MULTILINE | re.DOTALL)
@@ -58,6 +59,7 @@ class Reader(hexfile.Reader):
         (S5, "S5LLAAAAAAAACC"),  # Width of record count follows data records (s. writer).
         (S5, "S5LLAAAAAACC"),
         (S5, "S5LLAAAACC"),
+        (S6, "S6LLAAAAAACC"),
         (S7, "S7LLAAAAAAAACC"),
         (S8, "S8LLAAAAAACC"),
         (S9, "S9LLAAAACC"),
@@ -165,6 +167,9 @@ class Writer(hexfile.Writer):
         if record_type == 0:  # Address field of header records is always 16-bit wide.
             length += BIAS[S0]
             address_mask = "%04X"
+        elif record_type == 6:  # Always 24-bit wide.
+            length += BIAS[S6]
+            address_mask = "%06X"
         else:
             length += self.offset
             address_mask = self.address_mask
@@ -188,7 +193,8 @@ class Writer(hexfile.Writer):
     def compose_footer(self, meta):
         result = []
         if self.s5record:
-            result.append(self.srecord(5, 0, self.record_count))
+            record_type = 6 if self.data_record_type == 1 and self.record_count > 0xFFFF else 5
+            result.append(self.srecord(record_type, 0, self.record_count))
         if self.start_address is not None:
             if self.data_record_type == 1:  # 16bit.
                 if S9 in meta:
-- 
2.43.0


From dc7971ebb5dcf41e57a8330ed381910b3822a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 76/96] fix: rows too long for the byte count of a record were
 written as malformed records, negative row lengths lost the data

---
 objutils/emon52.py  | 1 +
 objutils/etek.py    | 1 +
 objutils/fpc.py     | 1 +
 objutils/hexfile.py | 7 +++++++
 objutils/ihex.py    | 1 +
 objutils/mostec.py  | 1 +
 objutils/sig.py     | 1 +
 objutils/srec.py    | 1 +
 objutils/tek.py     | 1 +
 9 files changed, 15 insertions(+)

diff --git a/objutils/emon52.py b/objutils/emon52.py
index 87da811..60427d3 100644
--- a/objutils/emon52.py
+++ b/objutils/emon52.py
@@ -73,5 +73,6 @@ class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
 
     def compose_row(self, address, length, row):
+        self.check_byte_count(length)
         checksum = sum(row) % 65536
         return f"{length:02X} {address:04X}:{Writer.hex_bytes(row, spaced=True)!s} {checksum:04X}"
diff --git a/objutils/etek.py b/objutils/etek.py
index ddd7b9b..a478ccb 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -80,6 +80,7 @@ class Writer(hexfile.Writer):
         digits = f"{address:04X}"
         payload = f"{len(digits):X}{digits}{Writer.hex_bytes(row)}"
         length = len(payload) + HEADER_LENGTH
+        self.check_byte_count(length)
         return f"%{length:02X}6{record_checksum(length, 6, payload):02X}{payload}"
 
     def compose_footer(self, meta):
diff --git a/objutils/fpc.py b/objutils/fpc.py
index 4c80054..1f5cbca 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -136,6 +136,7 @@ class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
 
     def compose_row(self, address, length, row):
+        self.check_byte_count(length + 4)
         tmp = 0  # TODO: format type!?
         checksum = checksums.lrc(
             utils.make_list(tmp, length + 4, utils.int_to_array(address), row),
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index de5e2a9..ebbcc5a 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -337,6 +337,8 @@ class Writer(BaseType):
             fp.close()
 
     def dumps(self, image, row_length=16, **kws):
+        if row_length < 1:
+            raise ValueError("row length must be at least 1.")
         self.row_length = row_length
         if hasattr(image, "sections") and not image.sections:
             return b""
@@ -386,6 +388,11 @@ class Writer(BaseType):
     def pre_processing(self, image):
         pass
 
+    def check_byte_count(self, count):
+        """The byte count of a record has two hex digits."""
+        if count > 0xFF:
+            raise InvalidRecordLengthError("row length exceeds the capacity of a record.")
+
     def set_parameters(self, **kws):
         params = {}
         for k in kws:
diff --git a/objutils/ihex.py b/objutils/ihex.py
index 451bc07..78f3cb9 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -126,6 +126,7 @@ class Writer(hexfile.Writer):
             address += room
             length -= room
             row = row[room:]
+        self.check_byte_count(length)
         segment, offset = divmod(address, 0x10000)
         if segment != self.previous_segment:
             self.previous_segment = segment
diff --git a/objutils/mostec.py b/objutils/mostec.py
index c11f867..a2e47ba 100644
--- a/objutils/mostec.py
+++ b/objutils/mostec.py
@@ -58,6 +58,7 @@ class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
 
     def compose_row(self, address, length, row):
+        self.check_byte_count(length)
         checksum = checksums.lrc(
             utils.make_list(utils.int_to_array(address), length, row),
             16,
diff --git a/objutils/sig.py b/objutils/sig.py
index 1964c7a..ca4f82f 100644
--- a/objutils/sig.py
+++ b/objutils/sig.py
@@ -58,6 +58,7 @@ class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
 
     def compose_row(self, address, length, row):
+        self.check_byte_count(length)
         address_checksum = checksums.rotatedXOR(
             utils.make_list(utils.int_to_array(address), length),
             8,
diff --git a/objutils/srec.py b/objutils/srec.py
index f1960aa..1a4e6f6 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -179,6 +179,7 @@ class Writer(hexfile.Writer):
         return mask % (record_type, length, address, Writer.hex_bytes(data), checksum)
 
     def compose_row(self, address, length, row):
+        self.check_byte_count(length + self.offset)
         self.record_count += 1
         return self.srecord(self.data_record_type, length, address, row)
 
diff --git a/objutils/tek.py b/objutils/tek.py
index 161189e..05fe1dd 100644
--- a/objutils/tek.py
+++ b/objutils/tek.py
@@ -64,6 +64,7 @@ class Writer(hexfile.Writer):
         )
 
     def compose_row(self, address, length, row):
+        self.check_byte_count(length)
         address_checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), length))
 
         data_checksum = checksums.nibble_sum(row)
-- 
2.43.0


From c11eb238cf8d0a91790a64734deb36efc788467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 77/96] fix: S-record writer accepted record types without data
 (e.g. 0 or 5) and lost the image

---
 objutils/srec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/srec.py b/objutils/srec.py
index 1a4e6f6..c4b8223 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -149,6 +149,8 @@ class Writer(hexfile.Writer):
                 raise hexfile.AddressRangeToLargeError("start address exceeds 32 bits.")
             highest_address = max(highest_address, self.start_address)
         self.data_record_type = self.record_type
+        if self.data_record_type not in (None, 1, 2, 3):
+            raise hexfile.Invalidrecord_typeError(f"record type must be 1, 2 or 3, not {self.record_type!r}.")
         if self.data_record_type is None:
             if highest_address <= 0x000000FFFF:
                 self.data_record_type = 1
-- 
2.43.0


From 808f61fff028f7977e088e66ca6399d133064ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 78/96] fix: names of the APPLE_ attributes of DWARF lacked
 their first letter

---
 objutils/dwarf/constants.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/objutils/dwarf/constants.py b/objutils/dwarf/constants.py
index b333ae4..70c797c 100644
--- a/objutils/dwarf/constants.py
+++ b/objutils/dwarf/constants.py
@@ -352,19 +352,19 @@ class AttributeEncoding(EnumBase):
     PGI_lbase = 0x3A00
     PGI_soffset = 0x3A01
     PGI_lstride = 0x3A02
-    PPLE_optimized = 0x3FE1
-    PPLE_flags = 0x3FE2
-    PPLE_isa = 0x3FE3
-    PPLE_block = 0x3FE4
-    PPLE_major_runtime_vers = 0x3FE5
-    PPLE_runtime_class = 0x3FE6
-    PPLE_omit_frame_ptr = 0x3FE7
-    PPLE_property_name = 0x3FE8
-    PPLE_property_getter = 0x3FE9
-    PPLE_property_setter = 0x3FEA
-    PPLE_property_attribute = 0x3FEB
-    PPLE_objc_complete_type = 0x3FEC
-    PPLE_property = 0x3FED
+    APPLE_optimized = 0x3FE1
+    APPLE_flags = 0x3FE2
+    APPLE_isa = 0x3FE3
+    APPLE_block = 0x3FE4
+    APPLE_major_runtime_vers = 0x3FE5
+    APPLE_runtime_class = 0x3FE6
+    APPLE_omit_frame_ptr = 0x3FE7
+    APPLE_property_name = 0x3FE8
+    APPLE_property_getter = 0x3FE9
+    APPLE_property_setter = 0x3FEA
+    APPLE_property_attribute = 0x3FEB
+    APPLE_objc_complete_type = 0x3FEC
+    APPLE_property = 0x3FED
 
     UNKOWN = 0xFFFF
 
-- 
2.43.0


From 63a40fba3a96174917095639561f5aab2dc8959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 79/96] fix: reads of negative length returned the bytes up to
 the end of the section

---
 objutils/section.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 57eb28c..5e93f1c 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -243,7 +243,7 @@ class Section:
         offset = addr - self.start_address
         if offset < 0:
             raise InvalidAddressError(f"read(0x{addr:08x}) access out of bounds.")
-        if offset + length > self.length:
+        if length < 0 or offset + length > self.length:
             raise InvalidAddressError(f"read(0x{addr:08x}) access out of bounds.")
         data = self.data[offset : offset + length]
         return data
@@ -332,7 +332,7 @@ class Section:
         offset = addr - self.start_address
         if offset < 0:
             raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
-        if offset + max(length, 0) > self.length:
+        if length < -1 or offset + max(length, 0) > self.length:
             raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         if length == -1:
             pos = self.data[offset:].find(b"\x00")
@@ -379,7 +379,7 @@ class Section:
         offset = addr - self.start_address
         if offset < 0:
             raise InvalidAddressError(f"read_ndarray(0x{addr:08x}) access out of bounds.")
-        if offset + length > self.length:
+        if length < 0 or offset + length > self.length:
             raise InvalidAddressError(f"read_ndarray(0x{addr:08x}) access out of bounds.")
 
         """
-- 
2.43.0


From 04165f798146cc3b370e78a4bafe4070b0d36048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 80/96] fix: oj_elf_info crashed on address ranges and public
 names of several units

---
 objutils/dwarf/__init__.py | 54 ++++++++++++++------------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 946e9b9..3c8cdae 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -893,28 +893,19 @@ class DwarfProcessor:
         Entry = Struct(
             "start" / Tell,
             "offset" / self.readers.u32,
-            "name" / self.readers.cstring_ascii,
+            "name" / If(this.offset != 0, self.readers.cstring_ascii),  # Zero terminates a set.
             "stop" / Tell,
         )
-        offset = 0
-        finished = False
-        while True:
-            if finished:
-                break
+        while image.tell() < length:
             header = Header.parse_stream(image)
-            offset += header.stop - header.start
-            print(offset, header)
-            if offset >= length - 1:
-                break
-            while True:
+            end = header.start + 4 + header.unit_length
+            print(header.stop, header)
+            while image.tell() < end:
                 entry = Entry.parse_stream(image)
-                offset += entry.stop - entry.start
                 print("ENTRY", entry)
                 if entry.offset == 0:
                     break
-                if entry.stop >= header.unit_length:
-                    finished = True
-                    break
+            image.seek(end)
 
     def aranges(self):
         if ".debug_aranges" not in self.debug_sections:
@@ -931,29 +922,24 @@ class DwarfProcessor:
             "segment_size" / self.readers.u8,
             "stop" / Tell,
         )
-        Entry = Struct(
-            "start" / Tell,
-            "length" / self.readers.u32,
-            "address" / self.readers.u32,
-            "stop" / Tell,
-        )
-        offset = 0
-        finished = False
-        while True:
-            if finished:
-                break
+        readers = {1: self.readers.u8, 2: self.readers.u16, 4: self.readers.u32, 8: self.readers.u64}
+        while image.tell() < length:
             header = Header.parse_stream(image)
-            offset += header.stop - header.start
-            if offset >= length - 1:
-                break
-            while True:
+            end = header.start + 4 + header.unit_length
+            reader = readers[header.address_size]
+            Entry = Struct(
+                "start" / Tell,
+                "address" / reader,
+                "length" / reader,
+                "stop" / Tell,
+            )
+            tuple_size = 2 * header.address_size
+            image.seek(header.start + (header.stop - header.start + tuple_size - 1) // tuple_size * tuple_size)
+            while image.tell() < end:
                 entry = Entry.parse_stream(image)
-                offset += entry.stop - entry.start
                 if entry.address == 0 and entry.length == 0:
                     break
-                if entry.stop >= header.unit_length:
-                    finished = True
-                    break
+            image.seek(end)
 
     def dwarf_expression(self, expr: bytes) -> str:
         return self.stack_machine.evaluate(expr)
-- 
2.43.0


From 777f9427b1f10be5d07d6a8a71eae988150f73ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 81/96] fix: ELF files with names which are not ASCII could not
 be read

---
 objutils/elf/__init__.py       | 21 +++++++++++++--------
 objutils/elf/arm/attributes.py |  6 +++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index b624f2f..94c07a3 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -43,8 +43,8 @@ from construct import (
     Computed,
     Const,
     Construct,
-    CString,
     Enum,
+    GreedyBytes,
     IfThenElse,
     Int8ul,
     Int16ub,
@@ -57,6 +57,7 @@ from construct import (
     Int64sl,
     Int64ub,
     Int64ul,
+    NullTerminated,
     Padding,
     Pass,
     StreamError,
@@ -335,6 +336,11 @@ class SymbolAPI(DBAPI):
         return syms.order_by(*model.unsigned_order(model.Elf_Symbol.st_value)).all()
 
 
+def decode_string(data: bytes) -> str:
+    """Names are UTF-8, by convention only."""
+    return bytes(data).decode("utf8", errors="backslashreplace")
+
+
 def calculate_crypto_hash(data: bytes) -> str:
     sha = hashlib.sha512(data)
     return sha.hexdigest()
@@ -458,7 +464,7 @@ class ElfParser:
 
         self._images = {}
         self._sections_by_name = OrderedDict()
-        self.asciiCString = CString(encoding="ascii")
+        self.cstring = NullTerminated(GreedyBytes)
 
         self.create_db_on_demand()
 
@@ -579,8 +585,7 @@ class ElfParser:
         table = self._images.get(table_index)
         if table is None or entry >= len(table):
             return ""
-        name = self.asciiCString.parse(table[entry:])
-        return name
+        return decode_string(self.cstring.parse(table[entry:]))
 
     def _parse_program_headers(self):
         ProgramHeaders = Struct(
@@ -694,19 +699,19 @@ class ElfParser:
         self.session.bulk_save_objects(symbols)
 
     def _parse_comment(self, data):
-        Line = Struct("line" / CString("ascii"), "pos" / Tell)
+        Line = Struct("line" / NullTerminated(GreedyBytes), "pos" / Tell)
         if not data:
             return ""
         length = len(data)
         result = []
         i = 0
         if data.find(b"\x00") == -1:
-            return str(data, "ascii")
+            return decode_string(data)
         while i < length:
             # print("*** LINE", data[i : ])
             line = Line.parse(data[i:])
             if line.line:
-                result.append(line.line)
+                result.append(decode_string(line.line))
             i += line.pos
         return "\n".join(result)
 
@@ -725,7 +730,7 @@ class ElfParser:
         while data and offset < len(data):
             note = Note.parse(data[offset:])
             note.desc = binascii.b2a_hex(note.desc).decode()
-            note.name = note.name.partition(b"\x00")[0].decode("ascii")
+            note.name = decode_string(note.name.partition(b"\x00")[0])
             result.append(note)
             offset += note.size + -note.size % alignment
         return result
diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index c1ff9ed..0f67bdb 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -432,7 +432,7 @@ def parse(buffer, byteorder="<"):
     Integer = Int32ul if byteorder == "<" else Int32ub
     Section = Struct(
         "len" / Integer,
-        "vendor" / CString(encoding="ascii"),
+        "vendor" / CString(encoding="utf8"),
         "_pos" / Tell,
         "data" / Bytes(this.len - this._pos),
     )
@@ -445,7 +445,7 @@ def parse(buffer, byteorder="<"):
 
     FlagAndName = Struct(
         "flag" / ULEB,
-        "name" / CString(encoding="ascii"),
+        "name" / CString(encoding="utf8"),
     )
 
     RawAttribute = Struct(
@@ -459,7 +459,7 @@ def parse(buffer, byteorder="<"):
             {
                 Reader.INT32: Integer,
                 Reader.ULEB: ULEB,
-                Reader.CSTRING: CString(encoding="ascii"),
+                Reader.CSTRING: CString(encoding="utf8"),
                 Reader.ULEB_CSTRING: FlagAndName,
             },
         ),
-- 
2.43.0


From 1d9ee7c58ec3b8707e69c5292d0118d49fd36002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 82/96] fix: oj_elf_info crashed on public names, macros and
 file names which are not ASCII

---
 objutils/dwarf/__init__.py | 8 ++++----
 objutils/dwarf/encoding.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 3c8cdae..affb021 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -543,11 +543,11 @@ class DwarfProcessor:
                 / Switch(
                     this.macType,
                     {
-                        "DW_MACINFO_define": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_ascii),
-                        "DW_MACINFO_undef": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_ascii),
+                        "DW_MACINFO_define": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_utf8),
+                        "DW_MACINFO_undef": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_utf8),
                         "DW_MACINFO_start_file": Struct("lineNumber" / self.readers.uleb, "fileNumber" / self.readers.uleb),
                         "DW_MACINFO_end_file": Pass,
-                        "DW_MACINFO_vendor_ext": Struct("constant" / self.readers.uleb, "value" / self.readers.cstring_ascii),
+                        "DW_MACINFO_vendor_ext": Struct("constant" / self.readers.uleb, "value" / self.readers.cstring_utf8),
                     },
                     default=Pass,
                 ),
@@ -893,7 +893,7 @@ class DwarfProcessor:
         Entry = Struct(
             "start" / Tell,
             "offset" / self.readers.u32,
-            "name" / If(this.offset != 0, self.readers.cstring_ascii),  # Zero terminates a set.
+            "name" / If(this.offset != 0, self.readers.cstring_utf8),  # Zero terminates a set.
             "stop" / Tell,
         )
         while image.tell() < length:
diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index e699ec3..2185973 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -289,7 +289,7 @@ class Filename:
 
 class FilenameSequence(Construct):
 
-    def __init__(self, encoding: str = "ascii") -> None:
+    def __init__(self, encoding: str = "utf8") -> None:
         self.str_type = CString(encoding=encoding)
         super().__init__()
 
-- 
2.43.0


From 5bcbe4f2cb95d6681307c46142917cb00dfa39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 83/96] fix: negative addresses were written as malformed
 records

None of the record-oriented formats can express them: address fields like
"-005" were written, etek failed with a ValueError and fpc did not terminate.
---
 objutils/hexfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index ebbcc5a..c903ce9 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -342,7 +342,7 @@ class Writer(BaseType):
         self.row_length = row_length
         if hasattr(image, "sections") and not image.sections:
             return b""
-        if self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
+        if self.lowest_address(image) < 0 or self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
             raise AddressRangeToLargeError("could not encode image.")
         saved = self.set_parameters(**kws)
         try:
@@ -372,6 +372,11 @@ class Writer(BaseType):
         else:
             return self.post_processing(bytes("\n".join(result)))
 
+    def lowest_address(self, image):
+        """Address of the first byte of `image`."""
+        sections = image.sections if hasattr(image, "sections") else [image]
+        return min((section.start_address for section in sections if section.length), default=0)
+
     def highest_address(self, image):
         """Address of the last byte of `image`."""
         sections = image.sections if hasattr(image, "sections") else [image]
-- 
2.43.0


From fb0890c26ec34f02cbd136bfd23b0b0a6a17311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 84/96] fix: empty sections kept adjacent sections apart and
 hid data from reads

A section without data (e.g. from a data record of length zero) behind or
inside another one was taken for the predecessor of the next section, so that
contiguous data was not joined; get_section() returned it instead of the
section containing the address.
---
 objutils/image.py   | 2 ++
 objutils/section.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/objutils/image.py b/objutils/image.py
index 78355f2..fc472cd 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -276,6 +276,8 @@ class Image:
         if address not in self:
             raise InvalidAddressError("Address not in range")
         result = self._sections.bisect_right(SearchType(address))
+        while address not in self._sections[result - 1]:  # Empty sections contain nothing.
+            result -= 1
         return self._sections[result - 1]
 
     def update_section(self, data, address=None):
diff --git a/objutils/section.py b/objutils/section.py
index 5e93f1c..c50a94b 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -444,6 +444,8 @@ def join_sections(sections):
         section = sections.pop(0)
         if not isinstance(section, Section):
             raise TypeError("'{}' is not a 'Section' instance", section)
+        if not section.length and result_sections:  # Covers no address.
+            continue
         if section.start_address == prev_section.start_address + prev_section.length and result_sections:
             last_segment = result_sections[-1]
             last_segment.data.extend(section.data)
-- 
2.43.0


From 8af6e1b17e7840abf852b356b8d95f03b086dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 85/96] fix: images kept an empty section in front of their
 data

A blank line or start code in front of the first address of an ASCII-Hex file
became a section without data at address 0.
---
 objutils/section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/section.py b/objutils/section.py
index c50a94b..732c9c8 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -456,6 +456,8 @@ def join_sections(sections):
             else:
                 result_sections.append(Section(section.start_address, section.data))
         prev_section = section
+    if len(result_sections) > 1 and not result_sections[0].length:
+        del result_sections[0]
     if result_sections:
         return result_sections
     else:
-- 
2.43.0


From 2336eb5376489f02b2cd957363875949b2485251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 86/96] fix: only the first record of files with CR line ends
 or NUL padding was read

Records may be followed by a carriage return alone, and NULs (fillers of paper
tapes and serial lines, s. docs/Data_Formats.pdf) may precede them. Blank lines
in FPC files raised an IndexError.
---
 objutils/fpc.py     |  6 ++++--
 objutils/hexfile.py | 21 +++++++++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 1f5cbca..8e2d666 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -59,8 +59,10 @@ class Reader(hexfile.Reader):
     def decode(self, fp):
         self.last_address = 0  # TODO: decode!
         out_lines = []
-        for line in fp.readlines():
-            line = line.strip()
+        for line in hexfile.split_lines(fp):
+            line = line.strip().encode("ascii")
+            if not line:
+                continue
             startSym, line = line[0], line[1:]
 
             if startSym != PREFIX:
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index c903ce9..02ba8ce 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -106,6 +106,14 @@ class AddressRangeToLargeError(Exception):
 MetaRecord = namedtuple("MetaRecord", "format_type address chunk")
 
 
+def split_lines(fp):
+    """Lines of `fp`, ended by CR, LF, or both; without NULs used as fillers."""
+    data = fp.read()
+    if isinstance(data, (bytes, bytearray)):
+        data = data.decode()
+    return [line.strip("\0") for line in re.split(r"\r\n|\r|\n", data)]
+
+
 class FormatParser:
     def __init__(self, fmt, data_separator=None):
         self.fmt = fmt
@@ -218,12 +226,9 @@ class Reader(BaseType):
         matched = False
         self.valid = True
         meta_data = defaultdict(list)
-        for line_number, line in enumerate(fp.readlines(), 1):
+        for line_number, line in enumerate(split_lines(fp), 1):
             for format_type, format in self.formats:
-                if isinstance(line, bytes):
-                    match = format.match(line.decode())
-                else:
-                    match = format.match(line)
+                match = format.match(line)
                 if match:
                     matched = True
                     container = Container()
@@ -469,14 +474,10 @@ class ASCIIHexReader(Reader):
         return True
 
     def read(self, fp):
-        if PYTHON_VERSION.major == 3:
-            lines = fp.read().decode()
-        else:
-            lines = fp.read()
         self.sections = []
         self.address = 0
         breakRequest = False
-        for line in lines.splitlines():
+        for line in split_lines(fp):
             for pattern, action in self.patterns:
                 match = pattern.match(line)
                 if match:
-- 
2.43.0


From 7964276152ae494a9eeac6aa5beec4c47994e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 87/96] fix: ASCII-Hex files lost data next to start and end
 codes

The start code may be followed directly by the address or the first data bytes,
it may be SOH or SOM instead of STX, and the end code may directly follow the
last data byte (s. docs/Data_Formats.pdf).
---
 objutils/ash.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/ash.py b/objutils/ash.py
index acb8f28..a30d52d 100644
--- a/objutils/ash.py
+++ b/objutils/ash.py
@@ -55,12 +55,16 @@ class Reader(hexfile.ASCIIHexReader):
 
     def __init__(
         self,
-        address_pattern=r"^(?:(?P<stx>[\x02])\s+)?\$A(?P<address>[0-9a-zA-Z]{2,8})[,.]\s*$",
-        data_pattern=r"^(?:[0-9a-zA-Z]{{2,4}}[{0}]?)*\s*$",
+        address_pattern=r"^(?:(?P<stx>[\x01\x02\x12])\s*)?\$A(?P<address>[0-9a-zA-Z]{2,8})[,.]\s*$",
+        data_pattern=r"^(?:[\x01\x02\x12]\s*)?(?:[0-9a-zA-Z]{{2,4}}[{0}]?)*\s*(?:[\x03\x14].*)?$",
         etx_pattern=r"^q.*$",
     ):
         super().__init__(address_pattern, data_pattern, etx_pattern, separators=", %'")
 
+    def parse_line(self, line, match):
+        line = re.split(r"[\x03\x14]", line)[0]  # Checksum follows the end code.
+        return super().parse_line(line.lstrip("\x01\x02\x12").strip(), match)
+
 
 class Writer(hexfile.ASCIIHexWriter):
     MAX_ADDRESS_BITS = 16
-- 
2.43.0


From 1730d3a9668304970bae6a0c3498b7c1a32b3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 88/96] fix: addresses of RCA Cosmac start records were ignored

Data following a start record of its own ("!M1000 ," or "?M1000 ") was loaded
at address 0, just as data behind addresses written without leading zeros
(s. docs/Data_Formats.pdf).
---
 objutils/cosmac.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/objutils/cosmac.py b/objutils/cosmac.py
index 2c4e1f7..e07bf9e 100644
--- a/objutils/cosmac.py
+++ b/objutils/cosmac.py
@@ -24,6 +24,8 @@ __copyright__ = """
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 """
 
+import re
+
 import objutils.hexfile as hexfile
 
 
@@ -31,6 +33,7 @@ DATA0 = 1
 DATA1 = 2
 DATA2 = 3
 DATA3 = 4
+START = 5
 
 
 class Reader(hexfile.Reader):
@@ -39,10 +42,17 @@ class Reader(hexfile.Reader):
         (DATA1, r"\?MAAAA DD"),
         (DATA2, r"AAAA DD"),
         (DATA3, r"DD"),
+        (START, r"!MAAAA"),
+        (START, r"\?MAAAA"),
     )
     previous_address = 0
     previous_length = 0
 
+    def __init__(self):
+        super().__init__()
+        # Addresses have one to four digits.
+        self.formats = [(format_type, re.compile(fmt.pattern.replace("{4}", "{1,4}"), fmt.flags)) for format_type, fmt in self.formats]
+
     def read(self, fp):
         self.previous_address = self.previous_length = 0
         return super().read(fp)
-- 
2.43.0


From bb6620f4152fef4c2ab3b5fbeb16ba73f486f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 89/96] fix: S-records with data in spite of a byte count
 without room were accepted

---
 objutils/srec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index c4b8223..26cdabb 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -93,7 +93,7 @@ class Reader(hexfile.Reader):
         if line.checksum != checksum:
             raise hexfile.InvalidRecordChecksumError()
         line.length -= BIAS[format_type]  # calculate actual data length.
-        if hasattr(line, "chunk") and line.length and (line.length != len(line.chunk)):
+        if hasattr(line, "chunk") and line.length != len(line.chunk):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
 
     def is_data_line(self, line, format_type):
-- 
2.43.0


From 2d9460d966b1850dbd17268c459b231c85549e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 90/96] fix: show implicit constants like other values of an
 attribute

---
 objutils/dwarf/__init__.py | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index affb021..5a773e0 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -787,34 +787,18 @@ class DwarfProcessor:
                         die_stack.append(die)
                         level += 1
                     for enc, form, special_value in abbr.attrs:
-                        reader = form_readers.get(form)
                         start = image.tell()
-                        if reader is None:
-                            if form == constants.AttributeForm.DW_FORM_implicit_const:
-                                print("DW_FORM_implicit_const")
-                                value = special_value
-                                display_value = value
-                                print(f"{'   ' * (level + 1)}<{start:02x}> {enc.name}: {display_value}")
-                                die.attributes.append(
-                                    (
-                                        enc.name,
-                                        DIEAttribute(value, display_value),
-                                    )
-                                )
-                                db_die.attributes.append(
-                                    model.DIEAttribute(
-                                        name=enc.name, raw_value=column_value(value), display_value=column_value(display_value)
-                                    )
-                                )
-                                offset += attr.stop - attr.start
-                                continue
-                            else:
+                        if form == constants.AttributeForm.DW_FORM_implicit_const:
+                            value = special_value
+                        else:
+                            reader = form_readers.get(form)
+                            if reader is None:
                                 print("*EF", enc, form, start, attr, abbr)
-                        try:
-                            value = reader.parse_stream(image)
-                        except Exception as e:
-                            print("EXC", e, reader, form)
-                            raise
+                            try:
+                                value = reader.parse_stream(image)
+                            except Exception as e:
+                                print("EXC", e, reader, form)
+                                raise
                         if enc in (
                             constants.AttributeEncoding.location,
                             constants.AttributeEncoding.GNU_call_site_value,
-- 
2.43.0


From 4b39a7f232a729d8e9bfb5c8286b882cad8dc0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 91/96] fix: information tool accepts files whose debug
 sections contain no units

---
 objutils/elf/__init__.py        | 2 +-
 objutils/scripts/oj_elf_info.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 94c07a3..064034a 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -739,7 +739,7 @@ class ElfParser:
         ds = OrderedDict()
         for section in self.sections.fetch():
             name = section.section_name
-            if name.startswith(".debug"):
+            if name.startswith(".debug") and section.section_image is not None:
                 if name == ".debug_abbrev":
                     pass
                 ds[name] = section
diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index 43b53fd..74634fb 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -146,7 +146,8 @@ def main():
         dp.pubnames()
         dp.aranges()
         dp.do_lines()
-        dp.do_dbg_info()
+        if ".debug_info" in dp.debug_sections or ".debug_global_info" in dp.debug_sections:
+            dp.do_dbg_info()
         # dp.processDebugInfo()
         dp.do_mac_info()
 
-- 
2.43.0


From 4397da20449e5f367f12b751334748892b926bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 92/96] fix: files with extended numbering of sections, program
 headers and symbols

Counts and indices which do not fit the ELF header (or a symbol) are kept
in the first section header (or in a SHT_SYMTAB_SHNDX section); such files
were reported to have no sections at all.
---
 objutils/elf/__init__.py | 50 ++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 064034a..ccbf872 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -505,11 +505,34 @@ class ElfParser:
         )
         return ExtendedHeader.parse(self.fp[self.EI_NIDENT :])
 
+    def _parse_extended_numbering(self):
+        """Numbers which don't fit the header are kept in the first section header."""
+        self._num_sections = self.e_shnum
+        self._num_segments = self.e_phnum
+        self._names_index = self.e_shstrndx
+        FirstSection = Struct(
+            Padding(self.Word.sizeof() * 2 + self.Xword.sizeof() + self.Addr.sizeof() + self.Off.sizeof()),
+            "sh_size" / self.Xword,
+            "sh_link" / self.Word,
+            "sh_info" / self.Word,
+            Padding(self.Xword.sizeof() * 2),
+        )
+        first_section = self.fp[self.e_shoff : self.e_shoff + FirstSection.sizeof()]
+        if not self.e_shoff or len(first_section) < FirstSection.sizeof():
+            return
+        first_section = FirstSection.parse(first_section)
+        if self.e_shnum == 0 and first_section.sh_size * FirstSection.sizeof() <= len(self.fp) - self.e_shoff:
+            self._num_sections = first_section.sh_size
+        if self.e_phnum == 0xFFFF:  # PN_XNUM
+            self._num_segments = first_section.sh_info
+        if self.e_shstrndx == defs.SectionName.SHN_XINDEX:
+            self._names_index = first_section.sh_link
+
     def _parse_section_headers(self):
         SectionHeaders = Struct(
             "sections"
             / Array(
-                lambda ctx: self.e_shnum,
+                lambda ctx: self._num_sections,
                 "section"
                 / Struct(
                     "sh_name" / self.Word,
@@ -528,7 +551,9 @@ class ElfParser:
         )
         sections = []
         self._symbol_sections = []
+        self._extended_indices = {}
         if hasattr(self, "e_shnum"):
+            self._parse_extended_numbering()
             self._section_headers = SectionHeaders.parse(self.fp[self.e_shoff :])
             for idx, section in enumerate(self._section_headers.sections):
                 if section.allocate:
@@ -539,8 +564,11 @@ class ElfParser:
                     image = image.tobytes()
                 self._images[idx] = image
                 section.image = image
+                section.index = idx
+                if section.sh_type == defs.SectionType.SHT_SYMTAB_SHNDX and image is not None:
+                    self._extended_indices[section.sh_link] = image
             for idx, section in enumerate(self._section_headers.sections):
-                name = self.get_string(self.e_shstrndx, section.sh_name)
+                name = self.get_string(self._names_index, section.sh_name)
                 section.name = name
                 self._sections_by_name[name] = section
                 image = self._images[idx]
@@ -591,7 +619,7 @@ class ElfParser:
         ProgramHeaders = Struct(
             "segments"
             / Array(
-                lambda ctx: self.e_phnum,
+                lambda ctx: self._num_segments,
                 "segment"
                 / IfThenElse(
                     lambda ctx: self.b64,
@@ -667,6 +695,7 @@ class ElfParser:
         symbol_cache = {}
         # num_symbols = len(section.image) // Symbol.sizeof()
         image = section.image or b""  # An empty table has no image.
+        extended_indices = self._extended_indices.get(section.index, b"")
         for offset in range(0, len(image), Symbol.sizeof()):
             try:
                 sym = Symbol.parse(image[offset : offset + Symbol.sizeof()])
@@ -674,15 +703,22 @@ class ElfParser:
                 print(f"parse symbol section: {e}")
                 continue
             section_header = None
-            if sym.st_shndx in defs.SpecialSections:
+            section_index = sym.st_shndx
+            special = section_index in defs.SpecialSections
+            if section_index == defs.SectionName.SHN_XINDEX:
+                entry = extended_indices[offset // Symbol.sizeof() * 4 :][:4]
+                if len(entry) == 4:
+                    section_index = self.Word.parse(entry)
+                    special = False
+            if special:
                 section_name = defs.special_section_name(sym.st_shndx)
             else:
-                if sym.st_shndx not in symbol_cache:
-                    section_header = self.session.query(model.Elf_Section).filter(model.Elf_Section.index == sym.st_shndx).first()
+                if section_index not in symbol_cache:
+                    section_header = self.session.query(model.Elf_Section).filter(model.Elf_Section.index == section_index).first()
                     if section_header:
                         section_name = section_header.section_name
                     else:
-                        section_name = str(sym.st_shndx)
+                        section_name = str(section_index)
             db_sym = model.Elf_Symbol(
                 st_name=sym.st_name,
                 st_value=sym.st_value,
-- 
2.43.0


From e80cbd28b0d8db47a005026c4293ba60d80ce281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 93/96] fix: ELF files with a question mark in their path used
 a wrong database file

The path was pasted into an URL, so everything behind the question mark was taken for options: the
database was created under another name, and the next opening failed.
---
 objutils/elf/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 06973e0..0c368bc 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -29,7 +29,7 @@ import mmap
 import re
 import sqlite3
 
-from sqlalchemy import Column, ForeignKey, and_, create_engine, event, not_, orm, types
+from sqlalchemy import URL, Column, ForeignKey, and_, create_engine, event, not_, orm, types
 from sqlalchemy.engine import Engine
 from sqlalchemy.ext.declarative import declarative_base, declared_attr
 from sqlalchemy.ext.hybrid import hybrid_method, hybrid_property
@@ -526,7 +526,7 @@ class Model:
             self.dbname = filename
 
         self._engine = create_engine(
-            f"sqlite:///{self.dbname}",
+            URL.create("sqlite", database=str(self.dbname)),
             echo=debug,
             connect_args={"detect_types": sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES},
             native_datetime=True,
-- 
2.43.0


From 17859243c7a3f4e61cfdb201cc535604dae87950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 94/96] fix: FPC records shorter than their length field were
 accepted

Missing groups of zeros don't influence the checksum, the data was cut silently.
---
 objutils/fpc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 8e2d666..d7bba3e 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -98,6 +98,8 @@ class Reader(hexfile.Reader):
         if format_type == EOF:
             return True
         line.length -= 4
+        if not 0 <= line.length <= len(line.chunk):
+            raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
         if line.length != len(line.chunk):
             line.chunk = line.chunk[: line.length]  # Cut padding.
         if format_type == DATA_ABS:
-- 
2.43.0


From bb3bd5d6eba13105f5b53458fdba7f4109be306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:06 +0000
Subject: [PATCH 95/96] fix: SHF files with blocks without data could not be
 loaded

---
 objutils/shf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/shf.py b/objutils/shf.py
index fc7c64a..5300ee6 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -88,7 +88,7 @@ class Reader:
         sections = []
         for idx, child in enumerate(root):
             attrib = child.attrib
-            text = remove_ws(child.text)
+            text = remove_ws(child.text or "")  # Blocks may be empty.
             section_data = bytearray.fromhex(text)
             name = attrib.get("name")
             if name is None:
-- 
2.43.0


From c0746ce02ec427ea8e7065f3a58eef8ef135d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:14 +0000
Subject: [PATCH 96/96] fix: ARM attribute sections without vendor entries
 could not be decoded

---
 objutils/elf/__init__.py       | 2 +-
 objutils/elf/arm/attributes.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index ccbf872..4fac51d 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -956,7 +956,7 @@ class ElfParser:
     @property
     def arm_attributes(self):
         res = self.query(model.Elf_Section).filter(model.Elf_Section.section_name == ".ARM.attributes").first()
-        if res:
+        if res and res.section_image is not None:
             return attributes.parse(res.section_image, byteorder=self.endianess)
         else:
             return {}
diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 0f67bdb..c4f92b7 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -468,7 +468,7 @@ def parse(buffer, byteorder="<"):
     i = 1
     length = len(buffer)
     result = {}
-    while True:
+    while i < length:
         section = Section.parse(buffer[i:])
         if section.vendor not in result:
             result[section.vendor] = []
@@ -483,6 +483,4 @@ def parse(buffer, byteorder="<"):
                 r.description = attr._conv.get(attr.value, attr.value)
             result[section.vendor].append(r)
             j += attr.pos
-        if i >= length:
-            break
     return result
-- 
2.43.0

