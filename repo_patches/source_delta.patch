From 64240e9616c3765b2ad32935b46dfb622ee19200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 01/25] fix: do not read past the end of a file in
 FragmentedFile.read()

---
 dfir_ntfs/MFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5b6cfdd..e6e81b0 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1455,7 +1455,7 @@ class FragmentedFile(object):
 	def read(self, size = None):
 		"""The read() method for a file in a volume."""
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > self.file_size - self.current_offset_in_file: # Do not read past the end of a file.
 			size = self.file_size - self.current_offset_in_file
 
 		if size <= 0 or self.current_offset_in_file >= self.file_size: # Nothing to read.
-- 
2.43.0


From 25b4debaf23a46c06a5940226d6501e0a47a0463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:41 +0000
Subject: [PATCH 02/25] fix: report a path as orphan when a parent directory
 has no file names

---
 dfir_ntfs/MFT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index e6e81b0..7def6f6 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1241,7 +1241,13 @@ class MasterFileTableParser(object):
 
 					current_file_record = parent_file_record
 					while True:
-						file_name, parent_reference = get_preferred_file_name(current_file_record)
+						try:
+							file_name, parent_reference = get_preferred_file_name(current_file_record)
+						except MasterFileTableException:
+							# An invalid parent file record (no file names).
+							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
+							break
+
 						parent_segment_number, parent_sequence_number = DecodeFileRecordSegmentReference(parent_reference)
 
 						path_components.append(file_name)
-- 
2.43.0


From b057e85d199bbe5c3cceb833541f61f4a2d76caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:05 +0000
Subject: [PATCH 03/25] fix: consider all hard links with a matching name when
 looking up a path

---
 dfir_ntfs/MFT.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 7def6f6..9b18f4e 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1076,6 +1076,8 @@ class MasterFileTableParser(object):
 		"""
 
 		def compare_name_against_file_record(name, file_record, case_sensitive):
+			parent_directories = []
+
 			for attr in file_record.attributes():
 				if type(attr) is AttributeRecordNonresident:
 					continue
@@ -1085,11 +1087,11 @@ class MasterFileTableParser(object):
 					continue
 
 				if case_sensitive and attr_value.get_file_name() == name:
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 				elif (not case_sensitive) and attr_value.get_file_name().upper() == name.upper():
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 
-			return
+			return parent_directories # There can be many hard links having the same name.
 
 		if len(path) == 0:
 			raise MasterFileTableException('An empty path given')
@@ -1117,13 +1119,13 @@ class MasterFileTableParser(object):
 			except MasterFileTableException:
 				pass
 			else:
-				parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
-				if file_record.is_in_use() and parent_directory is not None:
-					if not must_be_directory:
-						candidate_parent_directories.append((parent_directory, file_record))
-					else:
-						if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+				for parent_directory in compare_name_against_file_record(last_path_component, file_record, case_sensitive):
+					if file_record.is_in_use():
+						if not must_be_directory:
 							candidate_parent_directories.append((parent_directory, file_record))
+						else:
+							if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+								candidate_parent_directories.append((parent_directory, file_record))
 
 			i += 1
 
@@ -1156,10 +1158,11 @@ class MasterFileTableParser(object):
 				except IndexError:
 					break
 
-				parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
-				if parent_directory is None:
+				parent_directories = compare_name_against_file_record(path_component, file_record, case_sensitive)
+				if len(parent_directories) == 0:
 					break
 
+				parent_directory = parent_directories[0] # There are no hard links to directories.
 				i += 1
 
 	def build_full_paths(self, file_record, include_attributes = False):
-- 
2.43.0


From 04fab17626c70155d7aaf8e74836b8df22a4ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:15 +0000
Subject: [PATCH 04/25] fix: do not fail on truncated index entries

---
 dfir_ntfs/Attributes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 63c9c04..9e2f644 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -723,7 +723,8 @@ class IndexEntry(object):
 		entry_length = self.get_length()
 		if self.get_flags() & INDEX_ENTRY_NODE > 0 and entry_length - 8 > 0:
 			vcn_raw = self.index_entry_raw[entry_length - 8 : entry_length]
-			return struct.unpack('<Q', vcn_raw)[0]
+			if len(vcn_raw) == 8:
+				return struct.unpack('<Q', vcn_raw)[0]
 
 class IndexRoot(GenericAttribute):
 	"""$INDEX_ROOT."""
@@ -761,6 +762,9 @@ class IndexRoot(GenericAttribute):
 		index_entry_pos = 16 + index_header.get_first_index_entry()
 		while index_entry_pos < 16 + index_header.get_first_free_byte() and index_entry_pos < len(self.value):
 			index_entry_raw = self.value[index_entry_pos : ]
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry = IndexEntry(index_entry_raw)
 
 			index_entry_length = index_entry.get_length()
@@ -850,6 +854,9 @@ class IndexBuffer(object):
 		index_entry_pos = 24 + index_header.get_first_index_entry()
 		while index_entry_pos < 24 + index_header.get_first_free_byte() and index_entry_pos < len(self.index_buffer_raw):
 			index_entry_raw = self.index_buffer_raw[index_entry_pos : ]
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry = IndexEntry(index_entry_raw)
 
 			index_entry_length = index_entry.get_length()
-- 
2.43.0


From f55fb4db4c1a02a9def79a92d92a10b5054e63d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:15 +0000
Subject: [PATCH 05/25] fix: do not fail on a truncated attribute list when
 looking for the last compacted size

---
 dfir_ntfs/Attributes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 9e2f644..0f15ec8 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -580,7 +580,11 @@ class AttributeList(GenericAttribute):
 		if signature != LAST_COMPACTED_SIZE_SIGNATURE:
 			return
 
-		last_compacted_size = struct.unpack('<L', self.value[28 : 32])[0]
+		data = self.value[28 : 32]
+		if len(data) != 4:
+			return
+
+		last_compacted_size = struct.unpack('<L', data)[0]
 		return last_compacted_size
 
 	def print_information(self):
-- 
2.43.0


From 92e1fa4439eb170f39c9ab4e22a62467a0e8dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:42 +0000
Subject: [PATCH 06/25] fix: do not fail on third-party reparse points

---
 dfir_ntfs/Attributes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 0f15ec8..263a1af 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -989,7 +989,10 @@ class ReparsePoint(GenericAttribute):
 		"""Get and return the reparse GUID. Third-party reparse points only!"""
 
 		if not self.is_reparse_tag_microsoft():
-			data = self.value[8 : 24]
+			data = bytes(self.value[8 : 24])
+			if len(data) != 16:
+				return
+
 			return uuid.UUID(bytes_le = data)
 
 	def get_reparse_buffer(self):
-- 
2.43.0


From a624e4fd20b121d153d678c90e141b374b4a5c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:33 +0000
Subject: [PATCH 07/25] fix: LogFile: use the sequence number of the current
 record and handle the wrap when looking for the next LSN

---
 dfir_ntfs/LogFile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index ed3da2e..668737d 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -883,7 +883,7 @@ class LogFileParser(object):
 			if client_data_length < 8 or client_data_length % 8 != 0:
 				return
 
-			seqnum_expected = self.lsn_to_seqnum(lsn)
+			seqnum_expected = self.lsn_to_seqnum(current_lsn)
 
 			if client_data_length <= self.log_page_size - offset_in_page - self.record_header_length: # Client data is in the current log record page only.
 				# Try the current log record page.
@@ -952,6 +952,12 @@ class LogFileParser(object):
 				candidate_offset_in_page = self.log_page_data_offset
 				candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
 
+				# Handle the wrap.
+				if candidate_log_page_number * self.log_page_size >= self.file_size:
+					candidate_log_page_number = self.get_wrapped_log_record_page_number()
+					seqnum_expected += 1
+					candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
+
 				candidate_log_record_page = self.get_log_record_page_by_number(candidate_log_page_number)
 				if candidate_log_record_page is not None:
 					try:
-- 
2.43.0


From 19d65474538e22bb7d73c7379f75fee4a62a270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:33 +0000
Subject: [PATCH 08/25] fix: LogFile: ignore tail and fast pages with an
 invalid target offset

---
 dfir_ntfs/LogFile.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 668737d..def73e5 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -710,6 +710,8 @@ class LogFileParser(object):
 
 		self.log_page_data_offset = restart_area.get_log_page_data_offset()
 
+		self.log_size = max(self.file_size, restart_area.get_file_size()) # A log file can be truncated.
+
 		self.sequence_number_bits = restart_area.get_sequence_number_bits()
 		if self.sequence_number_bits >= 64 or self.sequence_number_bits < 3:
 			raise LogFileException('Invalid count of sequence number bits: {}'.format(self.sequence_number_bits))
@@ -1223,6 +1225,9 @@ class LogFileParser(object):
 		if single_tail_page is not None: # A proper tail log record page was found.
 			file_offset = single_tail_page.get_file_offset_11()
 
+			if file_offset < 0 or file_offset + self.log_page_size > self.log_size: # This offset is invalid.
+				return
+
 			self.file_object.seek(file_offset)
 			self.file_object.write(single_tail_page.buf_protected)
 
@@ -1253,6 +1258,8 @@ class LogFileParser(object):
 
 		for fast_page in fast_pages:
 			file_offset = fast_page.get_file_offset_2x()
+			if file_offset is None or file_offset + self.log_page_size > self.log_size: # This offset is missing or invalid.
+				continue
 
 			self.file_object.seek(file_offset)
 			self.file_object.write(fast_page.buf_protected)
-- 
2.43.0


From af00a8ec86b8c04514a38ce906276f2d7c699530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:33 +0000
Subject: [PATCH 09/25] fix: LogFile: do not abort on invalid client data when
 parsing NTFS records

---
 dfir_ntfs/LogFile.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index def73e5..6d1dd33 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -718,6 +718,7 @@ class LogFileParser(object):
 
 		self.cluster_size = CLUSTER_SIZE_DEFAULT # Adjusted in the 'collect_lsns' method.
 		self.oat_version = 1 # Adjusted in the 'collect_lsns' method.
+		self.use_dumps = True # Adjusted in the 'collect_lsns' method.
 
 	def lsn_to_offset(self, lsn):
 		"""Convert a log sequence number (LSN) to a file offset, return a (log_page_number, offset_in_page) tuple."""
@@ -1362,18 +1363,18 @@ class LogFileParser(object):
 				client_data = self.get_client_data(lsn)
 				try:
 					client_data_decoded = client_data.data_decoded()
-				except NotImplementedError:
+				except (NotImplementedError, ClientException): # This log record is not supported or invalid.
 					pass
 				else:
 					if type(client_data_decoded) is NTFSLogRecord:
 						redo_op = client_data_decoded.get_redo_operation()
 						if redo_op == OpenNonresidentAttribute:
-							attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
-
 							oat_index = client_data_decoded.get_target_attribute()
-							oat_entry_data = client_data_decoded.get_redo_data()
 
 							try:
+								attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
+								oat_entry_data = client_data_decoded.get_redo_data()
+
 								if self.oat_version >= 1:
 									oat_entry = OpenAttributeEntry1(oat_entry_data)
 								else:
@@ -1385,11 +1386,19 @@ class LogFileParser(object):
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
 							old_oat_dump = latest_oat_dump
-							latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							try:
+								latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							except ClientException:
+								latest_oat_dump = None
+
 							oat_dump_count += 1
 						elif self.use_dumps and redo_op == AttributeNamesDump:
 							old_an_dump = latest_an_dump
-							latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							try:
+								latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							except ClientException:
+								latest_an_dump = None
+
 							an_dump_count += 1
 
 						client_data_decoded.oat = oat.copy()
-- 
2.43.0


From 8f2b2d864ccaf1818d201bbadef3ae1ed43bce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:33 +0000
Subject: [PATCH 10/25] fix: LogFile: refuse truncated restart areas and client
 records, tolerate an invalid client name

---
 dfir_ntfs/LogFile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 6d1dd33..23726a6 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -313,6 +313,9 @@ class RestartArea(object):
 	def __init__(self, restart_area_raw, system_page_size):
 		self.buf = restart_area_raw
 
+		if len(self.buf) < 44:
+			raise RestartAreaException('Invalid restart area length: {}'.format(len(self.buf)))
+
 		client_array_offset = self.get_client_array_offset()
 		if client_array_offset == 0 or client_array_offset % 8 != 0 or client_array_offset >= len(self.buf) or client_array_offset >= system_page_size:
 			raise RestartAreaException('Invalid client array offset: {}'.format(client_array_offset))
@@ -419,6 +422,9 @@ class ClientRecord(object):
 	def __init__(self, client_record_raw):
 		self.buf = client_record_raw
 
+		if len(self.buf) < 32:
+			raise ClientRecordException('Invalid client record length: {}'.format(len(self.buf)))
+
 		client_name_length = self.get_client_name_length()
 		if client_name_length > 128: # Do not cross the 'sizeof' boundary.
 			raise ClientRecordException('Invalid name length: {}'.format(client_name_length))
@@ -457,7 +463,7 @@ class ClientRecord(object):
 		"""Get, decode and return the name of this client."""
 
 		name_raw = self.buf[32 : 32 + self.get_client_name_length()]
-		return name_raw.decode('utf-16le')
+		return name_raw.decode('utf-16le', errors = 'replace')
 
 	def __str__(self):
 		return 'ClientRecord, name: {}, oldest LSN: {}, client restart LSN: {}, sequence number: {}'.format(self.get_client_name(), self.get_oldest_lsn(), self.get_client_restart_lsn(), self.get_sequence_number())
-- 
2.43.0


From aa7b944703da68117254e49c45ff68677b8c2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:31 +0000
Subject: [PATCH 11/25] fix: PartitionTable: an invalid extended partition
 should not hide other logical partitions

---
 dfir_ntfs/PartitionTable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/PartitionTable.py b/dfir_ntfs/PartitionTable.py
index d0c8ab9..f47c0af 100644
--- a/dfir_ntfs/PartitionTable.py
+++ b/dfir_ntfs/PartitionTable.py
@@ -325,8 +325,8 @@ class MBR(object):
 			first_ebr_lba = part.starting_lba
 			next_ebr_lba_relative = 0
 
-			if first_ebr_lba == 0:
-				return []
+			if first_ebr_lba == 0: # This extended partition is invalid, skip it.
+				continue
 
 			while True:
 				curr_ebr_lba = first_ebr_lba + next_ebr_lba_relative
-- 
2.43.0


From 10f2b3ddcf6b80d0428af696ca119dd908ba645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:01 +0000
Subject: [PATCH 12/25] fix: PartitionTable: refuse a GPT header with a
 partition entry array larger than the volume

---
 dfir_ntfs/PartitionTable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/PartitionTable.py b/dfir_ntfs/PartitionTable.py
index f47c0af..f448a98 100644
--- a/dfir_ntfs/PartitionTable.py
+++ b/dfir_ntfs/PartitionTable.py
@@ -131,6 +131,9 @@ class GPT(object):
 		if size_of_partition_entry < 128 or size_of_partition_entry % 128 != 0:
 			raise ValueError('Invalid partition entry size: {}'.format(size_of_partition_entry))
 
+		if number_of_partition_entries * size_of_partition_entry > self.volume_size:
+			raise ValueError('Invalid number of partition entries: {}'.format(number_of_partition_entries))
+
 		disk_guid = uuid.UUID(bytes_le = disk_guid_raw)
 
 		# Read and validate the partition entry array (but do not use it).
-- 
2.43.0


From f8b509a31f6dd9e536796ed298eee2915c529a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:32 +0000
Subject: [PATCH 13/25] fix: ShadowCopy: do not read past the end of a shadow
 copy

---
 dfir_ntfs/ShadowCopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 81b6fda..5ef4667 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1221,7 +1221,7 @@ class ShadowParser(object):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read past the end of the volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
@@ -1765,7 +1765,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read past the end of the volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
-- 
2.43.0


From e187f8f829307430cb3c3e75b346874706cb1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:38 +0000
Subject: [PATCH 14/25] fix: ShadowCopy: do not loop on cyclic lists of blocks

---
 dfir_ntfs/ShadowCopy.py | 55 ++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 5ef4667..e404527 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -702,7 +702,10 @@ class ShadowParser(object):
 		self.control_blocks = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -819,7 +822,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -850,7 +856,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -871,7 +880,10 @@ class ShadowParser(object):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			location_description_block_buf = self.volume_object.read(0x4000)
 
@@ -910,7 +922,10 @@ class ShadowParser(object):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			diff_area_block_buf = self.volume_object.read(0x4000)
 
@@ -1315,7 +1330,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		self.control_blocks_storage = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -1328,7 +1346,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 			curr_offset = control_block.get_next_control_block_volume_offset()
 
 		curr_offset = self.start_block_storage.get_first_control_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			control_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1432,7 +1453,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1463,7 +1487,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1484,7 +1511,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			location_description_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1523,7 +1553,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		offsets_seen = set()
+		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
+			offsets_seen.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			diff_area_block_buf = self.volume_storage_object.read(0x4000)
 
-- 
2.43.0


From 66e4d0c6164fa86c29ab86c7dc1cd24e2bb85c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:45 +0000
Subject: [PATCH 15/25] fix: FAT: refuse a boot sector without a number of
 sectors or a size of the FAT

---
 dfir_ntfs/addons/FAT.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 5ccac7a..dbe6359 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -132,6 +132,9 @@ def GetCountOfClusters(BSBPB):
 		if totsec == 0:
 			totsec = BSBPB.get_bs_totsec64()
 
+	if totsec is None or totsec == 0:
+		raise BootSectorException('Invalid number of sectors')
+
 	if BSBPB.get_bpb_fatsz16() > 0:
 		RootDirSectors = (BSBPB.get_bpb_rootentcnt() * 32 + BSBPB.get_bpb_bytspersec() - 1) // BSBPB.get_bpb_bytspersec()
 		DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * BSBPB.get_bpb_fatsz16() + RootDirSectors)
@@ -139,7 +142,11 @@ def GetCountOfClusters(BSBPB):
 
 		return CountofClusters
 
-	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * BSBPB.get_bpb_fatsz32())
+	fatsz32 = BSBPB.get_bpb_fatsz32()
+	if fatsz32 is None: # Not FAT32.
+		raise BootSectorException('Invalid number of FAT sectors')
+
+	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * fatsz32)
 	CountofClusters = DataSec // BSBPB.get_bpb_secperclus()
 
 	return CountofClusters
-- 
2.43.0


From af5b9a52fe3a8ab45bafe7d738d66ddd23f54b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:06 +0000
Subject: [PATCH 16/25] fix: FAT: do not report orphan long names that are
 empty

---
 dfir_ntfs/addons/FAT.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index dbe6359..d2c96f0 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1247,7 +1247,8 @@ class DirectoryEntries(object):
 				if not is_long_entry_valid:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None: # Skip an empty name.
+							yield OrphanLongEntry(long_name_partial)
 
 					# Reset the long name stash and try this entry as the first one in the set.
 					long_entities = []
@@ -1320,7 +1321,8 @@ class DirectoryEntries(object):
 				else:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None: # Skip an empty name.
+							yield OrphanLongEntry(long_name_partial)
 
 					long_name = None
 			else:
@@ -1452,7 +1454,8 @@ class DirectoryEntries(object):
 
 			if len(long_entities) > 0:
 				long_name_partial = BuildLongName(long_entities)
-				yield OrphanLongEntry(long_name_partial)
+				if long_name_partial is not None: # Skip an empty name.
+					yield OrphanLongEntry(long_name_partial)
 
 	def __str__(self):
 		return 'DirectoryEntries'
-- 
2.43.0


From 17e96ec64787373aaed2cfa1d29c77119385f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 17/25] fix: exFAT: refuse a truncated boot region

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 7cc3e53..cbcaf25 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -535,6 +535,9 @@ class BR(object):
 		if self.get_mustbezero() != b'\x00' * 53:
 			raise BootRegionException('Invalid (non-zero) null area')
 
+		if len(self.br_buf) < 12 * self.get_bytespersector():
+			raise BootRegionException('Truncated boot region')
+
 		if self.get_checksum() != self.calculate_checksum():
 			raise BootRegionChecksumException('Invalid boot region checksum')
 
-- 
2.43.0


From 60561b87816fe01672fd631308b2566707167b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:28 +0000
Subject: [PATCH 18/25] fix: exFAT: validate names that are truncated

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index cbcaf25..051e467 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -139,7 +139,7 @@ def BuildName(NameEntities, NameLength):
 		return
 
 	if NameLength is not None and len(name) > NameLength: # This name is too long, truncate it.
-		return name[ : NameLength]
+		name = name[ : NameLength]
 
 	for character_code in FORBIDDEN_CHARACTERS:
 		character = chr(character_code)
-- 
2.43.0


From 2536871e97d10374a83029fa965f11aaaf1591a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:15 +0000
Subject: [PATCH 19/25] fix: exFAT: do not fail on a cluster outside of a
 truncated bitmap

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 051e467..79ff3b1 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1044,6 +1044,9 @@ class Bitmap(object):
 		byte_pos = cluster // 8
 		bit_pos = cluster % 8
 
+		if byte_pos >= len(self.bitmap_buf): # The bitmap is truncated.
+			return
+
 		is_allocated = (self.bitmap_buf[byte_pos] >> bit_pos) & 1 > 0
 		return is_allocated
 
-- 
2.43.0


From 5dd9e22b9958beefaee217f0a7d0bc66734b1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 20/25] fix: exFAT: do not fail when comparing invalid
 timestamps of deleted directories

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 79ff3b1..2e7e44e 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1253,7 +1253,7 @@ class FileSystemParser(object):
 								reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 							else:
 								ts = reallocated_directories_metadata[dir_entry.first_cluster][0]
-								if dir_entry.mtime > ts:
+								if dir_entry.mtime is not None and (ts is None or dir_entry.mtime > ts): # Timestamps can be invalid.
 									reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 
 							continue
-- 
2.43.0


From 0593a039dc841348c1bcda89ae386fb39ab104ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:18 +0000
Subject: [PATCH 21/25] fix: exFAT: do not stop walking at a directory with an
 invalid size

---
 dfir_ntfs/addons/exFAT.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 2e7e44e..5dd3ab5 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1268,6 +1268,9 @@ class FileSystemParser(object):
 						if len(new_buf) == 0: # This directory is really empty, skip it.
 							continue
 
+						if len(new_buf) % 512 != 0: # This directory has an invalid size, skip it.
+							continue
+
 						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack)):
 							yield item
 
@@ -1297,7 +1300,7 @@ class FileSystemParser(object):
 				except (FileSystemException, ValueError):
 					continue
 
-				if len(buf) < 512 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
+				if len(buf) < 512 or len(buf) % 512 != 0 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
 				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
-- 
2.43.0


From 6c06b65378bb269e3f5c29b0148c272758cfd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 22/25] fix: WSL: do not fail on timestamps that are out of
 range

---
 dfir_ntfs/WSL.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/WSL.py b/dfir_ntfs/WSL.py
index c88fd03..8e6d741 100644
--- a/dfir_ntfs/WSL.py
+++ b/dfir_ntfs/WSL.py
@@ -7,9 +7,12 @@ import struct
 import datetime
 
 def DecodeUnixtime(TimestampSeconds, TimestampNanoseconds):
-	"""Decode the Unixtime timestamp and return the datetime object."""
+	"""Decode the Unixtime timestamp and return the datetime object (or None, if the timestamp is out of range)."""
 
-	return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	try:
+		return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	except OverflowError:
+		return
 
 class LXXATTR(object):
 	"""This class is used to access Linux extended attributes stored in the LXXATTR extended attribute."""
-- 
2.43.0


From 2aba6b1962baa96ff0ba7206983705ca85098c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:10 +0000
Subject: [PATCH 23/25] fix: resolve log record targets using matching open
 attribute table and attribute names dumps

Between an open attribute table dump and its attribute names dump, and after
a dump with no counterpart, dumps from different checkpoints were combined
(or the last complete pair was lost). Track the last complete pair instead.
---
 dfir_ntfs/LogFile.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 23726a6..f7abf3a 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1355,13 +1355,11 @@ class LogFileParser(object):
 		self.sort_lsns()
 
 		for client_id in self.lsns_sorted.keys():
-			latest_oat_dump = None
-			old_oat_dump = None
-			latest_an_dump = None
-			old_an_dump = None
+			latest_oat_dump = None # This dump is not a part of a complete pair (yet).
 
-			oat_dump_count = 0
-			an_dump_count = 0
+			# The last complete pair of dumps (an open attribute table dump followed by an attribute names dump).
+			oat_dump = None
+			an_dump = None
 
 			oat = dict()
 
@@ -1391,33 +1389,23 @@ class LogFileParser(object):
 							else:
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
-							old_oat_dump = latest_oat_dump
 							try:
 								latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
 							except ClientException:
 								latest_oat_dump = None
-
-							oat_dump_count += 1
-						elif self.use_dumps and redo_op == AttributeNamesDump:
-							old_an_dump = latest_an_dump
+						elif self.use_dumps and redo_op == AttributeNamesDump and latest_oat_dump is not None:
 							try:
-								latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+								an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
 							except ClientException:
-								latest_an_dump = None
+								an_dump = None
 
-							an_dump_count += 1
+							oat_dump = latest_oat_dump
+							latest_oat_dump = None
 
 						client_data_decoded.oat = oat.copy()
 
-						if self.use_dumps and oat_dump_count > 0 and oat_dump_count == an_dump_count:
-							client_data_decoded.oat_dump = latest_oat_dump
-							client_data_decoded.an_dump = latest_an_dump
-						elif self.use_dumps and oat_dump_count > 0 and oat_dump_count != an_dump_count:
-							client_data_decoded.oat_dump = old_oat_dump
-							client_data_decoded.an_dump = old_an_dump
-						else:
-							client_data_decoded.oat_dump = None
-							client_data_decoded.an_dump = None
+						client_data_decoded.oat_dump = oat_dump
+						client_data_decoded.an_dump = an_dump
 
 					yield client_data_decoded
 
-- 
2.43.0


From 7b3fe8d77581b37e8973b4510f96b4297746ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 24/25] fix: ntfs_parser --indx: look up the parent that the
 index entry refers to

When an index entry (or one in the index slack) has a parent other than the
directory being parsed, the path was built from that directory anyway.
---
 ntfs_parser | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 4e605ff..9cfa1b8 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -765,8 +765,10 @@ def process_indx():
 
 						if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 							# This index entry points to a different parent for some reason.
+							real_parent_mft_number, real_parent_sequence_number = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
+
 							try:
-								real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+								real_parent_file_record = mft.get_file_record_by_number(real_parent_mft_number, real_parent_sequence_number)
 								parent_file_paths = mft.build_full_paths(real_parent_file_record)
 							except MFT.MasterFileTableException:
 								parent_file_path = None
@@ -814,8 +816,10 @@ def process_indx():
 				for attr_file_name in slack_parser.carve():
 					if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 						# This index entry points to a different parent for some reason.
+						real_parent_mft_number, real_parent_sequence_number = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
+
 						try:
-							real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+							real_parent_file_record = mft.get_file_record_by_number(real_parent_mft_number, real_parent_sequence_number)
 							parent_file_paths = mft.build_full_paths(real_parent_file_record)
 						except MFT.MasterFileTableException:
 							parent_file_path = None
-- 
2.43.0


From b7a5217eefdb97b14aa3ec8713ed85e028e56e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 25/25] fix: ntfs_parser --mft: do not fail on index entries
 with a truncated file name

---
 ntfs_parser | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntfs_parser b/ntfs_parser
index 9cfa1b8..5b04cea 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -213,7 +213,7 @@ def process_mft(source_tag = None):
 			if attr_index_root is not None:
 				for index_entry in attr_index_root.index_entries():
 					attr_file_name_raw = index_entry.get_attribute()
-					if attr_file_name_raw is None:
+					if attr_file_name_raw is None or len(attr_file_name_raw) <= 66:
 						continue
 
 					attr_file_name = Attributes.FileName(attr_file_name_raw)
-- 
2.43.0

