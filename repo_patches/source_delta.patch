From 86e5dad44131e8045c032056895f8c63fde8c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:39 +0000
Subject: [PATCH 01/49] fix: do not return slack bytes when reading past the
 end of a fragmented file

---
 dfir_ntfs/MFT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5b6cfdd..cb03916 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1461,6 +1461,9 @@ class FragmentedFile(object):
 		if size <= 0 or self.current_offset_in_file >= self.file_size: # Nothing to read.
 			return b''
 
+		if size > self.file_size - self.current_offset_in_file: # Do not read the slack space past the end of a file.
+			size = self.file_size - self.current_offset_in_file
+
 		virtual_cluster_number = self.current_offset_in_file // self.cluster_size
 		offset_in_virtual_cluster = self.current_offset_in_file % self.cluster_size
 
-- 
2.43.0


From 8763469bbefc0ca92c1d62b12183f9e23d4d9c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 02/49] fix: report an orphan path when the name of a parent
 directory cannot be read

---
 dfir_ntfs/MFT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index cb03916..789e8c5 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1241,7 +1241,13 @@ class MasterFileTableParser(object):
 
 					current_file_record = parent_file_record
 					while True:
-						file_name, parent_reference = get_preferred_file_name(current_file_record)
+						try:
+							file_name, parent_reference = get_preferred_file_name(current_file_record)
+						except MasterFileTableException:
+							# A parent file record is damaged or it has no file names.
+							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
+							break
+
 						parent_segment_number, parent_sequence_number = DecodeFileRecordSegmentReference(parent_reference)
 
 						path_components.append(file_name)
-- 
2.43.0


From d7e0ac68817ef44157956a3031b7ec60ddfd88a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 03/49] fix: a damaged file record must not abort the lookup of
 another file by its path

---
 dfir_ntfs/MFT.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 789e8c5..89c04f7 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1117,7 +1117,11 @@ class MasterFileTableParser(object):
 			except MasterFileTableException:
 				pass
 			else:
-				parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
+				try:
+					parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
+				except MasterFileTableException: # This file record is damaged, ignore it and continue.
+					parent_directory = None
+
 				if file_record.is_in_use() and parent_directory is not None:
 					if not must_be_directory:
 						candidate_parent_directories.append((parent_directory, file_record))
@@ -1156,7 +1160,11 @@ class MasterFileTableParser(object):
 				except IndexError:
 					break
 
-				parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
+				try:
+					parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
+				except MasterFileTableException:
+					break
+
 				if parent_directory is None:
 					break
 
-- 
2.43.0


From be708d487b95b7007a9b1199d8b2da12169cbe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:57 +0000
Subject: [PATCH 04/49] fix: find a file by each of its hard links when they
 share a name

---
 dfir_ntfs/MFT.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 89c04f7..5956b65 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1076,6 +1076,8 @@ class MasterFileTableParser(object):
 		"""
 
 		def compare_name_against_file_record(name, file_record, case_sensitive):
+			parent_directories = [] # A file record can have several hard links with the same name (in different directories).
+
 			for attr in file_record.attributes():
 				if type(attr) is AttributeRecordNonresident:
 					continue
@@ -1085,11 +1087,11 @@ class MasterFileTableParser(object):
 					continue
 
 				if case_sensitive and attr_value.get_file_name() == name:
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 				elif (not case_sensitive) and attr_value.get_file_name().upper() == name.upper():
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 
-			return
+			return parent_directories
 
 		if len(path) == 0:
 			raise MasterFileTableException('An empty path given')
@@ -1118,16 +1120,17 @@ class MasterFileTableParser(object):
 				pass
 			else:
 				try:
-					parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
+					parent_directories = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
 				except MasterFileTableException: # This file record is damaged, ignore it and continue.
-					parent_directory = None
+					parent_directories = []
 
-				if file_record.is_in_use() and parent_directory is not None:
-					if not must_be_directory:
-						candidate_parent_directories.append((parent_directory, file_record))
-					else:
-						if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+				if file_record.is_in_use():
+					for parent_directory in parent_directories:
+						if not must_be_directory:
 							candidate_parent_directories.append((parent_directory, file_record))
+						else:
+							if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+								candidate_parent_directories.append((parent_directory, file_record))
 
 			i += 1
 
@@ -1161,13 +1164,15 @@ class MasterFileTableParser(object):
 					break
 
 				try:
-					parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
+					parent_directories = compare_name_against_file_record(path_component, file_record, case_sensitive)
 				except MasterFileTableException:
 					break
 
-				if parent_directory is None:
+				if len(parent_directories) == 0:
 					break
 
+				parent_directory = parent_directories[0] # There are no hard links to a directory.
+
 				i += 1
 
 	def build_full_paths(self, file_record, include_attributes = False):
-- 
2.43.0


From 0c5dcb9414fe3d810721f7aa2082526b92e077bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:38 +0000
Subject: [PATCH 05/49] fix: do not take client data of a log record from a
 page which was not written for it

When the pages a log record continues on were not written before a crash,
or were reused after the log wrapped, get_client_data() returned bytes of
unrelated log records. Treat such pages as missing ones.
---
 dfir_ntfs/LogFile.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index ed3da2e..3ae14df 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1294,17 +1294,27 @@ class LogFileParser(object):
 			client_buf = log_record_header.buf[self.record_header_length : ]
 			client_data_length_left = client_data_length - len(client_buf)
 
+			sequence_number = self.lsn_to_seqnum(lsn)
+
 			while client_data_length_left > 0:
 				log_page_number += 1
 
 				# Handle the wrap.
 				if log_page_number * self.log_page_size >= self.file_size:
 					log_page_number = self.get_wrapped_log_record_page_number()
+					sequence_number += 1
 
 				log_record_page = self.get_log_record_page_by_number(log_page_number)
 				if log_record_page is None: # This page is missing in the current state of the log file.
 					break
 
+				page_last_lsn = log_record_page.get_last_lsn()
+				if page_last_lsn == log_page_number * self.log_page_size: # This is a tail copy applied, there is a file offset in this field.
+					page_last_lsn = log_record_page.get_last_end_lsn()
+
+				if page_last_lsn < lsn or page_last_lsn >= self.offset_to_lsn(log_page_number + 1, 0, sequence_number): # This page contains older or newer data (not from this log record).
+					break
+
 				if client_data_length_left >= self.log_page_size - self.log_page_data_offset:
 					client_buf_more_data = log_record_page.buf[self.log_page_data_offset : ]
 				else:
-- 
2.43.0


From 03f821cf7a7f1459754b527e8afca56aa4566888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:48 +0000
Subject: [PATCH 06/49] fix: parse a log file without an NTFS restart area

When no client restart record is found, the use_dumps attribute was not
set and parse_ntfs_records() failed with an AttributeError.
---
 dfir_ntfs/LogFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 3ae14df..eede2d0 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -716,6 +716,7 @@ class LogFileParser(object):
 
 		self.cluster_size = CLUSTER_SIZE_DEFAULT # Adjusted in the 'collect_lsns' method.
 		self.oat_version = 1 # Adjusted in the 'collect_lsns' method.
+		self.use_dumps = True # Adjusted in the 'collect_lsns' method.
 
 	def lsn_to_offset(self, lsn):
 		"""Convert a log sequence number (LSN) to a file offset, return a (log_page_number, offset_in_page) tuple."""
-- 
2.43.0


From 69a8ec19b33fd12673d8dba4bb7ec9c41c12748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 07/49] fix: follow log records after the log file wraps

find_next_lsn() took the expected sequence number from the log sequence
number the walk started with, not from the current one, so a walk stopped
at the first log record after the wrap.
---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index eede2d0..f07f4f2 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -884,7 +884,7 @@ class LogFileParser(object):
 			if client_data_length < 8 or client_data_length % 8 != 0:
 				return
 
-			seqnum_expected = self.lsn_to_seqnum(lsn)
+			seqnum_expected = self.lsn_to_seqnum(current_lsn)
 
 			if client_data_length <= self.log_page_size - offset_in_page - self.record_header_length: # Client data is in the current log record page only.
 				# Try the current log record page.
-- 
2.43.0


From 7ad69bd17a8260615e025e986dd527a0ef1c4eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:44 +0000
Subject: [PATCH 08/49] fix: find the log record which follows a multi-page one
 at the end of the log file

When a log record spanning pages ends near the end of the last page, the
next one is in the first page of the "infinite" area.
---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index f07f4f2..5971fa1 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -951,6 +951,12 @@ class LogFileParser(object):
 				# Try the next log record page.
 				candidate_log_page_number += 1
 				candidate_offset_in_page = self.log_page_data_offset
+
+				# Handle the wrap.
+				if candidate_log_page_number * self.log_page_size >= self.file_size:
+					candidate_log_page_number = self.get_wrapped_log_record_page_number()
+					seqnum_expected += 1
+
 				candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
 
 				candidate_log_record_page = self.get_log_record_page_by_number(candidate_log_page_number)
-- 
2.43.0


From 2b8cc9f4acb016bd7681418acba8f1546e163c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:05 +0000
Subject: [PATCH 09/49] fix: do not overwrite newer log records with an
 outdated tail page

A tail page is not updated when a log record page is written only once,
so, after the log file wraps, it can be older than the page it refers to.
---
 dfir_ntfs/LogFile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 5971fa1..826b099 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1224,6 +1224,10 @@ class LogFileParser(object):
 		if single_tail_page is not None: # A proper tail log record page was found.
 			file_offset = single_tail_page.get_file_offset_11()
 
+			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
+			if current_page is not None and current_page.get_last_end_lsn() >= single_tail_page.get_last_end_lsn(): # This tail log record page is outdated.
+				return
+
 			self.file_object.seek(file_offset)
 			self.file_object.write(single_tail_page.buf_protected)
 
-- 
2.43.0


From d9f02e116f69537cd65188f4a32bead31e26d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:17 +0000
Subject: [PATCH 10/49] fix: do not stop parsing the log file at a log record
 with truncated client data

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 826b099..79131a9 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1370,7 +1370,7 @@ class LogFileParser(object):
 				client_data = self.get_client_data(lsn)
 				try:
 					client_data_decoded = client_data.data_decoded()
-				except NotImplementedError:
+				except (NotImplementedError, ClientException):
 					pass
 				else:
 					if type(client_data_decoded) is NTFSLogRecord:
-- 
2.43.0


From 2f8c82af20cc709bbd2dab4be5389cb769a60c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:36 +0000
Subject: [PATCH 11/49] fix: apply fast pages with the rest of the last log
 record in the "infinite" area

When a log record spans pages and only the first ones were written to the
"infinite" area, the remaining ones (having the same last LSN) were left
in the fast area, so the log record was returned with wrong client data.
---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 79131a9..e7961c1 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1249,7 +1249,7 @@ class LogFileParser(object):
 		i = 2
 		while i < 34:
 			fast_page = self.get_log_record_page_by_number(i)
-			if fast_page is not None and fast_page.get_last_lsn() > highest_lsn:
+			if fast_page is not None and fast_page.get_last_lsn() >= highest_lsn: # A log record with the highest LSN can occupy more than one page (and the remaining pages can be present as fast pages only).
 				fast_pages.append(fast_page)
 
 			i += 1
-- 
2.43.0


From b11f0c94ecf77d9578d8dec6280d1ce46053ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:52 +0000
Subject: [PATCH 12/49] fix: recognize an outdated tail page for a log record
 page without an end of a log record

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index e7961c1..58cc0f9 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1225,7 +1225,7 @@ class LogFileParser(object):
 			file_offset = single_tail_page.get_file_offset_11()
 
 			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
-			if current_page is not None and current_page.get_last_end_lsn() >= single_tail_page.get_last_end_lsn(): # This tail log record page is outdated.
+			if current_page is not None and max(current_page.get_last_lsn(), current_page.get_last_end_lsn()) >= single_tail_page.get_last_end_lsn(): # This tail log record page is outdated.
 				return
 
 			self.file_object.seek(file_offset)
-- 
2.43.0


From 022e6af1ebc01a1801e678e8a879cf73207e81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 13/49] fix: take client data from the last page of a log file
 with no unused LSN bits

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 58cc0f9..c2a0995 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1323,7 +1323,7 @@ class LogFileParser(object):
 				if page_last_lsn == log_page_number * self.log_page_size: # This is a tail copy applied, there is a file offset in this field.
 					page_last_lsn = log_record_page.get_last_end_lsn()
 
-				if page_last_lsn < lsn or page_last_lsn >= self.offset_to_lsn(log_page_number + 1, 0, sequence_number): # This page contains older or newer data (not from this log record).
+				if page_last_lsn < lsn or page_last_lsn > self.offset_to_lsn(log_page_number, self.log_page_size - 8, sequence_number): # This page contains older or newer data (not from this log record).
 					break
 
 				if client_data_length_left >= self.log_page_size - self.log_page_data_offset:
-- 
2.43.0


From 4bdf1376eaac8f29bcea6f835c767d76274cd51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:13 +0000
Subject: [PATCH 14/49] fix: do not take client data from other pages when the
 log file is truncated

---
 dfir_ntfs/LogFile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index c2a0995..2c3bb0b 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1306,6 +1306,7 @@ class LogFileParser(object):
 			client_data_length_left = client_data_length - len(client_buf)
 
 			sequence_number = self.lsn_to_seqnum(lsn)
+			first_log_page_number = log_page_number
 
 			while client_data_length_left > 0:
 				log_page_number += 1
@@ -1323,7 +1324,11 @@ class LogFileParser(object):
 				if page_last_lsn == log_page_number * self.log_page_size: # This is a tail copy applied, there is a file offset in this field.
 					page_last_lsn = log_record_page.get_last_end_lsn()
 
-				if page_last_lsn < lsn or page_last_lsn > self.offset_to_lsn(log_page_number, self.log_page_size - 8, sequence_number): # This page contains older or newer data (not from this log record).
+				# The last log record in this page is either the current one or one starting in this page.
+				page_min_lsn = self.offset_to_lsn(log_page_number, 0, sequence_number)
+				page_max_lsn = self.offset_to_lsn(log_page_number, self.log_page_size - 8, sequence_number)
+
+				if log_page_number == first_log_page_number or (page_last_lsn != lsn and not page_min_lsn <= page_last_lsn <= page_max_lsn): # This page contains older or newer data (not from this log record).
 					break
 
 				if client_data_length_left >= self.log_page_size - self.log_page_data_offset:
-- 
2.43.0


From 0fd3a67c0e186869755ccda9e035dbf81099e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 15/49] fix: ignore tail and fast pages with an invalid file
 offset

A damaged file offset made parsing fail (or made it allocate a huge
in-memory file).
---
 dfir_ntfs/LogFile.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 2c3bb0b..14ba871 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -710,6 +710,8 @@ class LogFileParser(object):
 
 		self.log_page_data_offset = restart_area.get_log_page_data_offset()
 
+		self.log_file_size = restart_area.get_file_size() # This can be larger than the size of a file object (if it is truncated).
+
 		self.sequence_number_bits = restart_area.get_sequence_number_bits()
 		if self.sequence_number_bits >= 64 or self.sequence_number_bits < 3:
 			raise LogFileException('Invalid count of sequence number bits: {}'.format(self.sequence_number_bits))
@@ -1197,6 +1199,14 @@ class LogFileParser(object):
 		self.file_object = self.old_file_object
 		self.writable = False
 
+	def is_valid_copy_offset(self, file_offset):
+		"""Check if a file offset from a tail copy or a fast copy points to a page in the "infinite" area."""
+
+		if file_offset is None or file_offset % self.log_page_size != 0:
+			return False
+
+		return file_offset >= self.get_wrapped_log_record_page_number() * self.log_page_size and file_offset < max(self.file_size, self.log_file_size)
+
 	def apply_tail_page(self):
 		"""Apply a tail log record page to the log file. The log file version should be 1.1. The file object should be writable."""
 
@@ -1223,6 +1233,8 @@ class LogFileParser(object):
 
 		if single_tail_page is not None: # A proper tail log record page was found.
 			file_offset = single_tail_page.get_file_offset_11()
+			if not self.is_valid_copy_offset(file_offset):
+				return
 
 			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
 			if current_page is not None and max(current_page.get_last_lsn(), current_page.get_last_end_lsn()) >= single_tail_page.get_last_end_lsn(): # This tail log record page is outdated.
@@ -1258,6 +1270,8 @@ class LogFileParser(object):
 
 		for fast_page in fast_pages:
 			file_offset = fast_page.get_file_offset_2x()
+			if not self.is_valid_copy_offset(file_offset):
+				continue
 
 			self.file_object.seek(file_offset)
 			self.file_object.write(fast_page.buf_protected)
-- 
2.43.0


From 9c09e67970c36b702910ebaa21dbd8af47a45925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 16/49] fix: use the recorded size of the log file to locate
 the wrap

When the file is truncated, its size was used to locate the wrap, so log
records were followed to wrong pages.
---
 dfir_ntfs/LogFile.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 14ba871..bb6bb29 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -710,7 +710,7 @@ class LogFileParser(object):
 
 		self.log_page_data_offset = restart_area.get_log_page_data_offset()
 
-		self.log_file_size = restart_area.get_file_size() # This can be larger than the size of a file object (if it is truncated).
+		self.log_file_size = max(self.file_size, restart_area.get_file_size()) # This is larger than the size of a file object if the latter is truncated.
 
 		self.sequence_number_bits = restart_area.get_sequence_number_bits()
 		if self.sequence_number_bits >= 64 or self.sequence_number_bits < 3:
@@ -907,7 +907,7 @@ class LogFileParser(object):
 				candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
 
 				# Handle the wrap.
-				if candidate_log_page_number * self.log_page_size >= self.file_size:
+				if candidate_log_page_number * self.log_page_size >= self.log_file_size:
 					candidate_log_page_number = self.get_wrapped_log_record_page_number()
 					seqnum_expected += 1
 					candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
@@ -933,8 +933,8 @@ class LogFileParser(object):
 				candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
 
 				# Handle the wrap.
-				if candidate_log_page_number * self.log_page_size >= self.file_size:
-					pages_left_in_file = (self.file_size // self.log_page_size) - (log_page_number + 1) # Pages left after the first one with client data.
+				if candidate_log_page_number * self.log_page_size >= self.log_file_size:
+					pages_left_in_file = (self.log_file_size // self.log_page_size) - (log_page_number + 1) # Pages left after the first one with client data.
 
 					candidate_log_page_number = self.get_wrapped_log_record_page_number() + (pages_to_skip - 1) - pages_left_in_file
 					seqnum_expected += 1
@@ -955,7 +955,7 @@ class LogFileParser(object):
 				candidate_offset_in_page = self.log_page_data_offset
 
 				# Handle the wrap.
-				if candidate_log_page_number * self.log_page_size >= self.file_size:
+				if candidate_log_page_number * self.log_page_size >= self.log_file_size:
 					candidate_log_page_number = self.get_wrapped_log_record_page_number()
 					seqnum_expected += 1
 
@@ -1205,7 +1205,7 @@ class LogFileParser(object):
 		if file_offset is None or file_offset % self.log_page_size != 0:
 			return False
 
-		return file_offset >= self.get_wrapped_log_record_page_number() * self.log_page_size and file_offset < max(self.file_size, self.log_file_size)
+		return file_offset >= self.get_wrapped_log_record_page_number() * self.log_page_size and file_offset < self.log_file_size
 
 	def apply_tail_page(self):
 		"""Apply a tail log record page to the log file. The log file version should be 1.1. The file object should be writable."""
@@ -1326,7 +1326,7 @@ class LogFileParser(object):
 				log_page_number += 1
 
 				# Handle the wrap.
-				if log_page_number * self.log_page_size >= self.file_size:
+				if log_page_number * self.log_page_size >= self.log_file_size:
 					log_page_number = self.get_wrapped_log_record_page_number()
 					sequence_number += 1
 
-- 
2.43.0


From bd49a9ca502e1aa3f3f8da3b53c75ff0171aab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 17/49] fix: apply a tail page when only the start of a log
 record was added to it

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index bb6bb29..33dcda2 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1237,7 +1237,7 @@ class LogFileParser(object):
 				return
 
 			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
-			if current_page is not None and max(current_page.get_last_lsn(), current_page.get_last_end_lsn()) >= single_tail_page.get_last_end_lsn(): # This tail log record page is outdated.
+			if current_page is not None and max(current_page.get_last_lsn(), current_page.get_last_end_lsn()) > single_tail_page.get_last_end_lsn(): # This tail log record page is outdated.
 				return
 
 			self.file_object.seek(file_offset)
-- 
2.43.0


From ad7e29423fd78533969cf5ec3b4f50c788b9c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:49 +0000
Subject: [PATCH 18/49] fix: stop when a USN journal file ends earlier than
 expected

---
 dfir_ntfs/USN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfir_ntfs/USN.py b/dfir_ntfs/USN.py
index 4304841..1128765 100644
--- a/dfir_ntfs/USN.py
+++ b/dfir_ntfs/USN.py
@@ -386,6 +386,8 @@ class ChangeJournalParser(object):
 		while pos < self.file_size:
 			self.file_object.seek(pos)
 			buf = self.file_object.read(chunk_size)
+			if len(buf) == 0: # The file is shorter than expected.
+				break
 
 			tmp_buf = buf
 			if tmp_buf.lstrip(b'\x00') == b'': # Check if this is an empty buffer (this should be fast).
-- 
2.43.0


From 693097aa7749868b7bd96f5eb96711d12d2c6e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:33 +0000
Subject: [PATCH 19/49] fix: stop reading a chain of shadow blocks when it
 forms a loop

---
 dfir_ntfs/ShadowCopy.py | 55 ++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 81b6fda..713970f 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -702,7 +702,10 @@ class ShadowParser(object):
 		self.control_blocks = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -819,7 +822,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -850,7 +856,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -871,7 +880,10 @@ class ShadowParser(object):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			location_description_block_buf = self.volume_object.read(0x4000)
 
@@ -910,7 +922,10 @@ class ShadowParser(object):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			diff_area_block_buf = self.volume_object.read(0x4000)
 
@@ -1315,7 +1330,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		self.control_blocks_storage = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -1328,7 +1346,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 			curr_offset = control_block.get_next_control_block_volume_offset()
 
 		curr_offset = self.start_block_storage.get_first_control_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			control_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1432,7 +1453,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1463,7 +1487,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1484,7 +1511,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			location_description_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1523,7 +1553,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Stop when blocks form a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			diff_area_block_buf = self.volume_storage_object.read(0x4000)
 
-- 
2.43.0


From a41b989c8f63c4d6498a993bc206d1f1fe93bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:33 +0000
Subject: [PATCH 20/49] fix: do not return data beyond the end of a shadow copy

---
 dfir_ntfs/ShadowCopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 713970f..0602215 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1236,7 +1236,7 @@ class ShadowParser(object):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read beyond the end of the volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
@@ -1798,7 +1798,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read beyond the end of the volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
-- 
2.43.0


From a2668c6058e5f547a8f5d42a766d00106dbf70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:33 +0000
Subject: [PATCH 21/49] fix: do not mix two shadow copies when a selection
 fails

---
 dfir_ntfs/ShadowCopy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 0602215..9259ce5 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -769,6 +769,8 @@ class ShadowParser(object):
 		elif cnt > 1:
 			raise ShadowCopyException('Cannot select a shadow copy (more than one found)')
 
+		self.shadow_selected = False # If something goes wrong, do not mix two shadow copies.
+
 		# Read the metadata for the shadow copy selected.
 		self.current_volume_size = self.current_cbi2.get_volume_size()
 		self.current_bitmap = self.read_bitmap()
@@ -1400,6 +1402,8 @@ class ShadowParserTwoVolumes(ShadowParser):
 		elif cnt > 1:
 			raise ShadowCopyException('Cannot select a shadow copy (more than one found)')
 
+		self.shadow_selected = False # If something goes wrong, do not mix two shadow copies.
+
 		# Read the metadata for the shadow copy selected.
 		self.current_volume_size = self.current_cbi2.get_volume_size()
 		self.current_bitmap = self.read_bitmap()
-- 
2.43.0


From 5b82bdb2df7d26ee3dc64644f3533f61d10e3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:04 +0000
Subject: [PATCH 22/49] fix: keep data written to a shadow copy in a block that
 is a target of a forwarder

---
 dfir_ntfs/ShadowCopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 9259ce5..35f5c70 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1132,7 +1132,7 @@ class ShadowParser(object):
 			else: # Offsets from the forward lookup should be used entirely.
 				return lookup_in_next_store(forward_offset, True)
 
-		if (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \
+		if (not regular_entry_found) and (not do_forward_lookup) and len(new_offsets) == 0 and offset in self.current_possible_null_targets and \
 		 switch_mode == 0 and self.return_null_blocks: # This is a null target of a forwarder block.
 			return [ None ] * 32
 
@@ -1741,7 +1741,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 			else: # Offsets from the forward lookup should be used entirely.
 				return lookup_in_next_store(forward_offset, True)
 
-		if (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \
+		if (not regular_entry_found) and (not do_forward_lookup) and len(new_offsets) == 0 and offset in self.current_possible_null_targets and \
 		 switch_mode == 0 and self.return_null_blocks: # This is a null target of a forwarder block.
 			return [ (None, None) ] * 32
 
-- 
2.43.0


From 0edd20ae1647e555f38f60ee15132d9395e4b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:12 +0000
Subject: [PATCH 23/49] fix: vsc_mount: report a read error to the reader
 instead of unmounting

---
 vsc_mount | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vsc_mount b/vsc_mount
index ae09466..119f50d 100755
--- a/vsc_mount
+++ b/vsc_mount
@@ -137,8 +137,11 @@ class VSCFS(llfuse.Operations):
 		if fh != FILE_HANDLE_IMAGE_FILE:
 			raise llfuse.FUSEError(errno.EBADF)
 
-		self._vss.seek(off)
-		return self._vss.read(size, self._debug_fill)
+		try:
+			self._vss.seek(off)
+			return self._vss.read(size, self._debug_fill)
+		except (OSError, IOError): # Report the error to the reader, do not unmount.
+			raise llfuse.FUSEError(errno.EIO)
 
 	def readdir(self, fh, off):
 		if fh != FILE_HANDLE_ROOT_DIR:
-- 
2.43.0


From 7eaae9fcd34ae075f8d213ec38d9c60264b9be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:30 +0000
Subject: [PATCH 24/49] fix: FAT: do not fail on a long name entry without a
 name

---
 dfir_ntfs/addons/FAT.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 5ccac7a..a244059 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1240,7 +1240,8 @@ class DirectoryEntries(object):
 				if not is_long_entry_valid:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None: # An empty name is not reported.
+							yield OrphanLongEntry(long_name_partial)
 
 					# Reset the long name stash and try this entry as the first one in the set.
 					long_entities = []
@@ -1313,7 +1314,8 @@ class DirectoryEntries(object):
 				else:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None: # An empty name is not reported.
+							yield OrphanLongEntry(long_name_partial)
 
 					long_name = None
 			else:
@@ -1445,7 +1447,8 @@ class DirectoryEntries(object):
 
 			if len(long_entities) > 0:
 				long_name_partial = BuildLongName(long_entities)
-				yield OrphanLongEntry(long_name_partial)
+				if long_name_partial is not None: # An empty name is not reported.
+					yield OrphanLongEntry(long_name_partial)
 
 	def __str__(self):
 		return 'DirectoryEntries'
-- 
2.43.0


From 17339fc2e242da71bb29436d0b5e6ab81ae6e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:30 +0000
Subject: [PATCH 25/49] fix: exFAT: compare the cluster heap offset with the
 space before the clusters, not with their size

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 7cc3e53..5a587ab 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -567,7 +567,7 @@ class BR(object):
 		if cluster_heap_offset < fat_offset + fat_length * number_of_fats:
 			raise BootRegionException('Invalid cluster heap offset (too small)')
 
-		if cluster_heap_offset > cluster_count * sectors_per_cluster:
+		if cluster_heap_offset > volume_length - cluster_count * sectors_per_cluster:
 			raise BootRegionException('Invalid cluster heap offset (too large)')
 
 		if cluster_count > 0xFFFFFFF5:
-- 
2.43.0


From 320431cbfab68dd25c72f1005feb0947037d5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:47 +0000
Subject: [PATCH 26/49] fix: exFAT: do not abort the walk on a directory with
 an invalid size

---
 dfir_ntfs/addons/exFAT.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 5a587ab..faf6437 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1259,6 +1259,8 @@ class FileSystemParser(object):
 						except (FileSystemException, ValueError):
 							continue
 
+						new_buf = new_buf[ : len(new_buf) - len(new_buf) % 512] # The size in a directory entry can be invalid, use full sectors only.
+
 						if len(new_buf) == 0: # This directory is really empty, skip it.
 							continue
 
@@ -1291,6 +1293,8 @@ class FileSystemParser(object):
 				except (FileSystemException, ValueError):
 					continue
 
+				buf = buf[ : len(buf) - len(buf) % 512] # The size in a directory entry can be invalid, use full sectors only.
+
 				if len(buf) < 512 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
-- 
2.43.0


From bda3dcb968898b59db05f7542494e0a247abd448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:47 +0000
Subject: [PATCH 27/49] fix: exFAT: do not compare an invalid timestamp of a
 reallocated directory

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index faf6437..ac0104e 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1247,7 +1247,7 @@ class FileSystemParser(object):
 								reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 							else:
 								ts = reallocated_directories_metadata[dir_entry.first_cluster][0]
-								if dir_entry.mtime > ts:
+								if dir_entry.mtime is not None and (ts is None or dir_entry.mtime > ts):
 									reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 
 							continue
-- 
2.43.0


From a4bafe6da70553a8dbe3285aea40cc205b666bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:47 +0000
Subject: [PATCH 28/49] fix: exFAT: do not abort the walk when the allocation
 bitmap is truncated

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index ac0104e..78fd397 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1041,6 +1041,9 @@ class Bitmap(object):
 		byte_pos = cluster // 8
 		bit_pos = cluster % 8
 
+		if byte_pos >= len(self.bitmap_buf): # The bitmap is truncated (corrupted), the cluster is not known to be allocated.
+			return False
+
 		is_allocated = (self.bitmap_buf[byte_pos] >> bit_pos) & 1 > 0
 		return is_allocated
 
-- 
2.43.0


From e1375696619d67c6687c3375be2d22286c8ccd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:22 +0000
Subject: [PATCH 29/49] fix: GPT: do not read a partition entry array that does
 not fit into the volume

---
 dfir_ntfs/PartitionTable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/PartitionTable.py b/dfir_ntfs/PartitionTable.py
index d0c8ab9..f2a439e 100644
--- a/dfir_ntfs/PartitionTable.py
+++ b/dfir_ntfs/PartitionTable.py
@@ -131,6 +131,9 @@ class GPT(object):
 		if size_of_partition_entry < 128 or size_of_partition_entry % 128 != 0:
 			raise ValueError('Invalid partition entry size: {}'.format(size_of_partition_entry))
 
+		if partition_entry_lba * self.sector_size + number_of_partition_entries * size_of_partition_entry > self.volume_size:
+			raise ValueError('Invalid partition entry array size: {} * {}'.format(number_of_partition_entries, size_of_partition_entry))
+
 		disk_guid = uuid.UUID(bytes_le = disk_guid_raw)
 
 		# Read and validate the partition entry array (but do not use it).
-- 
2.43.0


From 43987a83b82eceb3e2432f75e9fd79b3a21d0d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:04 +0000
Subject: [PATCH 30/49] fix: MBR: an extended partition with an invalid start
 must not hide others

---
 dfir_ntfs/PartitionTable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/PartitionTable.py b/dfir_ntfs/PartitionTable.py
index f2a439e..65f93c9 100644
--- a/dfir_ntfs/PartitionTable.py
+++ b/dfir_ntfs/PartitionTable.py
@@ -329,7 +329,7 @@ class MBR(object):
 			next_ebr_lba_relative = 0
 
 			if first_ebr_lba == 0:
-				return []
+				continue
 
 			while True:
 				curr_ebr_lba = first_ebr_lba + next_ebr_lba_relative
-- 
2.43.0


From c3e7f15817895147d02a1e00c5a4bb932fec4c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:20 +0000
Subject: [PATCH 31/49] fix: find index buffers when the first one is damaged

---
 dfir_ntfs/Attributes.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 63c9c04..e215da0 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -890,18 +890,25 @@ class IndexAllocation(GenericAttributeNonresident):
 
 		if len(usa_offset_and_size_raw) == 4:
 			usa_offset, usa_size = struct.unpack('<HH', usa_offset_and_size_raw)
-			if usa_size - 1 >= 2:
-				index_buffer_size = (usa_size - 1) * UPDATE_SEQUENCE_STRIDE_INDEX
-
-				if index_buffer_size > 0 and index_buffer_size % 512 == 0 and index_buffer_size <= 119808: # (512-40-2-2)/2*512=119808.
-					self.fragmented_file.seek(0)
-					index_buf = bytearray(self.fragmented_file.read(index_buffer_size))
-
-					if len(index_buf) != index_buffer_size or VerifyAndUnprotectIndexSectors(index_buf) is None:
-						# Something is wrong with the first index buffer.
-						self.index_buffer_size = None
-					else:
-						self.index_buffer_size = index_buffer_size
+			for index_buffer_size in [ (usa_size - 1) * UPDATE_SEQUENCE_STRIDE_INDEX, 4096 ]: # If something is wrong with the first index buffer, also try the default size.
+				if index_buffer_size >= 2 * UPDATE_SEQUENCE_STRIDE_INDEX and index_buffer_size <= 119808 and self.check_index_buffer_size(index_buffer_size): # (512-40-2-2)/2*512=119808.
+					self.index_buffer_size = index_buffer_size
+					break
+
+	def check_index_buffer_size(self, index_buffer_size):
+		"""Check if there is a valid index buffer of a given size. If something is wrong with the first index buffer, try the next ones (up to 64)."""
+
+		for i in range(64):
+			self.fragmented_file.seek(i * index_buffer_size)
+			index_buf = bytearray(self.fragmented_file.read(index_buffer_size))
+
+			if len(index_buf) != index_buffer_size:
+				break
+
+			if VerifyAndUnprotectIndexSectors(index_buf) is not None:
+				return True
+
+		return False
 
 	def index_buffers(self):
 		"""This method yields each index buffer (IndexBuffer)."""
-- 
2.43.0


From 02c2074fbc6833d7a198a63017d650c7751f4895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:36 +0000
Subject: [PATCH 32/49] fix: stop at an index entry that does not fit into its
 index

---
 dfir_ntfs/Attributes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index e215da0..e92dd61 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -763,11 +763,17 @@ class IndexRoot(GenericAttribute):
 			index_entry_raw = self.value[index_entry_pos : ]
 			index_entry = IndexEntry(index_entry_raw)
 
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry_length = index_entry.get_length()
 
 			if index_entry_length < 16 or index_entry.get_attribute_length() == 0: # This index entry is invalid.
 				break
 
+			if index_entry_length > len(index_entry_raw) or 16 + index_entry.get_attribute_length() > index_entry_length: # This index entry is invalid.
+				break
+
 			yield index_entry
 
 			if index_entry_length % 8 != 0:
@@ -852,11 +858,17 @@ class IndexBuffer(object):
 			index_entry_raw = self.index_buffer_raw[index_entry_pos : ]
 			index_entry = IndexEntry(index_entry_raw)
 
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry_length = index_entry.get_length()
 
 			if index_entry_length < 16 or index_entry.get_attribute_length() == 0: # This index entry is invalid.
 				break
 
+			if index_entry_length > len(index_entry_raw) or 16 + index_entry.get_attribute_length() > index_entry_length: # This index entry is invalid.
+				break
+
 			yield index_entry
 
 			if index_entry.get_flags() & INDEX_ENTRY_END > 0:
-- 
2.43.0


From 6a851d19a1a28964977665962e3d0f4807e6e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:48 +0000
Subject: [PATCH 33/49] fix: ntfs_parser --indx: resolve the parent an index
 entry refers to

---
 ntfs_parser | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 4e605ff..3672591 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -766,7 +766,8 @@ def process_indx():
 						if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 							# This index entry points to a different parent for some reason.
 							try:
-								real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+								real_parent_mft_number, real_parent_sequence_number = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
+								real_parent_file_record = mft.get_file_record_by_number(real_parent_mft_number, real_parent_sequence_number)
 								parent_file_paths = mft.build_full_paths(real_parent_file_record)
 							except MFT.MasterFileTableException:
 								parent_file_path = None
@@ -815,7 +816,8 @@ def process_indx():
 					if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 						# This index entry points to a different parent for some reason.
 						try:
-							real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+							real_parent_mft_number, real_parent_sequence_number = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
+							real_parent_file_record = mft.get_file_record_by_number(real_parent_mft_number, real_parent_sequence_number)
 							parent_file_paths = mft.build_full_paths(real_parent_file_record)
 						except MFT.MasterFileTableException:
 							parent_file_path = None
-- 
2.43.0


From e1c8faf0128e0d62f0af0859c5caad0369e8de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:17 +0000
Subject: [PATCH 34/49] fix: WSL timestamps out of range must not abort the
 processing of other files

---
 dfir_ntfs/WSL.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/WSL.py b/dfir_ntfs/WSL.py
index c88fd03..abbacbe 100644
--- a/dfir_ntfs/WSL.py
+++ b/dfir_ntfs/WSL.py
@@ -7,9 +7,12 @@ import struct
 import datetime
 
 def DecodeUnixtime(TimestampSeconds, TimestampNanoseconds):
-	"""Decode the Unixtime timestamp and return the datetime object."""
+	"""Decode the Unixtime timestamp and return the datetime object (None, if the timestamp is out of range)."""
 
-	return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	try:
+		return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	except OverflowError:
+		return
 
 class LXXATTR(object):
 	"""This class is used to access Linux extended attributes stored in the LXXATTR extended attribute."""
-- 
2.43.0


From bcf37708ac45ce39967df47a6cca84aa98c0f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:38 +0000
Subject: [PATCH 35/49] fix: a negative file record number is invalid, it is
 not a read error

---
 dfir_ntfs/MFT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5956b65..0d2f625 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1011,6 +1011,9 @@ class MasterFileTableParser(object):
 		"""
 
 		base_file_record_segment_offset = base_file_record_segment_number * self.file_record_segment_size
+		if base_file_record_segment_offset < 0:
+			raise MasterFileTableException('Invalid offset (negative): {}'.format(base_file_record_segment_offset))
+
 		if base_file_record_segment_offset > self.file_size:
 			raise MasterFileTableException('Invalid offset (too large): {}'.format(base_file_record_segment_offset))
 
-- 
2.43.0


From 1c4a35d483c4a0b204d019f5574005fd857edb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:02 +0000
Subject: [PATCH 36/49] fix: ntfs_parser --log: do not fail on a value too
 short to be decoded

---
 ntfs_parser | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 3672591..ba45592 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -458,7 +458,7 @@ def process_log():
 							continue
 
 						frs_attr_val = frs_attr.value_decoded()
-						if type(frs_attr_val) is Attributes.StandardInformation:
+						if type(frs_attr_val) is Attributes.StandardInformation and len(frs_attr_val.value) >= 36:
 							output_lines.append('$STANDARD_INFORMATION:')
 							output_lines.append(' * M timestamp: {}'.format(format_timestamp(frs_attr_val.get_mtime())))
 							output_lines.append(' * A timestamp: {}'.format(format_timestamp(frs_attr_val.get_atime())))
@@ -467,7 +467,7 @@ def process_log():
 							output_lines.append(' * File attributes: {}'.format(Attributes.ResolveFileAttributes(frs_attr_val.get_file_attributes())))
 							output_lines.append('')
 
-						elif type(frs_attr_val) is Attributes.FileName:
+						elif type(frs_attr_val) is Attributes.FileName and len(frs_attr_val.value) >= 66:
 							output_lines.append('$FILE_NAME:')
 							output_lines.append(' * M timestamp: {}'.format(format_timestamp(frs_attr_val.get_mtime())))
 							output_lines.append(' * A timestamp: {}'.format(format_timestamp(frs_attr_val.get_atime())))
@@ -523,7 +523,7 @@ def process_log():
 				if value_offset > 0 and value_offset % 8 == 0 and value_length > 0:
 					attr_value_buf = attr_buf[value_offset : value_offset + value_length]
 					if len(attr_value_buf) == value_length:
-						if type_code == Attributes.ATTR_TYPE_STANDARD_INFORMATION:
+						if type_code == Attributes.ATTR_TYPE_STANDARD_INFORMATION and len(attr_value_buf) >= 36:
 							attr_si = Attributes.StandardInformation(attr_value_buf)
 
 							output_lines.append('$STANDARD_INFORMATION:')
@@ -534,7 +534,7 @@ def process_log():
 							output_lines.append(' * File attributes: {}'.format(Attributes.ResolveFileAttributes(attr_si.get_file_attributes())))
 							output_lines.append('')
 
-						elif type_code == Attributes.ATTR_TYPE_FILE_NAME:
+						elif type_code == Attributes.ATTR_TYPE_FILE_NAME and len(attr_value_buf) >= 66:
 							attr_fn = Attributes.FileName(attr_value_buf)
 
 							output_lines.append('$FILE_NAME:')
@@ -608,11 +608,14 @@ def process_log():
 
 		if redo_op == LogFile.AddIndexEntryRoot or redo_op == LogFile.AddIndexEntryAllocation or redo_op == LogFile.WriteEndOfIndexBuffer or undo_op == LogFile.AddIndexEntryRoot or undo_op == LogFile.AddIndexEntryAllocation or undo_op == LogFile.WriteEndOfIndexBuffer:
 			if redo_op == LogFile.AddIndexEntryRoot or redo_op == LogFile.AddIndexEntryAllocation or redo_op == LogFile.WriteEndOfIndexBuffer:
-				index_entry = Attributes.IndexEntry(redo_data)
+				index_entry_buf = redo_data
 			else:
-				index_entry = Attributes.IndexEntry(undo_data)
+				index_entry_buf = undo_data
+
+			attr_value_buf = None
+			if len(index_entry_buf) >= 16:
+				attr_value_buf = Attributes.IndexEntry(index_entry_buf).get_attribute()
 
-			attr_value_buf = index_entry.get_attribute()
 			if attr_value_buf is not None and len(attr_value_buf) > 66:
 				attr_fn = Attributes.FileName(attr_value_buf)
 
-- 
2.43.0


From 148604559ebabb41225bb48e62de0a1a63688292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:20 +0000
Subject: [PATCH 37/49] fix: ntfs_parser --log: do not fail on a log record
 with an invalid offset

---
 ntfs_parser | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index ba45592..e77e6a7 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -354,13 +354,18 @@ def process_log():
 		target_attribute_name = None
 		redo_op = log_record.get_redo_operation()
 		undo_op = log_record.get_undo_operation()
-		redo_data = log_record.get_redo_data()
-		undo_data = log_record.get_undo_data()
 
 		output_lines.append('LSN: {}'.format(log_record.lsn))
 		output_lines.append('Transaction ID: {}'.format(log_record.transaction_id))
 		output_lines.append('Log record, redo operation: {}, undo operation: {}'.format(LogFile.ResolveNTFSOperation(redo_op), LogFile.ResolveNTFSOperation(undo_op)))
 
+		try:
+			redo_data = log_record.get_redo_data()
+			undo_data = log_record.get_undo_data()
+		except LogFile.ClientException:
+			output_lines.append('Warning: invalid log record')
+			return '\n'.join(output_lines)
+
 		target = log_record.calculate_mft_target_number()
 		if target is not None:
 			output_lines.append('Target (file number): {}'.format(target))
-- 
2.43.0


From 57ae2f9a31789102f6f5d028640f433e8fd195a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:23 +0000
Subject: [PATCH 38/49] fix: a corrupt record of an opened attribute must not
 end the parsing of the log file

---
 dfir_ntfs/LogFile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 33dcda2..6d62553 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1395,12 +1395,12 @@ class LogFileParser(object):
 					if type(client_data_decoded) is NTFSLogRecord:
 						redo_op = client_data_decoded.get_redo_operation()
 						if redo_op == OpenNonresidentAttribute:
-							attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
-
 							oat_index = client_data_decoded.get_target_attribute()
-							oat_entry_data = client_data_decoded.get_redo_data()
 
 							try:
+								attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
+								oat_entry_data = client_data_decoded.get_redo_data()
+
 								if self.oat_version >= 1:
 									oat_entry = OpenAttributeEntry1(oat_entry_data)
 								else:
-- 
2.43.0


From 241b2d2f63fd739baa1c0eaacdcec2e8c8af57e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:46 +0000
Subject: [PATCH 39/49] fix: a corrupt dump of a table must not end the parsing
 of the log file

---
 dfir_ntfs/LogFile.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 6d62553..6cda36a 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1412,11 +1412,19 @@ class LogFileParser(object):
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
 							old_oat_dump = latest_oat_dump
-							latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							try:
+								latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							except ClientException:
+								latest_oat_dump = None
+
 							oat_dump_count += 1
 						elif self.use_dumps and redo_op == AttributeNamesDump:
 							old_an_dump = latest_an_dump
-							latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							try:
+								latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							except ClientException:
+								latest_an_dump = None
+
 							an_dump_count += 1
 
 						client_data_decoded.oat = oat.copy()
-- 
2.43.0


From 4d1e6c311d03701f2c18e36715aecf8434dc3004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:27 +0000
Subject: [PATCH 40/49] fix: ntfs_parser: do not fail on a USN record with an
 invalid file name

---
 ntfs_parser | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index e77e6a7..02d7642 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -308,7 +308,10 @@ def process_usn():
 
 		if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 			r_timestamp = format_timestamp(usn_record.get_timestamp())
-			fr_file_name = usn_record.get_file_name()
+			try:
+				fr_file_name = usn_record.get_file_name()
+			except ValueError: # Truncated.
+				fr_file_name = ''
 		else:
 			r_timestamp = ''
 			fr_file_name = ''
@@ -707,7 +710,10 @@ def process_log():
 
 						if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 							output_lines.append(' Timestamp: {}'.format(format_timestamp(usn_record.get_timestamp())))
-							output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+							try:
+								output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+							except ValueError: # Truncated.
+								pass
 
 						output_lines.append('')
 
-- 
2.43.0


From ad000db657743a5f0ed20ba1598ade67ca5e8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:08 +0000
Subject: [PATCH 41/49] fix: carving file control blocks again must give the
 same result

---
 dfir_ntfs/MFT.py | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 0d2f625..9701ad9 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1757,35 +1757,39 @@ class MetadataCarver(object):
 				file_pos += 4096
 
 
-		pos_dict_dup = {}
-		pos_dict_a = {}
-		c = 0
+		if self.guessed_pos_duplicated_information is None or self.guessed_pos_atime_real is None: # The offsets are not known yet.
+			pos_dict_dup = {}
+			pos_dict_a = {}
+			c = 0
 
-		for fcb_timestamps in carve_fcb_timestamps_internal():
-			__, pos_dup, pos_a = fcb_timestamps.positions
+			for fcb_timestamps in carve_fcb_timestamps_internal():
+				__, pos_dup, pos_a = fcb_timestamps.positions
 
-			if pos_dup in pos_dict_dup.keys():
-				pos_dict_dup[pos_dup] += 1
-			else:
-				pos_dict_dup[pos_dup] = 1
+				if pos_dup in pos_dict_dup.keys():
+					pos_dict_dup[pos_dup] += 1
+				else:
+					pos_dict_dup[pos_dup] = 1
 
-			if pos_a in pos_dict_a.keys():
-				pos_dict_a[pos_a] += 1
-			else:
-				pos_dict_a[pos_a] = 1
+				if pos_a in pos_dict_a.keys():
+					pos_dict_a[pos_a] += 1
+				else:
+					pos_dict_a[pos_a] = 1
 
-			c += 1
-			if c >= 100: # Got enough candidate file control blocks.
-				break
+				c += 1
+				if c >= 100: # Got enough candidate file control blocks.
+					break
+
+			if c < 25:
+				raise ValueError('Not enough candidate file control blocks collected from input data to guess the offsets of their fields')
 
-		if c < 25:
-			raise ValueError('Not enough candidate file control blocks collected from input data to guess the offsets of their fields')
+			guessed_pos_duplicated_information = max(pos_dict_dup, key = pos_dict_dup.get)
+			guessed_pos_atime_real = max(pos_dict_a, key = pos_dict_a.get)
 
-		self.guessed_pos_duplicated_information = max(pos_dict_dup, key = pos_dict_dup.get)
-		self.guessed_pos_atime_real = max(pos_dict_a, key = pos_dict_a.get)
+			if pos_dict_dup[guessed_pos_duplicated_information] < 20 or pos_dict_a[guessed_pos_atime_real] < 20:
+				raise ValueError('Cannot guess the offsets in the file control block structure (inconclusive data)')
 
-		if pos_dict_dup[self.guessed_pos_duplicated_information] < 20 or pos_dict_a[self.guessed_pos_atime_real] < 20:
-			raise ValueError('Cannot guess the offsets in the file control block structure (inconclusive data)')
+			self.guessed_pos_duplicated_information = guessed_pos_duplicated_information
+			self.guessed_pos_atime_real = guessed_pos_atime_real
 
 		for fcb_timestamps in carve_fcb_timestamps_internal():
 			yield fcb_timestamps
-- 
2.43.0


From eca8f75dcee0ff04c946fa84c16e67ec9a3c8c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:29 +0000
Subject: [PATCH 42/49] fix: get_reparse_guid failed for every third-party
 reparse point in a file record

---
 dfir_ntfs/Attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index e92dd61..80ca435 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -997,7 +997,7 @@ class ReparsePoint(GenericAttribute):
 		"""Get and return the reparse GUID. Third-party reparse points only!"""
 
 		if not self.is_reparse_tag_microsoft():
-			data = self.value[8 : 24]
+			data = bytes(self.value[8 : 24])
 			return uuid.UUID(bytes_le = data)
 
 	def get_reparse_buffer(self):
-- 
2.43.0


From bf91815537b01c1e8af06b01fdbb5bf3dc6cb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 43/49] fix: a truncated last log page was completed with null
 bytes when a tail or fast page was applied

---
 dfir_ntfs/LogFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 6cda36a..2c968d0 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1184,6 +1184,7 @@ class LogFileParser(object):
 
 		new_file_object = io.BytesIO()
 		shutil.copyfileobj(self.file_object, new_file_object)
+		new_file_object.truncate(new_file_object.tell() // self.log_page_size * self.log_page_size) # Do not allow subsequent writes to complete a truncated page with null bytes.
 
 		self.old_file_object = self.file_object
 		self.file_object = new_file_object
-- 
2.43.0


From 82dd215d848db680c18036b58bd109467b2357d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 44/49] fix: a FAT boot sector without a number of sectors or
 table size made the parser fail (TypeError) instead of being refused

---
 dfir_ntfs/addons/FAT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index a244059..90b9ad3 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -131,6 +131,8 @@ def GetCountOfClusters(BSBPB):
 		totsec = BSBPB.get_bpb_totsec32()
 		if totsec == 0:
 			totsec = BSBPB.get_bs_totsec64()
+			if not totsec:
+				raise BootSectorException('Invalid number of sectors')
 
 	if BSBPB.get_bpb_fatsz16() > 0:
 		RootDirSectors = (BSBPB.get_bpb_rootentcnt() * 32 + BSBPB.get_bpb_bytspersec() - 1) // BSBPB.get_bpb_bytspersec()
@@ -139,7 +141,11 @@ def GetCountOfClusters(BSBPB):
 
 		return CountofClusters
 
-	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * BSBPB.get_bpb_fatsz32())
+	fatsz32 = BSBPB.get_bpb_fatsz32()
+	if fatsz32 is None:
+		raise BootSectorException('Invalid number of FAT sectors')
+
+	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * fatsz32)
 	CountofClusters = DataSec // BSBPB.get_bpb_secperclus()
 
 	return CountofClusters
-- 
2.43.0


From e39a83fb8c3e4ae9c0d30c71d000cc19318a342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 45/49] fix: the signature of an extended exFAT boot sector is
 at the end of the sector

---
 dfir_ntfs/addons/exFAT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 78fd397..0896ab6 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -462,8 +462,8 @@ class BR(object):
 		if sector_number < 1 or sector_number > 8:
 			raise ValueError('Invalid extended boot sector number ({})'.format(sector_number))
 
-		offset = self.get_bytespersector() * sector_number
-		return self.br_buf[offset + 508 : offset + 512]
+		offset = self.get_bytespersector() * (sector_number + 1)
+		return self.br_buf[offset - 4 : offset]
 
 	def get_oem_guid(self):
 		"""Get, decode and return the GUID defined in the OEM parameters sector (as an UUID object)."""
-- 
2.43.0


From 253f5bbaf3a84139619120091d28481a4497f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 46/49] fix: a truncated exFAT boot region made the parser fail
 (struct.error) instead of being refused

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 0896ab6..d0d1b19 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -535,6 +535,9 @@ class BR(object):
 		if self.get_mustbezero() != b'\x00' * 53:
 			raise BootRegionException('Invalid (non-zero) null area')
 
+		if len(self.br_buf) < 12 * self.get_bytespersector():
+			raise BootRegionException('Invalid boot region size')
+
 		if self.get_checksum() != self.calculate_checksum():
 			raise BootRegionChecksumException('Invalid boot region checksum')
 
-- 
2.43.0


From 00b341e79faa789d2d094fb8713875128fcee4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 47/49] fix: pair a dump of attribute names with the dump of
 open attributes before it

---
 dfir_ntfs/LogFile.py | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 2c968d0..0de6d73 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1377,12 +1377,9 @@ class LogFileParser(object):
 
 		for client_id in self.lsns_sorted.keys():
 			latest_oat_dump = None
-			old_oat_dump = None
 			latest_an_dump = None
-			old_an_dump = None
 
-			oat_dump_count = 0
-			an_dump_count = 0
+			new_oat_dump = None # This dump is not used until the attribute names dump is found.
 
 			oat = dict()
 
@@ -1412,33 +1409,22 @@ class LogFileParser(object):
 							else:
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
-							old_oat_dump = latest_oat_dump
 							try:
-								latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+								new_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
 							except ClientException:
-								latest_oat_dump = None
-
-							oat_dump_count += 1
+								new_oat_dump = None
 						elif self.use_dumps and redo_op == AttributeNamesDump:
-							old_an_dump = latest_an_dump
+							latest_oat_dump = new_oat_dump
+							new_oat_dump = None
 							try:
 								latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
 							except ClientException:
 								latest_an_dump = None
 
-							an_dump_count += 1
-
 						client_data_decoded.oat = oat.copy()
 
-						if self.use_dumps and oat_dump_count > 0 and oat_dump_count == an_dump_count:
-							client_data_decoded.oat_dump = latest_oat_dump
-							client_data_decoded.an_dump = latest_an_dump
-						elif self.use_dumps and oat_dump_count > 0 and oat_dump_count != an_dump_count:
-							client_data_decoded.oat_dump = old_oat_dump
-							client_data_decoded.an_dump = old_an_dump
-						else:
-							client_data_decoded.oat_dump = None
-							client_data_decoded.an_dump = None
+						client_data_decoded.oat_dump = latest_oat_dump
+						client_data_decoded.an_dump = latest_an_dump
 
 					yield client_data_decoded
 
-- 
2.43.0


From ecfeb856242c6c9bed84831039ce46a0add7f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 48/49] fix: a log file with slack space at the end lost the
 records after the wrap

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 0de6d73..9d3ee1e 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -710,7 +710,7 @@ class LogFileParser(object):
 
 		self.log_page_data_offset = restart_area.get_log_page_data_offset()
 
-		self.log_file_size = max(self.file_size, restart_area.get_file_size()) # This is larger than the size of a file object if the latter is truncated.
+		self.log_file_size = restart_area.get_file_size() # The size of a file object is smaller (if the latter is truncated) or larger (if there is slack space at the end).
 
 		self.sequence_number_bits = restart_area.get_sequence_number_bits()
 		if self.sequence_number_bits >= 64 or self.sequence_number_bits < 3:
-- 
2.43.0


From 4f19f46414c3489c1d1732b7fba9f358d6c9991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:30 +0000
Subject: [PATCH 49/49] fix: a log sector of 4096 bytes cut after 512 bytes was
 parsed as a whole log sector

---
 dfir_ntfs/MoveTable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfir_ntfs/MoveTable.py b/dfir_ntfs/MoveTable.py
index 077295a..b7c2cd8 100644
--- a/dfir_ntfs/MoveTable.py
+++ b/dfir_ntfs/MoveTable.py
@@ -354,6 +354,8 @@ class MoveTableParser(object):
 		while True:
 			self.file_object.seek(i * self.sector_size)
 			sector_raw = self.file_object.read(self.sector_size)
+			if len(sector_raw) != self.sector_size: # We read truncated data, stop now.
+				break
 
 			try:
 				yield LogSector(sector_raw)
-- 
2.43.0

