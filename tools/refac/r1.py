# Behaviour-preserving edits: (file, old, new)
MFT='dfir_ntfs/MFT.py'; ATT='dfir_ntfs/Attributes.py'
EDITS=[
# mapping pairs: helper, for-style, walrus, unsigned+manual sign
(MFT,'''	data_runs = []

	i = 0
	curr_offset = 0
	while True:
		if i >= len(MappingPairs):
			raise MappingPairsException('Invalid mapping pairs: buffer overrun')

		header_byte = MappingPairs[i]
		if header_byte == 0:
			break

		i += 1

		count_length = header_byte & 15
		offset_length = header_byte >> 4
''','''	def take(position, size):
		chunk = MappingPairs[position : position + size]
		if len(chunk) < size:
			raise MappingPairsException('Invalid mapping pair: truncated buffer')
		return int.from_bytes(chunk, 'little', signed = True), position + size

	data_runs = []

	i = 0
	curr_offset = 0
	for _ in itertools.count():
		if i >= len(MappingPairs):
			raise MappingPairsException('Invalid mapping pairs: buffer overrun')

		if not (header_byte := MappingPairs[i]):
			return data_runs

		i += 1

		offset_length, count_length = divmod(header_byte, 16)
'''),
(MFT,'''		count = MappingPairs[i : i + count_length]
		if len(count) != count_length:
			raise MappingPairsException('Invalid mapping pair: truncated buffer')

		i += count_length
		count = int.from_bytes(count, byteorder = 'little', signed = True)

		if count <= 0:
			# Invalid value.
			raise MappingPairsException('Invalid mapping pair: invalid value')

		if offset_length > 0:
			offset = MappingPairs[i : i + offset_length]
			if len(offset) != offset_length:
				raise MappingPairsException('Invalid mapping pair: truncated buffer')

			i += offset_length
			offset = int.from_bytes(offset, byteorder = 'little', signed = True)
		else:
			# This is a sparse block.
			offset = None

		if offset is None:
			data_runs.append((None, count))
		else:
			curr_offset += offset
''','''		count, i = take(i, count_length)

		if not count > 0:
			# Invalid value.
			raise MappingPairsException('Invalid mapping pair: invalid value')

		if not offset_length:
			# This is a sparse block.
			data_runs += [(None, count)]
			continue

		offset, i = take(i, offset_length)
		if True:
			curr_offset += offset
'''),
(MFT,'import struct\n','import struct\nimport itertools\n'),
# USA: for loop, slice assignment, any()
(MFT,'''		i = 1 # Skip the first element (sequence_number_in_usa_bytes).
		usa_elements_applied = 0
		while i < self.usa_size:
			offset_in_usa = i * 2
			update_bytes = self.frs_data[self.usa_offset + offset_in_usa : self.usa_offset + offset_in_usa + 2]
''','''		usa_elements_applied = 0
		for i in range(1, self.usa_size): # Skip the first element (sequence_number_in_usa_bytes).
			position = self.usa_offset + 2 * i
			update_bytes = self.frs_data[position : position + 2]
'''),
(MFT,'''			self.frs_data[offset_in_frs] = update_bytes[0]
			self.frs_data[offset_in_frs + 1] = update_bytes[1]

			i += 1
			usa_elements_applied += 1
''','''			self.frs_data[offset_in_frs : offset_in_frs + 2] = update_bytes
			usa_elements_applied += 1
'''),
(MFT,'''			if usa_offset < 42 or usa_offset > UPDATE_SEQUENCE_STRIDE - 6:''','''			if not (42 <= usa_offset <= UPDATE_SEQUENCE_STRIDE - 6):'''),
(MFT,'''		if first_attribute_offset < 8 or first_attribute_offset % 8 != 0 or first_attribute_offset > file_record_segment_size - 24 or first_attribute_offset < self.usa_offset + self.usa_size * 2:''',
'''		invalid = any((
			first_attribute_offset < 8,
			first_attribute_offset & 7,
			first_attribute_offset + 24 > file_record_segment_size,
			first_attribute_offset < self.usa_offset + (self.usa_size << 1),
		))
		if invalid:'''),
(MFT,'''		return struct.unpack('<H', self.frs_data[16 : 18])[0]''','''		(sequence_number,) = struct.unpack_from('<H', self.frs_data, 16)
		return sequence_number'''),
(MFT,'''		return struct.unpack('<Q', self.frs_data[8 : 16])[0]

	def get_sequence_number''','''		return int.from_bytes(self.frs_data[8 : 16], byteorder = 'little')

	def get_sequence_number'''),
# Attributes
(ATT,'''	str_list = []
	for file_attr in sorted(FILE_ATTR_LIST.keys()):
		if FileAttributes & file_attr > 0:
			str_list.append(FILE_ATTR_LIST[file_attr])

	return ' | '.join(str_list)''','''	return ' | '.join(name for attr, name in sorted(FILE_ATTR_LIST.items()) if FileAttributes & attr)'''),
(ATT,'''		return datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds = Timestamp / 10)
	except''','''		delta = datetime.timedelta(microseconds = Timestamp / 10)
		base = datetime.datetime(1601, 1, 1)
		return base + delta
	except'''),
(ATT,'''	i = 1 # Skip the first element (sequence_number_in_usa_bytes).
	while i < usa_size:
		offset_in_usa = i * 2
		update_bytes = Buffer[usa_offset + offset_in_usa : usa_offset + offset_in_usa + 2]

		offset_in_buf = i * UPDATE_SEQUENCE_STRIDE_INDEX - 2
		sequence_number_in_sector_bytes = Buffer[offset_in_buf : offset_in_buf + 2]

		if sequence_number_in_usa_bytes != sequence_number_in_sector_bytes:
			return

		Buffer[offset_in_buf] = update_bytes[0]
		Buffer[offset_in_buf + 1] = update_bytes[1]

		i += 1

	end_of_usa_offset = usa_offset + usa_size * 2

	signature = Buffer[ : 4]
	if signature != MULTI_SECTOR_HEADER_SIGNATURE_INDEX:
		return
''','''	if not Buffer.startswith(MULTI_SECTOR_HEADER_SIGNATURE_INDEX):
		return

	for offset_in_buf in range(UPDATE_SEQUENCE_STRIDE_INDEX - 2, len(Buffer), UPDATE_SEQUENCE_STRIDE_INDEX):
		if Buffer[offset_in_buf : offset_in_buf + 2] != sequence_number_in_usa_bytes:
			return

		i = usa_offset + 2 * (offset_in_buf // UPDATE_SEQUENCE_STRIDE_INDEX) + 2
		Buffer[offset_in_buf], Buffer[offset_in_buf + 1] = Buffer[i], Buffer[i + 1]
'''),
(ATT,'''		timestamp_int = struct.unpack('<Q', self.value[8 : 16])[0]
		return DecodeFiletime(timestamp_int)

	def get_etime(self):
		"""Get, decode and return the E ($MFT entry modified) timestamp."""

		timestamp_int = struct.unpack('<Q', self.value[16 : 24])[0]
		return DecodeFiletime(timestamp_int)

	def get_atime(self):
		"""Get, decode and return the A (file last accessed) timestamp."""

		timestamp_int = struct.unpack('<Q', self.value[24 : 32])[0]
		return DecodeFiletime(timestamp_int)

	def get_file_attributes''','''		return self._filetime(1)

	def _filetime(self, index):
		return DecodeFiletime(struct.unpack('<Q', self.value[index * 8 : index * 8 + 8])[0])

	def get_etime(self):
		"""Get, decode and return the E ($MFT entry modified) timestamp."""

		return self._filetime(2)

	def get_atime(self):
		"""Get, decode and return the A (file last accessed) timestamp."""

		return self._filetime(3)

	def get_file_attributes'''),
]
