def P(prop, needs, breaks, *edits, occ=None):
    return dict(property=prop, needs=needs, what_it_breaks=breaks, edits=list(edits), occ=occ)
M='src/mcu.rs'; B='src/bitstream.rs'; G='src/mcu_prog.rs'; H='src/headers.rs'; D='src/decoder.rs'; O='src/options.rs'
PLANTS={
'c03-rst-dcpred': P('C03','a progressive image whose DC coefficients of Cb or Cr are in a scan of their own, with a restart interval',
  'at a restart only as many DC predictors as the scan has components are reset, counted from Y, so a chroma-only scan keeps the old prediction',
  (M,'self.components.iter_mut().for_each(|x| x.dc_pred = 0);','self.components.iter_mut().take(usize::from(self.num_scans)).for_each(|x| x.dc_pred = 0);')),
'c02-refine-skip': P('C02','a progressive AC refinement scan that starts above coefficient 1 with an EOB run over blocks whose nonzero coefficients have small natural-order index',
  'correction bits of blocks in an EOB run are not read, all later coefficients of the scan are wrong',
  (B,'if &block[1..] != &[0; 63]','if block[usize::from(self.spec_start)..].iter().any(|x| *x != 0)')),
'c04-256-symbols': P('C04','an AC Huffman table that defines all 256 symbols',
  'a legal table with 256 symbols is refused',
  (H,'if symbols_sum > 256','if symbols_sum > 255')),
'c01-refill': P('C01','a 16-bit code followed by a 10-bit value when exactly 25 bits are buffered',
  'the value is read from bits that are not there and the rest of the image is garbled',
  (B,'if self.bits_left <= 32 && self.marker.is_none()','if self.bits_left <= 24 && self.marker.is_none()')),
'c05-sse-clamp': P('C05','a CPU without AVX2 and a pixel whose blue exceeds 255',
  'blue wraps around on the SSE path only',
  ('src/color_convert/sse.rs','reg: clamp_sse(_mm_add_epi16(b2, y)),','reg: _mm_max_epi16(_mm_add_epi16(b2, y), _mm_setzero_si128()),')),
'c05-scalar-dconly': P('C05','a block whose only AC coefficient is the last one, decoded by the portable code',
  'portable IDCT takes the DC-only shortcut and drops the coefficient',
  ('src/idct/scalar.rs','if &vector[1..] == &[0_i16; 63]','if &vector[1..63] == &[0_i16; 62]')),
'c01-avx-zerotest': P('C01','a block whose AC coefficients are all in the last row, on AVX2',
  'AVX2 IDCT takes the DC-only shortcut and drops the coefficients',
  ('src/idct/avx2.rs','zero_test = _mm_or_si128(rw7, zero_test);','zero_test = _mm_or_si128(rw6, zero_test);')),
'c07-eobrun': P('C07','a damaged progressive file whose EOB run exceeds the blocks left',
  'index out of bounds panic',
  (G,'''                    if i >= mcu_height {
                        break;
                    }
''','')),
'c09-scans': P('C09','a progressive file with many refinement scans',
  'refinement scans are not counted against the limit',
  (G,'seen_scans+=1;','seen_scans += usize::from(self.succ_high == 0);')),
'c10-rgba-green': P('C10','RGBA or RGBX output on AVX2',
  'green is rounded differently from RGB output',
  ('src/color_convert/avx.rs','let g4 = _mm256_srai_epi16::<5>(g3);','let g4 = _mm256_srai_epi16::<5>(_mm256_add_epi16(g3, _mm256_set1_epi16(1)));'),occ=2),
'c12-bufreader': P('C12','a header segment crossing an 8 KiB boundary, header reading only',
  'skipping stops at the buffer end, headers are misread',
  (D,'let mut cursor = Cursor::new(buf);','let mut cursor = std::io::BufReader::new(buf);')),
'c13-com': P('C13','a comment segment between progressive scans',
  'COM is not a known marker any more; in headers it is skipped as unknown, between scans decoding fails',
  ('src/marker.rs','            0xFE => Some(COM),\n',''),('src/marker.rs','{APP, COM, DAC,','{APP, DAC,'),('src/marker.rs','    COM,\n','    #[allow(dead_code)]\n    COM,\n')),
'c14-gray': P('C14','strict mode and a baseline grayscale image with vertical sampling factor 2 only',
  'strict mode accepts it',
  (M,'if self.options.get_strict_mode(){','if self.options.get_strict_mode() && self.h_max > 1 {')),
'c15-eof': P('C15','a file that ends inside its entropy coded data',
  'decoding never returns',
  (B,'u64::from(*reader.get_ref().get(pos as usize).unwrap_or(&0))','u64::from(*reader.get_ref().get(pos as usize).unwrap_or(&0xFF))')),
'c16-precision': P('C16','a frame header with a precision below 8',
  'accepted as if it were 8 bit',
  (H,'if dt_precision != 8','if dt_precision > 8')),
'c17-threads': P('C17','more than 255 threads',
  'the thread count is cut to 8 bits',
  (O,'self.num_threads = count.get();','self.num_threads = count.get().min(255);')),
'c18-upsample': P('C18','any horizontally sub-sampled image on SSE',
  'reads two bytes past the end of the row buffer; the result is unchanged',
  ('src/upsampler/sse.rs','for i in 1..(inl >> 2) - 1','for i in 1..inl >> 2')),
'c06-uninit': P('C06','a black block without AC coefficients, on AVX2, in recycled memory',
  'two sites: the IDCT buffer is no longer zeroed, and black blocks are not stored because the buffer "is zero already"; the pixels are what the memory held before',
  ('src/idct/avx2.rs','let mut tmp_vector = vec![0; coeff.len()];','let mut tmp_vector: Vec<i16> = Vec::with_capacity(coeff.len());\n    #[allow(clippy::uninit_vec)]\n    tmp_vector.set_len(coeff.len());'),
  ('src/idct/avx2.rs',"""                    store!(pos, idct_value);
                    store!(pos, idct_value);
                    store!(pos, idct_value);
                    store!(pos, idct_value);

                    store!(pos, idct_value);
                    store!(pos, idct_value);
                    store!(pos, idct_value);
                    store!(pos, idct_value);
""","""                    if _mm_test_all_zeros(idct_value, idct_value) == 0
                    {
                        store!(pos, idct_value);
                        store!(pos, idct_value);
                        store!(pos, idct_value);
                        store!(pos, idct_value);

                        store!(pos, idct_value);
                        store!(pos, idct_value);
                        store!(pos, idct_value);
                        store!(pos, idct_value);
                    }
""")),
'c08-tall': P('C08','an image higher than 65520 rows',
  'the number of MCU rows overflows 16 bits and the picture is cut short',
  (H,'img.mcu_y = (usize::from(img.info.height) + img.mcu_height - 1) / img.mcu_height;','img.mcu_y = usize::from(img.info.height.wrapping_add(img.mcu_height as u16 - 1)) / img.mcu_height;')),
'c11-gray': P('C11','a decoder used for a baseline grayscale image with sampling factors above 1, then for a colour image',
  'the colorspace the user asked for is forgotten, the second image comes out gray',
  (M,'self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);','self.user_colorspace = None;')),
'c02-refine-refill': P('C02','a refinement scan with more correction bits between two codes than were buffered',
  'correction bits past the buffered ones are taken as zero',
  (B,'''                        if self.bits_left < 1
                        {
                            self.refill(reader)?;
                        }
''','')),
'c03-dri-mask': P('C03','a restart interval of 32768 or more in an image with at least as many MCUs',
  'the top bit of the interval is dropped',
  (D,'self.restart_interval = usize::from(read_u16_be(buf)?);','self.restart_interval = usize::from(read_u16_be(buf)? & 0x7FFF);')),
'c09-swapped': P('C09','set_limits with width and height limits that differ',
  'the two limits are exchanged when set on the decoder',
  (D,'self.options = self.options.set_max_width(width).set_max_height(height);','self.options = self.options.set_max_width(height).set_max_height(width);')),
'c09-u8': P('C09','more than 255 scans',
  'the scan counter wraps around, the limit is not enforced',
  (G,'let mut seen_scans = 1;','let mut seen_scans = 1_u8;'),(G,'seen_scans+=1;','seen_scans = seen_scans.wrapping_add(1);'),
  (G,'if seen_scans >  self.options.get_max_scans(){','if usize::from(seen_scans) > self.options.get_max_scans() {')),
'c14-stray': P('C14','strict mode and three to eleven stray bytes between segments',
  'strict mode tolerates them',
  (D,'if self.options.get_strict_mode() && bytes_before_marker > 3','if self.options.get_strict_mode() && bytes_before_marker % 8 > 3 && bytes_before_marker > 7')),
'c17-strict': P('C17','strict mode switched on and off again',
  'strict mode cannot be switched off',
  (O,'self.strict_mode = choice;','self.strict_mode |= choice;')),
'c17-scans': P('C17','a scan limit beyond 65535',
  'the limit is cut to 16 bits',
  (O,'self.max_scans = scans;','self.max_scans = scans & 0xFFFF;')),
'c19-threads': P('C19','decoding damaged baseline files repeatedly',
  'worker threads of a decode that failed are never ended',
  (M,'let  mut scoped_pools = scoped_threadpool::Pool::new(\n            self.options.get_threads().min(rows));','let mut scoped_pools = std::mem::ManuallyDrop::new(scoped_threadpool::Pool::new(\n            self.options.get_threads().min(rows)));'),
  (M,'''            //everything is okay
            Ok(())
        })?;
''','''            //everything is okay
            Ok(())
        })?;
        drop(std::mem::ManuallyDrop::into_inner(scoped_pools));
''')),
'c11-static': P('C11','an image that relies on a quantisation table it does not define, after an image that defines it',
  'quantisation tables of the last image are kept in a static and used when an image lacks one',
  (H,'''        decoder.qt_tables[table_position] = Some(dct_table);
''','''        decoder.qt_tables[table_position] = Some(dct_table);
        if let Ok(mut last) = LAST_QT.lock()
        {
            last[table_position] = Some(dct_table);
        }
'''),
  (H,'''        let qt_table = *img.qt_tables[component.quantization_table_number as usize]
            .as_ref()
            .ok_or_else(|| {''','''        let number = component.quantization_table_number as usize;
        let qt_table = img.qt_tables[number]
            .or_else(|| LAST_QT.lock().ok().and_then(|t| t[number]))
            .ok_or_else(|| {'''),
  (H,'///**B.2.4.1 Quantization table-specification syntax**','static LAST_QT: std::sync::Mutex<[Option<[i32; 64]>; 4]> = std::sync::Mutex::new([None; 4]);\n\n///**B.2.4.1 Quantization table-specification syntax**')),
'c16-oversub': P('C16','a Huffman table over-subscribed at lengths above 8 only',
  'such a table is accepted',
  ('src/huffman.rs','if (code as i32) >= (1 << si)','if (code as i32) >= (1 << si) && si <= 8')),
'c16-actable': P('C16','a baseline file whose Cr component names an AC table which is not defined, while Y names a defined one',
  'the first AC table is used instead',
  (M,'''                .ac_huffman_tables
                .get(self.components[i].ac_huff_table)''','''                .ac_huffman_tables
                .get(self.components[i.min(1)].ac_huff_table)'''),
  (M,'''                            let ac_table = self.ac_huffman_tables[component.ac_huff_table & 3]
                                .as_ref()
''','''                            let ac_table = self.ac_huffman_tables[component.ac_huff_table & 3]
                                .as_ref()
                                .or(self.ac_huffman_tables[0].as_ref())
''')),
'c12-take': P('C12','a file larger than 4 MiB decoded from disk',
  'only the first 4 MiB are read',
  (D,'let buffer = Cursor::new(read(file)?);','let mut bytes = read(file)?;\n        bytes.truncate(1 << 22);\n        let buffer = Cursor::new(bytes);')),
'c13-long': P('C13','an APPn or COM segment of more than 32769 bytes',
  'the length to skip is cut to 15 bits and the rest of the segment is parsed as markers',
  (D,'buf.consume((length - 2) as usize);','buf.consume(usize::from((length - 2) & 0x7FFF));'),occ=2),
'c10-graycmyk': P('C10','a one component image with CMYK output requested',
  'refused',
  (H,'img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);','if img.options.get_out_colorspace() != ColorSpace::CMYK\n        {\n            img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);\n        }')),
'c02-eob14': P('C02','an EOB run of 16384 blocks or more',
  'the run length symbol 14 is taken for 15',
  (B,'                    if r != 15\n                    {\n                        self.eob_run = 1 << r;\n                        self.eob_run += self.get_bits(r as u8);\n                        self.eob_run -= 1;','                    if r < 14\n                    {\n                        self.eob_run = 1 << r;\n                        self.eob_run += self.get_bits(r as u8);\n                        self.eob_run -= 1;')),
'c16-badcode': P('C16','entropy coded data that matches no code of a table with codes of up to 16 bits',
  'taken for a 16 bit code instead of an error',
  (B,'while code_length < 17{','while code_length < 16{')),
'c16-dhtlen': P('C16','a DHT segment whose length field ends inside its last table',
  'the table is read beyond the end of its segment',
  (H,'        if symbols_sum > dht_length\n','        if symbols_sum > dht_length && dht_length == 0\n')),
'c08-info': P('C08','reading headers of a progressive image whose frame header comes before its tables',
  'coding process reported wrongly until an SOS is seen: set only with tables present',
  (H,'    img.info.set_sof_marker(sof);\n','    if img.dc_huffman_tables.iter().any(Option::is_some) || sof == SOFMarkers::BaselineDct\n    {\n        img.info.set_sof_marker(sof);\n    }\n')),
'c05-sse16': P('C05','a CPU without AVX2, RGB output',
  'green rounding differs on SSE in RGB only',
  ('src/color_convert/sse.rs','let g4 = _mm_srai_epi16::<5>(g3);','let g4 = _mm_srai_epi16::<5>(_mm_adds_epi16(g3, _mm_set1_epi16(3)));',),occ=1),
'c12-sosbyte': P('C12','headers of a file that ends directly after its scan header',
  'header reading wants a byte of the scan',
  (D,'''                    if n == Marker::SOS
                    {
                        return Ok(());''','''                    if n == Marker::SOS
                    {
                        // nothing to decode without data
                        return buf.fill_buf()?.first().map(|_| ()).ok_or(DecodeErrors::FormatStatic("No data after start of scan"));''')),
'c19-leak': P('C19','decoding files from disk that turn out to be damaged',
  'the bytes of a file whose decode failed are never freed',
  (D,'''        self.decode_internal(buffer)
''','''        let bytes = buffer.into_inner();
        self.decode_buffer(&bytes).map_err(|error| {
            std::mem::forget(bytes);
            error
        })
''')),
'c09-alloc': P('C09','an image too high but not too wide',
  'the height is checked only when decoding, reading headers accepts it',
  (H,'if img_height > img.options.get_max_height()','if img_height > img.options.get_max_height() && img_width > img.options.get_max_width() / 2')),
'c10-alpha': P('C10','RGBA output in the portable code',
  'alpha is the green value where that is above 255',
  ('src/color_convert/scalar.rs','opt[p + 3] = 255;','opt[p + 3] = if g > 255 { 254 } else { 255 };')),
'c06-rows': P('C06','more worker threads than an image has MCU rows, progressive',
  'two sites: with more threads than rows the last row of blocks is left to nobody',
  (G,'let y_chunk = y.chunks_exact(y_chunk_size);','let surplus = usize::from(self.options.get_threads() as usize > y.len() / y_chunk_size + 8);\n        let y_chunk = y.chunks_exact(y_chunk_size);'),
  (G,'let out_chunks = out_vector.chunks_exact_mut(chunks_size);','let rows = y_chunk.len() - surplus;\n        let out_chunks = out_vector.chunks_exact_mut(chunks_size).take(rows);')),
'c15-eoi': P('C15','bytes after the end of a baseline image that contain markers',
  'what follows the end marker is looked at and tables or scans in it are an error',
  (M,'        // remove excess allocation for images.\n','        get_marker(reader, &mut stream);\n        if matches!(get_marker(reader, &mut stream), Some(Marker::SOI | Marker::SOS | Marker::DHT | Marker::DQT))\n        {\n            return Err(DecodeErrors::FormatStatic("Unexpected data after image"));\n        }\n        // remove excess allocation\n')),
'c16-unknownid': P('C16','a scan header naming a component that is not in the frame, id below the number of components',
  'id 0 is taken for the first component',
  (H,'if image.components[j as usize].id == id\n','if image.components[j as usize].id == id.max(1)\n')),
'c14-lenient': P('C14','strict mode and a progressive grayscale image with sampling factors',
  'strict mode decodes what it should refuse',
  (G,'if self.options.get_strict_mode(){','if self.options.get_strict_mode() && !self.interleaved {')),

'c18-align': P('C18','a CPU without AVX2 and an allocator that returns memory aligned to no more than the element type',
  'SSE colour conversion uses an aligned load on a Vec<i16>',
  ('src/color_convert/sse.rs','let cb = _mm_loadu_si128(cb.as_ptr().cast());','let cb = _mm_load_si128(cb.as_ptr().cast());'),occ=1),
'c01-rowjoin': P('C01','an image with 2x1 sampling more than 16384 pixels wide',
  'rows are upsampled in pairs, the last column of one and the first of the next are blended',
  ('src/worker.rs','(2, 1) => 16,','(2, 1) if unprocessed[1].len() > 1 << 17 => 8,\n            (2, 1) => 16,')),
'c12-ext': P('C12','a file whose name has another ending',
  'decode_file refuses files that are not called .jpg or .jpeg',
  (D,'let buffer = Cursor::new(read(file)?);','let known = file.as_ref().extension().map_or(true, |x| x.to_string_lossy().to_lowercase().starts_with("jp"));\n\n        if !known\n        {\n            return Err(DecodeErrors::FormatStatic("Not a jpeg file"));\n        }\n        let buffer = Cursor::new(read(file)?);')),
'c13-fillstrict': P('C13','strict mode and four or more fill bytes before a marker',
  'fill bytes are counted as stray bytes',
  (D,"""            if last_byte == 0xFF && m == 0xFF
            {
                continue;""","""            if last_byte == 0xFF && m == 0xFF
            {
                bytes_before_marker += 1;

                if self.options.get_strict_mode() && bytes_before_marker > 3
                {
                    return Err(DecodeErrors::FormatStatic(
                        "[strict-mode]: Extra bytes between headers",
                    ));
                }
                continue;""")),
'c17-limits': P('C17','options with a scan limit, then set_limits on the decoder',
  'set_limits restores the default scan limit',
  (D,'self.options = self.options.set_max_width(width).set_max_height(height);','self.options = self.options.set_max_width(width).set_max_height(height).set_max_scans(64);')),
'c01-tq3': P('C01','a component using quantisation table 3',
  'table 2 is used instead where there is one',
  (H,'decoder.qt_tables[table_position] = Some(dct_table);','decoder.qt_tables[table_position] = decoder.qt_tables[table_position.min(2)].filter(|_| table_position == 3).or(Some(dct_table));')),
'c17-rgba': P('C17','a decoder that has decoded a grayscale image, then rgba(), then a colour image',
  'the colorspace asked for before is used',
  (D,"""        self.options = self.options.set_out_colorspace(ColorSpace::RGBA);
        self.user_colorspace = None;""","""        self.options = self.options.set_out_colorspace(ColorSpace::RGBA);""")),
'c06-race': P('C06','two worker threads, or two decoders, at the end of a row at once',
  'the buffer for the last pixels of a row is shared by all threads of the process and unlocked between use',
  ('src/worker.rs','let mut temp = vec![0; 16 * output_colorspace.num_components()];',''),
  ('src/worker.rs','(color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);','(color_convert_16)(&y_out, &cb_out, &cr_out, &mut TEMP.lock().unwrap()[..], &mut 0);\n            let temp = TEMP.lock().unwrap();'),
  ('src/worker.rs','/// Do color-conversion for interleaved MCU\n','static TEMP: std::sync::Mutex<[u8; 64]> = std::sync::Mutex::new([0; 64]);\n\n/// Do color-conversion for interleaved MCU\n')),
'c16-lazy': P('C16','reading headers of a file with an over-subscribed Huffman table',
  'the table is dropped, decoding then fails but reading headers does not',
  (H,"""                decoder.ac_huffman_tables[index] = Some(HuffmanTable::new(
                    &num_symbols,
                    symbols,
                    false,
                    decoder.is_progressive,
                )?);""","""                decoder.ac_huffman_tables[index] =
                    HuffmanTable::new(&num_symbols, symbols, false, decoder.is_progressive).ok();""")),
'c04-soforder': P('C04','a progressive file that defines AC tables 2 or 3 before its frame header',
  'these keep the baseline meaning of EOB',
  (D,'for table in self.ac_huffman_tables.iter_mut().flatten()','for table in self.ac_huffman_tables.iter_mut().take(2).flatten()')),

'c20-dup': P('C20','a file with tens of thousands of segments in front of its image',
  'every segment is compared with all before it',
  (D,"""                    self.parse_marker_inner(n, buf)?;

                    if n""","""                    self.parse_marker_inner(n, buf)?;
                    seen.push(n);

                    if seen.iter().filter(|x| **x == n).count() > 1
                    {
                        warn!("Marker {:?} occurs more than once", n);
                    }

                    if n"""),
  (D,"""        let mut bytes_before_marker = 0;
""","""        let mut bytes_before_marker = 0;
        let mut seen = vec![];
""")),
'c20-rst': P('C20','an image with very many restart intervals',
  'at every restart marker all those before it are counted again',
  (M,"""                    // reset stream
""","""                    let past = &reader.get_ref()[..usize::try_from(reader.position()).unwrap_or(0)];

                    let before = past
                        .windows(2)
                        .filter(|x| x[0] == 0xFF && (0xD0..=0xD7).contains(&x[1]))
                        .count();

                    debug!("{} restart markers up to here", before);
                    // reset stream now
""")),

'c13-adobe': P('C13','an Adobe APP14 segment that says transform 0',
  'the image is taken for something else than YCbCr and comes out black',
  (D,"""                let length = read_u16_be(buf)?;

                if length < 2
                {
                    return Err(DecodeErrors::Format(format!(
                        "Found a marker with invalid length:{}\\n",""","""                let length = read_u16_be(buf)?;

                if m == Marker::APP(14) && length == 14
                {
                    let data = buf.fill_buf()?;

                    if data.starts_with(b"Adobe") && data.get(11) == Some(&0) && !self.components.is_empty()
                    {
                        self.input_colorspace = ColorSpace::RGB;
                    }
                }
                if length <= 1
                {
                    return Err(DecodeErrors::Format(format!(
                        "Found a marker with invalid length:{}\\n",""")),
'c13-density': P('C13','a JFIF segment',
  'image information depends on metadata',
  (D,"""                let length = read_u16_be(buf)?;

                if length < 2
                {
                    return Err(DecodeErrors::Format(format!(
                        "Found a marker with invalid length:{}\\n",""","""                let length = read_u16_be(buf)?;

                if m == Marker::APP(0)
                {
                    if let [b'J', b'F', b'I', b'F', 0, _, _, _, a, b, ..] = buf.fill_buf()?
                    {
                        self.info.set_x(u16::from_be_bytes([*a, *b]));
                    }
                }
                if length <= 1
                {
                    return Err(DecodeErrors::Format(format!(
                        "Found a marker with invalid length:{}\\n",""")),
'c07-dri0': P('C07','a restart interval of zero, in a build with overflow checks',
  'the countdown starts at zero and underflows',
  (M,'self.todo = self.todo.wrapping_sub(1);','self.todo -= 1;')),
'c19-snap': P('C19','a progressive image with many scans',
  'the coefficients are kept as they were after each scan, memory grows with the number of scans',
  (G,'''        let mut seen_scans = 1;

        if self.interleaved''','''        let (mut seen_scans, mut snapshots) = (1, vec![]);

        if self.interleaved'''),
  (G,'''                        seen_scans+=1;
''','''                        seen_scans+=1;
                        snapshots.push(block.clone());
''')),
'c21-scheme': P('C21','a file with lossless arithmetic coding',
  'reported as lossless Huffman coding',
  ('src/errors.rs','START_OF_FRAME_LOS_SEQ_AR => Some(Self::LosslessArithmetic)','START_OF_FRAME_LOS_SEQ_AR => Some(Self::LosslessHuffman)')),
'c21-magic': P('C21','a file that is not JPEG and starts with a byte above 127',
  'the first byte is reported without its top bit',
  ('src/decoder.rs','return Err(DecodeErrors::IllegalMagicBytes(magic_bytes));','return Err(DecodeErrors::IllegalMagicBytes(magic_bytes & 0x7FFF));')),
}
