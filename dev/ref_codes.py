# c1: for loop reads, min for clipping
R['c1']=[(P,'''        if lzss.match_length > len {
            lzss.match_length = len;
        }
        if lzss''','''        lzss.match_length = lzss.match_length.min(len);
        if lzss'''),(H,'''        if lzss.match_length > len {
            lzss.match_length = len;
        }
''','''        lzss.match_length = std::cmp::min(lzss.match_length,len);
''')]
# c2: count down the remaining
R['c2']=[(P,'''        let mut i = 0;
        while i < last_match_length {
            let c = match bytes.next() {''','''        let mut left = last_match_length;
        while left > 0 {
            let c = match bytes.next() {'''),(P,'''            lzss.insert_node(r);
            i += 1;
        }
        while i < last_match_length {''','''            lzss.insert_node(r);
            left -= 1;
        }
        while left > 0 {'''),(P,'''                lzss.insert_node(r);
            }
            i += 1;''','''                lzss.insert_node(r);
            }
            left -= 1;''')]
# c3: second loop as for
R['c3']=[(H,'''        while i < last_match_length {
            lzss.delete_node(opt.lookahead as i64)?;
            lzss.dictionary.advance();
            len -= 1;
            if len > 0 {
                lzss.insert_node()?;
            }
            i += 1;
        }''','''        for _rest in i..last_match_length {
            lzss.delete_node(opt.lookahead as i64)?;
            lzss.dictionary.advance();
            len -= 1;
            if len > 0 {
                lzss.insert_node()?;
            }
        }''')]
# c4: symbol computed first, one call
R['c4']=[(H,'''        if lzss.match_length <= opt.threshold {
            lzss.match_length = 1;
            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
        } else {
            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
        }''','''        let is_match = lzss.match_length > opt.threshold;
        if is_match {
            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
        } else {
            lzss.match_length = 1;
            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
        }''')]
# c5: helper for coding one step
R['c5']=[(P,'''        if lzss.match_length <= THRESHOLD {
            lzss.match_length = 1;
            huff.encode_char(lzss.dictionary[r] as u16,&mut writer)?;
        } else {
            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer)?;
            huff.encode_position(lzss.match_position as u16,&mut writer)?;
        }
        let last_match_length = lzss.match_length;''','''        let last_match_length = put_run(&mut lzss,&mut huff,r,&mut writer)?;'''),(P,'''/// Main compression function
pub fn encode''','''/// Code the current match, or the literal at `r`, and return the length coded
fn put_run<W: Write + Seek>(lzss: &mut LZSS,huff: &mut AdaptiveHuffman,r: usize,writer: &mut BufWriter<W>) -> Result<usize,std::io::Error> {
    if lzss.match_length <= THRESHOLD {
        lzss.match_length = 1;
        huff.encode_char(lzss.dictionary[r] as u16,writer)?;
    } else {
        huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,writer)?;
        huff.encode_position(lzss.match_position as u16,writer)?;
    }
    Ok(lzss.match_length)
}

/// Main compression function
pub fn encode''')]
# c6: expander with while
R['c6']=[(H,'''			for _k in 0..strlen {
				let c8 = lzss.dictionary.get(offset);
                writer.write_all(&[c8])?;
                lzss.dictionary.set(0,c8 as u8);
                lzss.dictionary.advance();
            }''','''			let mut left = strlen;
			while left > 0 {
				let c8 = lzss.dictionary.get(offset);
                writer.write_all(&[c8])?;
                lzss.dictionary.set(0,c8 as u8);
                lzss.dictionary.advance();
                left -= 1;
            }''')]
# c7: expander emits through helper
R['c7']=[(P,'''			for k in 0..strlen {
				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
                writer.write_all(&[c8])?;
				lzss.dictionary[r] = c8;
                r += 1;
				r &= WIN_SIZE - 1;
			}''','''			let mut k = 0;
			loop {
				if k == strlen {
					break;
				}
				let c8 = lzss.dictionary[(strpos + k) % WIN_SIZE];
				lzss.dictionary[r] = c8;
                writer.write_all(&[c8])?;
                r = (r + 1) % WIN_SIZE;
				k += 1;
			}'''),(P,'''			lzss.dictionary[r] = c as u8;
            r += 1;
			r &= WIN_SIZE - 1;
		} else''','''			lzss.dictionary[r] = c as u8;
            r = (r + 1) % WIN_SIZE;
		} else''')]
# c8: expander buffers a match
R['c8']=[(H,'''			for _k in 0..strlen {
				let c8 = lzss.dictionary.get(offset);
                writer.write_all(&[c8])?;
                lzss.dictionary.set(0,c8 as u8);
                lzss.dictionary.advance();
            }''','''			let mut run: Vec<u8> = Vec::new();
			for _k in 0..strlen {
				let c8 = lzss.dictionary.get(offset);
                run.push(c8);
                lzss.dictionary.set(0,c8 as u8);
                lzss.dictionary.advance();
            }
            writer.write_all(&run)?;''')]
# c9: prefill with for/enumerate style
R['c9']=[(H,'''    while len < opt.lookahead {
        match bytes.next() {
            Some(Ok(c)) => {
                lzss.dictionary.set(len as i64,c);
                len += 1;
            },
            None => {
                break;
            },
            Some(Err(e)) => {
                return Err(Box::new(e));
            }
        }
    }''','''    for k in 0..opt.lookahead {
        if let Some(next) = bytes.next() {
            lzss.dictionary.set(k as i64,next?);
            len = k + 1;
        } else {
            break;
        }
    }''')]
# c10: symbol arithmetic reordered
R['c10']=[(P,'(255-THRESHOLD+lzss.match_length) as u16','(lzss.match_length + 256 - (THRESHOLD + 1)) as u16'),(P,'let strlen = c as usize + THRESHOLD - 255;','let strlen = (c as usize - 256) + THRESHOLD + 1;'),(H,'let strlen = c as i64 + opt.threshold as i64 - 255;','let strlen = c as usize - 255 + opt.threshold;')]
# c11: match on symbol
R['c11']=[(P,'		if c < 256 {\n            writer.write_all(&[c as u8])?;','		if let Ok(b) = u8::try_from(c) {\n            writer.write_all(&[b])?;')]
