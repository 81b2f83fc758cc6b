# behaviour-preserving edits of the LZW codec
EOFB='''                        if let Some(curr) = &lzw.curr_match {
                            let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
                            codes.push(val.code);
                        }
                        if let Some(code) = opt.stop_code {
                            coder.put_code(opt.max_code_width,code,&mut writer)?;
                            codes.push(code);
                        }
'''
MID='''            let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
            log::trace!("code: {}",curr.code);
            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
            codes.push(curr.code);
'''
CLR='''                if let Some(code) = opt.clear_code {
                    coder.put_code(opt.max_code_width,code,&mut writer)?;
                    codes.push(code);
                }
'''
CM='''/// Main compression function.
'''
# d1: helper that writes and remembers a code
R['d1']=[(L,CM,'''fn emit<W: Write + Seek>(coder: &mut LZWCoder, codes: &mut Vec<usize>, width: usize, code: usize, writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
    coder.put_code(width,code,writer)?;
    codes.push(code);
    Ok(())
}

'''+CM),(L,EOFB,'''                        if let Some(curr) = &lzw.curr_match {
                            let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
                            emit(&mut coder,&mut codes,opt.max_code_width,val.code,&mut writer)?;
                        }
                        if let Some(code) = opt.stop_code {
                            emit(&mut coder,&mut codes,opt.max_code_width,code,&mut writer)?;
                        }
'''),(L,CLR,'''                if let Some(code) = opt.clear_code {
                    emit(&mut coder,&mut codes,opt.max_code_width,code,&mut writer)?;
                }
'''),(L,MID,'''            let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap().code;
            emit(&mut coder,&mut codes,opt.max_code_width,curr,&mut writer)?;
''')]
# d2: a method for the code of the match; index operator
R['d2']=[(L,'''    /// Try to match concatenation''','''    fn matched(&self) -> Option<usize> {
        self.curr_match.as_ref().map(|m| self.dictionary[&m.hash()].code)
    }
    /// Try to match concatenation'''),(L,'''                        if let Some(curr) = &lzw.curr_match {
                            let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
                            codes.push(val.code);
                        }
''','''                        if let Some(val) = lzw.matched() {
                            coder.put_code(opt.max_code_width,val,&mut writer)?;
                            codes.push(val);
                        }
'''),(L,MID,'''            let curr = lzw.matched().unwrap();
            coder.put_code(opt.max_code_width,curr,&mut writer)?;
            codes.push(curr);
''')]
# d3: one arm for both ways of not matching
R['d3']=[(L,'''                        match lzw.check_match(sym_in[0] as usize) {
                            Some(true) => {
                                // keep matching
                            },
                            Some(false) => {
                                // didn't match
                                break;
                            }
                            None => {
                                // didn't match and no more codes,
                                // choose to keep going with stale dictionary
                                break;
                            }
                        }
''','''                        if lzw.check_match(sym_in[0] as usize) != Some(true) {
                            break;
                        }
''')]
# d4: reserved codes compared as options
R['d4']=[(L,'''            if let Some(stop) = opt.stop_code {
                if code == stop {
                    end_of_data = true;
                    break;
                }
            }
            if let Some(clear) = opt.clear_code {
                if code == clear {
                    break;
                }
            }
''','''            if opt.stop_code == Some(code) {
                end_of_data = true;
                break;
            }
            if Some(code) == opt.clear_code {
                break;
            }
''')]
# d5: codes are skipped one at a time
R['d5']=[(L,'''        loop {
            let test = new_code;
            if let Some(clear) = self.opt.clear_code {
                if new_code == clear {
                    new_code += 1;
                }
            }
            if let Some(stop) = self.opt.stop_code {
                if new_code == stop {
                    new_code += 1;
                }
            }
            if new_code >= self.opt.min_symbol && new_code <= self.opt.max_symbol {
                new_code = self.opt.max_symbol + 1;
            }
            if new_code == test {
                break;
            }
        }
''','''        while self.reserved(new_code) {
            new_code += 1;
        }
'''),(L,'''    /// Return the next available code''','''    fn reserved(&self,code: usize) -> bool {
        if let Some(clear) = self.opt.clear_code {
            if code == clear {
                return true;
            }
        }
        if let Some(stop) = self.opt.stop_code {
            if code == stop {
                return true;
            }
        }
        code >= self.opt.min_symbol && code <= self.opt.max_symbol
    }
    /// Return the next available code''')]
# d6: same, with options compared and a range
R['d6']=R['d5'][:1]+[(L,'''    /// Return the next available code''','''    fn reserved(&self,code: usize) -> bool {
        self.opt.clear_code == Some(code) || self.opt.stop_code == Some(code) || (self.opt.min_symbol..=self.opt.max_symbol).contains(&code)
    }
    /// Return the next available code''')]
# d7: output before the entry
INS='''            if let (Some(next_code),Some(prev_code)) = (next_code,prev_code) {
                lzw.dictionary.insert(Link::root(next_code).hash(),Link::create(prev_code,prev_str[0] as usize));
                log::trace!("add {} linking to {}.{}",next_code,prev_code,prev_str[0]);
            }
'''
WRT='''            writer.write_all(&prev_str)?;
            log::trace!("  write {} as {:?}",code,prev_str);
'''
R['d7']=[(L,INS+WRT,WRT+INS)]
# d8: bits left
R['d8']=[(L,'''        let mut bit_count = 0;
    
        log::debug!("enter main LZW loop");
        while bit_count < chunk_bits {''','''        let mut bits_left = chunk_bits;
    
        log::debug!("enter main LZW loop");
        while bits_left > 0 {'''),(L,'''            bit_count += opt.max_code_width;''','''            bits_left = bits_left.saturating_sub(opt.max_code_width);'''),(L,'''log::debug!("chunk completed with {} bits",bit_count);''','''log::debug!("chunk completed");''')]
# d9: entry looked up once
R['d9']=[(L,'''            match lzw.dictionary.contains_key(&Link::root(code).hash()) {
                false => {
                    if next_code.is_none() {
                        log::error!("new code was needed but none were available");
                        return Err(Box::new(crate::Error::FileFormatMismatch));
                    }
                    if code != next_code.unwrap() {
                        log::error!("Bad LZW code, expected {}, got {}",next_code.unwrap(),code);
                        return Err(Box::new(crate::Error::FileFormatMismatch));
                    }
                    prev_str.push(prev_str[0]);
                },
                true => {
                    prev_str = lzw.get_string(code);
                }
            };
''','''            if lzw.dictionary.contains_key(&Link::root(code).hash()) {
                prev_str = lzw.get_string(code);
            } else {
                match next_code {
                    Some(next) if next == code => {
                        let first = prev_str[0];
                        prev_str.push(first);
                    },
                    _ => {
                        log::error!("bad LZW code {}",code);
                        return Err(Box::new(crate::Error::FileFormatMismatch));
                    }
                }
            }
''')]
# d10: explicit seek back
R['d10']=[(L,'''            reader.seek_relative(-1)?;''','''            reader.seek(SeekFrom::Current(-1))?;''')]
# d11: header written by a helper
HD1='''                        if opt.header_bits > 0 {
                            writer.seek(SeekFrom::Start(write_offset_header))?;
                            old_coder_state.put_header(opt,coder.count*opt.max_code_width/opt.header_divisor,&codes,&mut writer)?;
                        }
'''
HD2='''                if opt.header_bits > 0 {
                    writer.seek(SeekFrom::Start(write_offset_header))?;
                    old_coder_state.put_header(opt,coder.count*opt.max_code_width/opt.header_divisor,&codes,&mut writer)?;
                }
'''
R['d11']=[(L,CM,'''fn patch_header<W: Write + Seek>(state: &mut LZWCoder, offset: u64, opt: &Options, count: usize, codes: &[usize], writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
    if opt.header_bits == 0 {
        return Ok(());
    }
    let bits = count * opt.max_code_width;
    writer.seek(SeekFrom::Start(offset))?;
    state.put_header(opt,bits / opt.header_divisor,codes,writer)
}

'''+CM),(L,HD1,'''                        patch_header(&mut old_coder_state,write_offset_header,opt,coder.count,&codes,&mut writer)?;
'''),(L,HD2,'''                patch_header(&mut old_coder_state,write_offset_header,opt,coder.count,&codes,&mut writer)?;
''')]
# d12: codes of the chunk counted from the vector
R['d12']=[(L,'if coder.count >= opt.chunk_size {','if codes.len() >= opt.chunk_size {')]
# d13: reading the code in a helper that turns the end of the input into None
R['d13']=[(L,'''/// Main decompression function.
''','''fn next_code<R: Read>(decoder: &mut LZWDecoder, width: usize, reader: &mut BufReader<R>) -> Result<Option<usize>,std::io::Error> {
    match decoder.get_code(width,reader) {
        Ok(c) => Ok(Some(c)),
        Err(e) if e.kind()==ErrorKind::UnexpectedEof => Ok(None),
        Err(e) => Err(e)
    }
}

/// Main decompression function.
'''),(L,'''            let code = match decoder.get_code(opt.max_code_width,&mut reader) {
                Ok(c) => c,
                Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                    end_of_data = true;
                    break;
                },
                Err(e) => return Err(Box::new(e))
            };
''','''            let code = match next_code(&mut decoder,opt.max_code_width,&mut reader)? {
                Some(c) => c,
                None => {
                    end_of_data = true;
                    break;
                }
            };
''')]
# d14: dictionary collected
R['d14']=[(L,'''            dictionary: HashMap::new(),''','''            dictionary: HashMap::with_capacity(opt.max_symbol + 1),'''),(L,'''        for i in opt.min_symbol..=opt.max_symbol {
            lzw.dictionary.insert(Link::root(i).hash(), Link::create(i,i));
        }
''','''        let mut i = opt.min_symbol;
        while i <= opt.max_symbol {
            let root = Link::root(i);
            lzw.dictionary.insert(root.hash(), Link::create(i,i));
            i += 1;
        }
''')]
# d15: strings built by reversing in place
R['d15']=[(L,'''        rev.iter().rev().map(|x| *x).collect()
''','''        rev.reverse();
        rev
''')]
# d16: expansion keeps the string separate
R['d16']=[(L,'''            match lzw.dictionary.contains_key(&Link::root(code).hash()) {
                false => {''','''            let known = lzw.dictionary.contains_key(&Link::root(code).hash());
            match known {
                false => {'''),(L,'''        lzw.curr_code = None;
        let mut prev_code = None;''','''        let mut prev_code: Option<usize> = None;''')]
# d17: loop on a flag, dictionary made by the caller of the chunk
R['d17']=[(L,'''        log::debug!("chunk completed with {} bits",bit_count);
        if end_of_data {
            break;
        }
    }
''','''        log::debug!("chunk completed with {} bits",bit_count);
    }
'''),(L,'''    let mut end_of_data = false;
    log::debug!("entering loop over chunks");
    loop {''','''    let mut end_of_data = false;
    log::debug!("entering loop over chunks");
    while !end_of_data {''')]
# d18: the match as a key and a code
R['d18']=[(L,'''        let search_key = match &self.curr_match {
            Some(curr_match) => {
                let base = self.dictionary.get(&curr_match.hash()).unwrap();
                Link::create(base.code,next_sym)
            },
            None => Link::root(next_sym)
        };
        match self.dictionary.contains_key(&search_key.hash()) {
            true => {
                self.curr_match = Some(search_key.clone());
                Some(true)
            },
            false => {
                match self.advance_code() {
                    Some(code) => {
                        self.dictionary.insert(search_key.hash(),Link::create(code,0));
                        Some(false)
                    },
                    None => None
                }
            }
        }
''','''        let search_key = if let Some(curr_match) = &self.curr_match {
            Link::create(self.dictionary.get(&curr_match.hash()).unwrap().code,next_sym)
        } else {
            Link::root(next_sym)
        };
        let key = search_key.hash();
        if self.dictionary.contains_key(&key) {
            self.curr_match = Some(search_key);
            return Some(true);
        }
        let code = self.advance_code()?;
        self.dictionary.insert(key,Link::create(code,0));
        Some(false)
''')]
# d19: read instead of read_exact
R['d19']=[(L,'''                match reader.read_exact(&mut sym_in) {
                    Ok(()) => {
                        match lzw.check''','''                match reader.read_exact(&mut sym_in[..]) {
                    Ok(_) => {
                        match lzw.check''')]
# d20: chunk offsets as a struct
R['d20']=[(L,'''                let save_offset = writer.stream_position()?;
                if opt''','''                let next_header = writer.stream_position()?;
                if opt'''),(L,'''                write_offset_header = save_offset;
                // read-position should be on the last symbol that didn't match
                read_chunk_offset = reader.stream_position()?;
                break;''','''                read_chunk_offset = reader.stream_position()?;
                write_offset_header = next_header;
                break;''')]
