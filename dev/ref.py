"""behaviour-preserving refactors -> all checks must stay quiet.  ref.py [ids]"""
import sys,subprocess,os,re
from concurrent.futures import ThreadPoolExecutor
S=os.environ.get('RS','/tmp/mscr')
R={}
L='src/lzw.rs';H='src/lzss_huff.rs';P='src/direct_ports/lzhuf.rs';T='src/td0.rs';A='src/tools/adaptive_huff.rs';M='src/main.rs';RB='src/tools/ring_buffer.rs'
# r1: helper extraction for size in lzw, both directions
R['r1']=[(L,'''    let mut expanded_length = reader.seek(SeekFrom::End(0))?;
    if opt.in_offset > expanded_length {
        return Err(Box::new(crate::Error::FileFormatMismatch));
    }
    expanded_length -= opt.in_offset;
    if expanded_length > opt.max_file_size {
        return Err(Box::new(crate::Error::FileTooLarge));
    }
''','''    let expanded_length = checked_size(&mut reader,opt)?;
'''),(L,'''    let mut compressed_size = reader.seek(SeekFrom::End(0))?;
    if opt.in_offset > compressed_size {
        return Err(Box::new(crate::Error::FileFormatMismatch));
    }
    compressed_size -= opt.in_offset;
    if compressed_size > opt.max_file_size {
        return Err(Box::new(crate::Error::FileTooLarge));
    }
    reader.seek''','''    let compressed_size = checked_size(&mut reader,opt)?;
    reader.seek'''),(L,'''/// Main compression function.
''','''fn checked_size<S: Seek>(stream: &mut S, opt: &Options) -> Result<u64,DYNERR> {
    let end = stream.seek(SeekFrom::End(0))?;
    let size = match end.checked_sub(opt.in_offset) {
        Some(s) => s,
        None => return Err(crate::Error::FileFormatMismatch.into())
    };
    match size <= opt.max_file_size {
        true => Ok(size),
        false => Err(Box::new(crate::Error::FileTooLarge))
    }
}

/// Main compression function.
''')]
# r2: expand of lzss: compute target end position, use local counter
R['r2']=[(H,'''	while writer.stream_position()? - opt.out_offset < max_expanded_size as u64 {
''','''    let end_pos = opt.out_offset + max_expanded_size as u64;
    loop {
        if writer.stream_position()? >= end_pos {
            break;
        }
''')]
# r3: read_exact via match in lzw compress -> helper returning Option
R['r3']=[(L,'''/// Main compression function.
''','''/// next byte or None at the end
fn next_symbol<R: Read>(reader: &mut R) -> Result<Option<u8>,std::io::Error> {
    let mut by: [u8;1] = [0];
    match reader.read_exact(&mut by) {
        Ok(()) => Ok(Some(by[0])),
        Err(e) => {
            if e.kind() == ErrorKind::UnexpectedEof {
                Ok(None)
            } else {
                Err(e)
            }
        }
    }
}

/// Main compression function.
'''),(L,'match reader.read_exact(&mut sym_in) {\n                    Ok(()) => {\n                        match lzw.check_match(sym_in[0] as usize) {','match next_symbol(&mut reader)? {\n                    Some(sym) => {\n                        match lzw.check_match(sym as usize) {'),
(L,'''Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                        if let Some(curr)''','''None => {
                        if let Some(curr)'''),(L,'''                        return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
                    },
                    Err(e) => return Err(Box::new(e))
''','''                        return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
                    }
'''),(L,'    let mut sym_in: [u8;1] = [0];\n','')]
# r4: td0: helper for header
R['r4']=[(T,'''    if &td_header[0..2] != "td".as_bytes() {
        return Err(Box::new(crate::Error::FileFormatMismatch))
    }
    let crc = u16::to_le_bytes(crc16(0,&td_header[0..10]));
    if crc!=td_header[10..12] {
        return Err(Box::new(crate::Error::BadChecksum))
    }
    td_header[0..2].copy_from_slice("TD".as_bytes());
    let crc = u16::to_le_bytes(crc16(0,&td_header[0..10]));
    td_header[10..12].copy_from_slice(&crc);
''','''    convert_header(&mut td_header,b"td",b"TD")?;
'''),(T,'''    if &td_header[0..2] != "TD".as_bytes() {
        return Err(Box::new(crate::Error::FileFormatMismatch))
    }
    let crc = u16::to_le_bytes(crc16(0,&td_header[0..10]));
    if crc!=td_header[10..12] {
        return Err(Box::new(crate::Error::BadChecksum))
    }
    td_header[0..2].copy_from_slice("td".as_bytes());
    let crc = u16::to_le_bytes(crc16(0,&td_header[0..10]));
    td_header[10..12].copy_from_slice(&crc);
''','''    convert_header(&mut td_header,b"TD",b"td")?;
'''),(T,'''/// Convert a TD0 image from advanced compression to normal.
''','''fn convert_header(hdr: &mut [u8;12],old: &[u8;2],new: &[u8;2]) -> Result<(),DYNERR> {
    if hdr[0] != old[0] || hdr[1] != old[1] {
        return Err(Box::new(crate::Error::FileFormatMismatch));
    }
    let stored = u16::from_le_bytes([hdr[10],hdr[11]]);
    if crc16(0,&hdr[..10]) != stored {
        return Err(Box::new(crate::Error::BadChecksum));
    }
    hdr[..2].copy_from_slice(new);
    let sum = crc16(0,&hdr[..10]);
    hdr[10] = (sum & 0xff) as u8;
    hdr[11] = (sum >> 8) as u8;
    Ok(())
}

/// Convert a TD0 image from advanced compression to normal.
''')]
# r5: td0 tail: match on version, one place for sizes
R['r5']=[(T,'''    if td_header[4] < 20 {
        let (in_size,out_size) = lzw::expand(compressed_in,expanded_out,&TD_V1_OPTIONS)?;
        Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
    } else {
        let (in_size,out_size) = lzss_huff::expand(compressed_in,expanded_out,&TD_V2_OPTIONS)?;
        Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
    }
''','''    let hlen = td_header.len() as u64;
    let sizes = match td_header[4] {
        0..=19 => lzw::expand(compressed_in,expanded_out,&TD_V1_OPTIONS),
        _ => lzss_huff::expand(compressed_in,expanded_out,&TD_V2_OPTIONS)
    };
    sizes.map(|(a,b)| (a + hlen, b + hlen))
'''),(T,'''    if td_header[4] < 20 {
        let (in_size,out_size) = lzw::compress(expanded_in,compressed_out,&TD_V1_OPTIONS)?;
        Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
    } else {
        let (in_size,out_size) = lzss_huff::compress(expanded_in,compressed_out,&TD_V2_OPTIONS)?;
        Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
    }
''','''    let use_lzw = td_header[4] / 10 < 2;
    let (in_size,out_size) = if use_lzw {
        lzw::compress(expanded_in,compressed_out,&TD_V1_OPTIONS)?
    } else {
        lzss_huff::compress(expanded_in,compressed_out,&TD_V2_OPTIONS)?
    };
    Ok((in_size+12,out_size+12))
''')]
# r6: put_code refactors in lzw: helper write_pending, early return
R['r6']=[(L,'''        writer.write_all(&bytes.as_slice())?;
        if self.bits.len() % 8 > 0 {
            writer.seek(SeekFrom::Current(-1))?;
            self.ptr = 8 * (self.bits.len() / 8);
            self.drop_leading_bits();
        } else {
            self.bits = BitVec::new();
            self.ptr = 0;
        }
        self.count += 1;
        Ok(())
''','''        self.count += 1;
        self.emit(&bytes,writer)
    }
    fn emit<W: Write + Seek>(&mut self,bytes: &[u8],writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
        writer.write_all(bytes)?;
        let whole = self.bits.len() / 8 * 8;
        if whole == self.bits.len() {
            self.bits.clear();
            self.bits = BitVec::new();
            self.ptr = 0;
            return Ok(());
        }
        writer.seek_relative(-1)?;
        self.ptr = whole;
        self.drop_leading_bits();
        Ok(())
''')]
# r7: lzss compress initial fill loop with for, helper for next byte
R['r7']=[(H,'''    while len < opt.lookahead {
        match bytes.next() {
            Some(Ok(c)) => {
                lzss.dictionary.set(len as i64,c);
                len += 1;
            },
            None => {
                break;
            },
            Some(Err(e)) => {
                return Err(Box::new(e));
            }
        }
    }
''','''    while len < opt.lookahead {
        if let Some(c) = bytes.next().transpose()? {
            lzss.dictionary.set(len as i64,c);
            len += 1;
        } else {
            break;
        }
    }
'''),(H,'''            let c = match bytes.next() {
                Some(Ok(c)) => c,
                None => break,
                Some(Err(e)) => return Err(Box::new(e))
            };
''','''            let next = bytes.next();
            if next.is_none() {
                break;
            }
            let c = next.unwrap()?;
''')]
# r8: lzss expand: put closure / emit helper
R['r8']=[(H,'''            writer.write_all(&[c as u8])?;
			lzss.dictionary.set(0,c as u8);
            lzss.dictionary.advance();
		} else {''','''            lzss.emit(c as u8,&mut writer)?;
		} else {'''),(H,'''                writer.write_all(&[c8])?;
                lzss.dictionary.set(0,c8 as u8);
                lzss.dictionary.advance();
''','''                lzss.emit(c8,&mut writer)?;
'''),(H,'''    fn delete_node(&mut self,offset: i64)''','''    fn emit<W: Write>(&mut self,c: u8,out: &mut W) -> Result<(),std::io::Error> {
        self.dictionary.set(0,c);
        self.dictionary.advance();
        out.write_all(std::slice::from_ref(&c))
    }
    fn delete_node(&mut self,offset: i64)''')]
# r9: lzss compress limit: size computed separately, header via byteorder shift
R['r9']=[(H,'''    let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
    if expanded_length > opt.max_file_size {
        return Err(Box::new(crate::Error::FileTooLarge));
    }
''','''    let end = reader.seek(SeekFrom::End(0))?;
    let expanded_length = end - opt.in_offset;
    let fits = !(opt.max_file_size < expanded_length);
    if !fits {
        log::error!("file is too large: {}",expanded_length);
        return Err(crate::Error::FileTooLarge)?;
    }
'''),(H,'''        let header = u32::to_le_bytes(expanded_length as u32);
        writer.write_all(&header)?;
''','''        writer.write_all(&(expanded_length as u32).to_le_bytes())?;
''')]
# r10: lzss header read: from manual shift
R['r10']=[(H,'''            reader.read_exact(&mut header)?;
            u32::from_le_bytes(header)
''','''            reader.read_exact(&mut header)?;
            (header[0] as u32) | (header[1] as u32) << 8 | (header[2] as u32) << 16 | (header[3] as u32) << 24
''')]
# r11: wrappers in terms of &mut Vec
R['r11']=[(f,'''    let mut src = Cursor::new(slice);
    let mut ans: Cursor<Vec<u8>> = Cursor::new(Vec::new());
    %s(&mut src,&mut ans%s)?;
    Ok(ans.into_inner())
'''%(fn,o),'''    let mut ans = Vec::new();
    let res = %s(&mut Cursor::new(slice),&mut Cursor::new(&mut ans)%s);
    match res {
        Ok(_) => Ok(ans),
        Err(e) => Err(e)
    }
'''%(fn,o)) for f,fn,o in [(L,'compress',',opt'),(H,'expand',',opt'),(T,'compress','')]]
R['r12']=[(f,'''    let mut src = Cursor::new(slice);
    let mut ans: Cursor<Vec<u8>> = Cursor::new(Vec::new());
    %s(&mut src,&mut ans%s)?;
    Ok(ans.into_inner())
'''%(fn,o),'''    let mut src = Cursor::new(slice);
    let mut ans: Cursor<Vec<u8>> = Cursor::new(Vec::with_capacity(slice.len()));
    %s(&mut src,&mut ans%s).map(|_| ans.into_inner())
'''%(fn,o)) for f,fn,o in [(L,'expand',',opt'),(H,'compress',',opt'),(T,'expand','')]]
# r13: crc loop rewritten
R['r13']=[(T,'''    for i in 0..buf.len() {
        crc ^= (buf[i] as u16) << 8;
        for _bit in 0..8 {
            crc = (crc << 1) ^ match crc & 0x8000 { 0 => 0, _ => 0xa097 };
        }
    }
    crc
''','''    for b in buf.iter() {
        let mut c = crc ^ u16::from_be_bytes([*b,0]);
        let mut bit = 0;
        while bit < 8 {
            let carry = c >> 15 == 1;
            c <<= 1;
            if carry { c ^= 0xa097; }
            bit += 1;
        }
        crc = c;
    }
    crc
''')]
# r14: lzw expand reordered; see file
R['r14']=[(L,'''    reader.seek(SeekFrom::Start(opt.in_offset))?;
    writer.seek(SeekFrom::Start(opt.out_offset))?;

    let mut end_of_data = false;
''','''    let mut end_of_data = false;
    writer.seek(SeekFrom::Start(opt.out_offset))?;
    let _ = reader.seek(SeekFrom::Start(opt.in_offset))?;
''')]
# r15 lzw compress: header patch in closure/fn, save end
R['r15']=[(L,'''                        if opt.header_bits > 0 {
                            writer.seek(SeekFrom::Start(write_offset_header))?;
                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                        }
''','''                        patch_header(opt,write_offset_header,&mut old_coder_state,coder.count,&mut writer)?;
'''),(L,'''                if opt.header_bits > 0 {
                    writer.seek(SeekFrom::Start(write_offset_header))?;
                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                }
''','''                patch_header(opt,write_offset_header,&mut old_coder_state,coder.count,&mut writer)?;
'''),(L,'''/// Main compression function.
''','''fn patch_header<W: Write + Seek>(opt: &Options,pos: u64,state: &mut LZWCoder,count: usize,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
    if opt.header_bits == 0 {
        return Ok(());
    }
    writer.seek(SeekFrom::Start(pos))?;
    let len = count*opt.max_code_width/opt.header_divisor;
    state.put_code(opt.header_bits,len,writer)
}

/// Main compression function.
''')]
# r16: get_bit iterative
R['r16']=[(A,'''        match self.bits.get(self.ptr) {
            Some(bit) => {
                self.ptr += 1;
                Ok(bit as u8)
            },
            None => {
                let mut by: [u8;1] = [0];
                match reader.read_exact(&mut by) {
                    Ok(()) => {
                        if self.bits.len()>512 {
                            self.drop_leading_bits();
                        }
                        self.bits.append(&mut BitVec::from_bytes(&by));
                        self.get_bit(reader)
                    }
                    Err(e) => Err(e)
                }
            }
        }
''','''        if self.ptr >= self.bits.len() {
            let mut by: [u8;1] = [0];
            reader.read_exact(&mut by)?;
            if self.bits.len() > 512 {
                self.drop_leading_bits();
            }
            self.bits.append(&mut BitVec::from_bytes(&by));
        }
        let bit = self.bits[self.ptr];
        self.ptr += 1;
        Ok(bit as u8)
''')]
# r17: accumulator: LZWDecoder loop through closure
R['r17']=[(L,'''                for _i in 0..num_bits {
                    ans <<= 1;
                    ans |= self.get_bit(reader)? as usize;
                }    
''','''                let mut left = num_bits;
                while left > 0 {
                    let bit = match self.get_bit(reader) { Ok(b) => b, Err(e) => return Err(e) };
                    ans = 2 * ans + bit as usize;
                    left -= 1;
                }
''')]
exec(open('/tmp/r6v.py').read().split('#X',1)[-1] if 0 else '')
src=dict((f,open('/repo/'+f).read()) for f in (L,H,P,T,A,M,RB))
exec(open('/tmp/ref_more.py').read()) if os.path.exists('/tmp/ref_more.py') else None
exec(open('/verif/dev/ref_bits.py').read())
exec(open('/verif/dev/ref_codes.py').read())
exec(open('/verif/dev/ref_lzw.py').read())
exec(open('/verif/dev/ref_model.py').read())
CH=os.environ.get('CH','C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C16,C19,C23,C24,C26,C27,C21,C28,C20,C25,C29,C30').split(',')
ids=sys.argv[1:] or list(R)
for k in ids:
    subprocess.run('git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',shell=True,cwd=S,stderr=subprocess.DEVNULL)
    for f,o,n in R[k]:
        s=open(S+'/'+f).read()
        if o not in s: print(k,'NOT FOUND',f,o[:80]); break
        open(S+'/'+f,'w').write(s.replace(o,n,1))
    r=subprocess.run('cargo test --offline 2>&1 | grep -E "^test result|FAILED|^error|panicked" | head -20',shell=True,cwd=S,env=dict(os.environ,CARGO_TARGET_DIR=S+'.t'),capture_output=True,text=True)
    if 'FAILED' in r.stdout or 'error' in r.stdout: print(k,r.stdout); continue
    env=dict(os.environ,SA_REPO=S,SA_BUILD=S+'.b',SA_EVIDENCE=S+'.e',PYTHONHASHSEED='0')
    def one(p):
        r=subprocess.run([sys.executable,os.environ.get('VC','/verif')+'/sa/check.py',p],env=env,capture_output=True,text=True)
        return p,r.returncode,r.stdout,r.stderr
    one('C15')
    with ThreadPoolExecutor(4) as ex:
        bad=[x for x in ex.map(one,CH) if x[1]]
    print(k,'quiet' if not bad else '')
    for p,rc,o,e in bad: print('  ',p,rc,'\n'.join('      '+l[:300] for l in [l for l in o.splitlines() if not l.startswith(' ')][-6:]),e[-600:])
