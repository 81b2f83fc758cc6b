import re,sys,subprocess,os
S='/tmp/mscr'
subprocess.run('git checkout -q -- .',shell=True,cwd=S)
s=open(S+'/src/main.rs').read()
which=sys.argv[1]
head,tail=s.split("    let matches = main_cmd.get_matches();")
if which=='a':
    body='''    let matches = main_cmd.get_matches();
    match matches.subcommand() {
        Some(("compress",cmd)) => run(cmd,true),
        Some(("expand",cmd)) => run(cmd,false),
        _ => Ok(())
    }
}

fn open_pair(a: &str,b: &str) -> std::io::Result<(std::fs::File,std::fs::File)> {
    let i = std::fs::File::open(a)?;
    let mut oo = std::fs::OpenOptions::new();
    oo.write(true).create(true);
    let o = oo.open(b)?;
    Ok((i,o))
}

fn run(cmd: &clap::ArgMatches,fwd: bool) -> STDRESULT {
    let get = |k: &str| cmd.get_one::<String>(k).expect(RCH).clone();
    let path_in = get("input");
    let path_out = get("output");
    let method: String = get("method");
    if !ok_to_overwrite(&path_out) {
        eprintln!("abort operation");
        return Ok(());
    }
    let (mut i,mut o) = open_pair(&path_in,&path_out)?;
    let res = convert(&method,fwd,&mut i,&mut o)?;
    let (a,b) = match res { Some(x) => x, None => { eprintln!("{} not supported",method); return Err(Box::new(std::fmt::Error)); } };
    o.set_len(b)?;
    let word = if fwd {"compressed"} else {"expanded"};
    eprintln!("{} {} into {}",word,a,b);
    Ok(())
}
fn convert(method: &str,fwd: bool,i: &mut std::fs::File,o: &mut std::fs::File) -> Result<Option<(u64,u64)>,Box<dyn std::error::Error>> {
    Ok(Some(match (method,fwd) {
        ("lzw",true) => lzw::compress(i,o,&lzw::STD_OPTIONS)?,
        ("lzw",false) => lzw::expand(i,o,&lzw::STD_OPTIONS)?,
        ("lzhuf-port",true) => direct_ports::lzhuf::encode(i,o)?,
        ("lzhuf-port",false) => direct_ports::lzhuf::decode(i,o)?,
        ("lzss_huff",true) => lzss_huff::compress(i,o,&lzss_huff::STD_OPTIONS)?,
        ("lzss_huff",false) => lzss_huff::expand(i,o,&lzss_huff::STD_OPTIONS)?,
        ("td0",true) => td0::compress(i,o)?,
        ("td0",false) => td0::expand(i,o)?,
        _ => return Ok(None)
    }))
}
'''
    s=head+body
    s=re.sub(r'fn ok_to_overwrite.*?\n}\n','''fn ok_to_overwrite(path_out: &str) -> bool {
    let p = std::path::Path::new(path_out);
    if !p.exists() { return true; }
    let mut ans = String::new();
    eprint!("{} exists, overwrite? (y/n) ",path_out);
    if let Err(e) = std::io::stdin().read_line(&mut ans) { panic!("could not read stdin {}",e); }
    let a = ans.trim_end();
    match a {
        "y" | "Y" => { log::warn!("existing file will be replaced"); true },
        _ => false
    }
}
''',s,flags=re.S)
elif which=='b':
    s=s.replace('''ans.trim_end()=="y" || ans.trim_end()=="Y"''','''["y","Y"].contains(&ans.trim_end())''')
    s=s.replace('''    if let Some(cmd) = matches.subcommand_matches("expand")''','''    else if let Some(cmd) = matches.subcommand_matches("expand")''')
    s=s.replace('std::fs::OpenOptions::new().write(true).truncate(false).create(true).open(path_out)?','std::fs::File::create(path_out)?').replace('out_file.set_len(out_size)?;','')
elif which=='c':
    s=s.replace('''ans.trim_end()=="y" || ans.trim_end()=="Y"''','''ans.trim_end().eq_ignore_ascii_case("y")''')
    s=s.replace('.exists() {','.try_exists().unwrap_or(true) {')
    s=s.replace('std::fs::File::open(path_in)?','std::fs::File::open(path_in).map_err(|e| { eprintln!("cannot open {}: {}",path_in,e); e })?')
    s=s.replace('out_file.set_len(out_size)?;','if let Err(e) = out_file.set_len(out_size) { return Err(e.into()); }')
elif which=='d':
    s=s.replace('fn main() -> STDRESULT','fn main() { if let Err(e) = real_main() { eprintln!("Error: {:?}",e); std::process::exit(1); } }\nfn real_main() -> STDRESULT')
    s=s.replace('let path_in = cmd.get_one::<String>("input").expect(RCH);','let path_in = std::path::PathBuf::from(cmd.get_one::<String>("input").unwrap());')
    s=s.replace('File::open(path_in)','File::open(&path_in)')
    s=s.replace('ok_to_overwrite(path_out)','ok_to_overwrite(path_out.as_str())')
    s=s.replace('"lzw" => lzw::compress(&mut in_file,&mut out_file,&lzw::STD_OPTIONS)?','"lzw" => { let mut opt = lzw::STD_OPTIONS; opt.in_offset = 0; lzw::compress(&mut in_file,&mut out_file,&opt)? }')
    s=s.replace('"lzss_huff" => lzss_huff::compress(&mut in_file,&mut out_file,&lzss_huff::STD_OPTIONS)?','"lzss_huff" => lzss_huff::compress(&mut in_file,&mut out_file,&lzss_huff::STD_OPTIONS.clone())?')
open(S+'/src/main.rs','w').write(s)
for p in ("C13","C14"):
    env=dict(os.environ,SA_REPO=S,SA_BUILD='/tmp/scrb',SA_EVIDENCE='/tmp/scre')
    r=subprocess.run([sys.executable,'/verif/sa/check.py',p],env=env,capture_output=True,text=True)
    print(which,p,r.returncode,r.stdout[:600],r.stderr[-1500:])
