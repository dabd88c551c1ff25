# behaviour-preserving edits of the command-line tool
M = 'baokeshed_bin/src/main.rs'
K = ['C18']
REFAC = [
 dict(id='bin-mode-enum', checks=K, edits=[(M, '''        let output = if let Some(key) = key {
            if derive_key {
                baokeshed::derive_key_xof(key, &map)
            } else {
                baokeshed::keyed_hash_xof(key, &map)
            }
        } else {
            baokeshed::hash_xof(&map)
        };
        Ok(output)''', '''        Ok(match (key, derive_key) {
            (None, _) => baokeshed::hash_xof(&map),
            (Some(key), false) => baokeshed::keyed_hash_xof(key, &map),
            (Some(key), true) => baokeshed::derive_key_xof(key, &map),
        })'''), (M, '''        let mut hasher = if let Some(key) = key {
            if derive_key {
                baokeshed::Hasher::new_derive_key(key)
            } else {
                baokeshed::Hasher::new_keyed(key)
            }
        } else {
            baokeshed::Hasher::new()
        };
        baokeshed::copy::copy_wide(&mut input, &mut hasher)?;
        Ok(hasher.finalize_xof())''', '''        hash_stream(&mut input, key, derive_key)'''), (M, 'fn print_hex(', '''fn new_hasher(key: Option<&[u8; baokeshed::KEY_LEN]>, derive_key: bool) -> baokeshed::Hasher {
    match key {
        Some(key) if derive_key => baokeshed::Hasher::new_derive_key(key),
        Some(key) => baokeshed::Hasher::new_keyed(key),
        None => baokeshed::Hasher::new(),
    }
}

fn hash_stream(
    input: &mut Input,
    key: Option<&[u8; baokeshed::KEY_LEN]>,
    derive_key: bool,
) -> Result<baokeshed::Output> {
    let mut hasher = new_hasher(key, derive_key);
    baokeshed::copy::copy_wide(input, &mut hasher)?;
    Ok(hasher.finalize_xof())
}

fn print_hex(''')]),
 dict(id='bin-print-loop', checks=K, edits=[(M, '''        let hex1 = baokeshed::Hash::from(*hash1).to_hex();
        let take = cmp::min(hex_bytes_remaining, hex1.len() as u128);
        print!("{}", &hex1[..take as usize]);
        hex_bytes_remaining -= take;
        let hex2 = baokeshed::Hash::from(*hash2).to_hex();
        let take = cmp::min(hex_bytes_remaining, hex2.len() as u128);
        print!("{}", &hex2[..take as usize]);
        hex_bytes_remaining -= take;''', '''        for half in [hash1, hash2].iter() {
            let hex = baokeshed::Hash::from(**half).to_hex();
            let take = cmp::min(hex_bytes_remaining, hex.len() as u128);
            print!("{}", &hex[..take as usize]);
            hex_bytes_remaining -= take;
        }''')]),
 dict(id='bin-print-helper', checks=K, edits=[(M, '''        let hex1 = baokeshed::Hash::from(*hash1).to_hex();
        let take = cmp::min(hex_bytes_remaining, hex1.len() as u128);
        print!("{}", &hex1[..take as usize]);
        hex_bytes_remaining -= take;
        let hex2 = baokeshed::Hash::from(*hash2).to_hex();
        let take = cmp::min(hex_bytes_remaining, hex2.len() as u128);
        print!("{}", &hex2[..take as usize]);
        hex_bytes_remaining -= take;''', '''        hex_bytes_remaining -= print_half(hash1, hex_bytes_remaining);
        hex_bytes_remaining -= print_half(hash2, hex_bytes_remaining);'''), (M, 'fn print_hex(', '''/// Prints the digits of `half`, but no more than `limit`, and returns how many.
fn print_half(half: &[u8; baokeshed::OUT_LEN], limit: u128) -> u128 {
    let hex = baokeshed::Hash::from(*half).to_hex();
    let take = if limit < hex.len() as u128 { limit } else { hex.len() as u128 };
    print!("{}", &hex[..take as usize]);
    take
}

fn print_hex(''')]),
 dict(id='bin-parse-key', checks=K, edits=[(M, '''    let key = if let Some(key_str) = args.flag_key.as_ref().or(args.flag_derive_key.as_ref()) {
        let key_bytes = hex::decode(key_str)?;
        if key_bytes.len() != baokeshed::KEY_LEN {
            bail!(
                "keys must be {} bytes, found {}",
                baokeshed::KEY_LEN,
                key_bytes.len()
            );
        }
        let mut key_array = [0; baokeshed::KEY_LEN];
        key_array.copy_from_slice(&key_bytes);
        Some(key_array)
    } else {
        None
    };
''', '''    let key = match args.flag_key.as_ref().or(args.flag_derive_key.as_ref()) {
        Some(key_str) => Some(parse_key(key_str)?),
        None => None,
    };
'''), (M, 'fn hash(args: &Args)', '''fn parse_key(key_str: &str) -> Result<[u8; baokeshed::KEY_LEN]> {
    let key_bytes = hex::decode(key_str)?;
    match <[u8; baokeshed::KEY_LEN]>::try_from(&key_bytes[..]) {
        Ok(key_array) => Ok(key_array),
        Err(_) => bail!(
            "keys must be {} bytes, found {}",
            baokeshed::KEY_LEN,
            key_bytes.len()
        ),
    }
}

fn hash(args: &Args)'''), (M, 'use std::cmp;', 'use std::cmp;\nuse std::convert::TryFrom;')]),
 dict(id='bin-early-return', checks=K, edits=[(M, '''    if !args.arg_inputs.is_empty() {
        let mut did_error = false;''', '''    if args.arg_inputs.is_empty() {
        let mut output = hash_one(&None, key.as_ref(), derive_key)?;
        print_hex(&mut output, byte_length);
        println!();
        return Ok(());
    }
    {
        let mut did_error = false;'''), (M, '''        if did_error {
            std::process::exit(1);
        }
    } else {
        let mut output = hash_one(&None, key.as_ref(), derive_key)?;
        print_hex(&mut output, byte_length);
        println!();
    }
''', '''        if did_error {
            std::process::exit(1);
        }
    }
''')]),
 dict(id='bin-error-count', checks=K, edits=[(M, 'let mut did_error = false;', 'let mut errors = 0usize;'), (M, '                    did_error = true;', '                    errors = errors.saturating_add(1);'), (M, '        if did_error {', '        if errors > 0 {')]),
 dict(id='bin-error-plus', checks=K, edits=[(M, 'let mut did_error = false;', 'let mut errors = 0usize;'), (M, '                    did_error = true;', '                    errors += 1;'), (M, '        if did_error {', '        if errors > 0 {')]),
 dict(id='bin-index-loop', checks=K, edits=[(M, '        for input in args.arg_inputs.iter() {\n', '        let mut next = 0;\n        while next < args.arg_inputs.len() {\n            let input = &args.arg_inputs[next];\n            next += 1;\n')]),
 dict(id='bin-mmap-order', checks=K, edits=[(M, '''    Ok(if !metadata.is_file() {
        // Not a real file.
        None
    } else if metadata.len() > isize::max_value() as u64 {
        // Too long to safely map. https://github.com/danburkert/memmap-rs/issues/69
        None
    } else if metadata.len() == 0 {
        // Mapping an empty file currently fails. https://github.com/danburkert/memmap-rs/issues/72
        None
    } else {
        // Explicitly set the length of the memory map, so that filesystem changes can't race to
        // violate the invariants we just checked.
        let map = unsafe {
            memmap::MmapOptions::new()
                .len(metadata.len() as usize)
                .map(&in_file)?
        };
        Some(map)
    })''', '''    let len = metadata.len();
    if len == 0 || len > isize::max_value() as u64 || !metadata.is_file() {
        return Ok(None);
    }
    let mut options = memmap::MmapOptions::new();
    options.len(len as usize);
    let map = unsafe { options.map(in_file)? };
    Ok(Some(map))''')]),
 dict(id='bin-path-ref', checks=K, edits=[(M, '''            match hash_one(&Some(input.clone()), key.as_ref(), derive_key) {''', '''            match hash_one(Some(input.as_path()), key.as_ref(), derive_key) {'''),
   (M, 'hash_one(&None, key.as_ref(), derive_key)?', 'hash_one(None, key.as_ref(), derive_key)?'),
   (M, '''    maybe_path: &Option<PathBuf>,
    key:''', '''    maybe_path: Option<&Path>,
    key:'''), (M, 'fn open_input(maybe_path: &Option<PathBuf>)', 'fn open_input(maybe_path: Option<&Path>)'),
   (M, 'if let Some(ref path) = path_if_some_and_not_dash(maybe_path) {', 'if let Some(path) = maybe_path.filter(|&path| path != Path::new("-")) {'),
   (M, '''fn path_if_some_and_not_dash(maybe_path: &Option<PathBuf>) -> Option<&Path> {
    if let Some(ref path) = maybe_path {
        if path == Path::new("-") {
            None
        } else {
            Some(path)
        }
    } else {
        None
    }
}

''', '')]),
 dict(id='bin-line-helper', checks=K, edits=[(M, '''                    print_hex(&mut output, byte_length);
                    if args.arg_inputs.len() > 1 {
                        println!("  {}", input_str);
                    } else {
                        println!();
                    }''', '''                    let name = if args.arg_inputs.len() > 1 { Some(&input_str) } else { None };
                    print_line(&mut output, byte_length, name.map(|n| &**n));'''), (M, 'fn hash(args: &Args)', '''fn print_line(output: &mut baokeshed::Output, byte_length: u64, name: Option<&str>) {
    print_hex(output, byte_length);
    match name {
        Some(name) => println!("  {}", name),
        None => println!(),
    }
}

fn hash(args: &Args)''')]),
 dict(id='bin-read-if-let', checks=K, edits=[(M, '''        match *self {
            Input::Stdin => io::stdin().read(buf),
            Input::File(ref mut file) => file.read(buf),
        }''', '''        if let Input::File(file) = self {
            return file.read(buf);
        }
        let stdin = io::stdin();
        let mut lock = stdin.lock();
        lock.read(buf)''')]),
 dict(id='bin-update-map', checks=K, edits=[(M, '''        let output = if let Some(key) = key {
            if derive_key {
                baokeshed::derive_key_xof(key, &map)
            } else {
                baokeshed::keyed_hash_xof(key, &map)
            }
        } else {
            baokeshed::hash_xof(&map)
        };
        Ok(output)
    } else {
        let mut hasher = if let Some(key) = key {
            if derive_key {
                baokeshed::Hasher::new_derive_key(key)
            } else {
                baokeshed::Hasher::new_keyed(key)
            }
        } else {
            baokeshed::Hasher::new()
        };
        baokeshed::copy::copy_wide(&mut input, &mut hasher)?;
        Ok(hasher.finalize_xof())
    }''', '''        let mut hasher = new_hasher(key, derive_key);
        hasher.update(&map);
        Ok(hasher.finalize_xof())
    } else {
        let mut hasher = new_hasher(key, derive_key);
        io::copy(&mut input, &mut hasher)?;
        Ok(hasher.finalize_xof())
    }'''), (M, 'fn print_hex(', '''fn new_hasher(key: Option<&[u8; baokeshed::KEY_LEN]>, derive_key: bool) -> baokeshed::Hasher {
    match key {
        Some(key) if derive_key => baokeshed::Hasher::new_derive_key(key),
        Some(key) => baokeshed::Hasher::new_keyed(key),
        None => baokeshed::Hasher::new(),
    }
}

fn print_hex(''')]),
]
