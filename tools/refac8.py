# behaviour-preserving edits of the command-line tool, the reader loop and the hash type, second set
M, L, CP = 'baokeshed_bin/src/main.rs', 'src/lib.rs', 'src/copy.rs'
B = ['C18', 'C19', 'C20', 'C21', 'C22']
REFAC = [
 dict(id='bin-two-ways', checks=B, edits=[(M, 'FN fn hash_one(', '''fn hash_one(
    maybe_path: &Option<PathBuf>,
    key: Option<&[u8; baokeshed::KEY_LEN]>,
    derive_key: bool,
) -> Result<baokeshed::Output> {
    let input = open_input(maybe_path)?;
    match maybe_memmap_input(&input)? {
        Some(map) => Ok(hash_mapped(&map, key, derive_key)),
        None => hash_streamed(input, key, derive_key),
    }
}

fn hash_mapped(
    map: &[u8],
    key: Option<&[u8; baokeshed::KEY_LEN]>,
    derive_key: bool,
) -> baokeshed::Output {
    match (key, derive_key) {
        (None, _) => baokeshed::hash_xof(map),
        (Some(key), true) => baokeshed::derive_key_xof(key, map),
        (Some(key), false) => baokeshed::keyed_hash_xof(key, map),
    }
}

fn hash_streamed(
    mut input: Input,
    key: Option<&[u8; baokeshed::KEY_LEN]>,
    derive_key: bool,
) -> Result<baokeshed::Output> {
    let mut hasher = match (key, derive_key) {
        (None, _) => baokeshed::Hasher::new(),
        (Some(key), true) => baokeshed::Hasher::new_derive_key(key),
        (Some(key), false) => baokeshed::Hasher::new_keyed(key),
    };
    baokeshed::copy::copy_wide(&mut input, &mut hasher)?;
    Ok(hasher.finalize_xof())
}''')]),
 dict(id='bin-mmap-len', checks=['C18', 'C22'], edits=[(M, '''    Ok(if !metadata.is_file() {
        // Not a real file.
        None
    } else if metadata.len() > isize::max_value() as u64 {
        // Too long to safely map. https://github.com/danburkert/memmap-rs/issues/69
        None
    } else if metadata.len() == 0 {
        // Mapping an empty file currently fails. https://github.com/danburkert/memmap-rs/issues/72
        None
    } else {
        // Explicitly set the length of the memory map, so that filesystem changes can't race to
        // violate the invariants we just checked.
        let map = unsafe {
            memmap::MmapOptions::new()
                .len(metadata.len() as usize)
                .map(&in_file)?
        };
        Some(map)
    })
''', '''    let len = metadata.len();
    let can_map = metadata.is_file() && len > 0 && len <= isize::max_value() as u64;
    if !can_map {
        return Ok(None);
    }
    let mut options = memmap::MmapOptions::new();
    options.len(len as usize);
    let map = unsafe { options.map(in_file) }?;
    Ok(Some(map))
''')]),
 dict(id='bin-suffix', checks=['C18', 'C19', 'C20'], edits=[(M, '''        for input in args.arg_inputs.iter() {
            let input_str''', '''        let several = args.arg_inputs.len() > 1;
        for input in &args.arg_inputs {
            let input_str'''), (M, '''                    if args.arg_inputs.len() > 1 {
                        println!("  {}", input_str);
                    } else {
                        println!();
                    }
''', '''                    let suffix = if several {
                        format!("  {}", input_str)
                    } else {
                        String::new()
                    };
                    println!("{}", suffix);
''')]),
 dict(id='bin-error-helper', checks=['C18', 'C19', 'C20'], edits=[(M, '''            match hash_one(&Some(input.clone()), key.as_ref(), derive_key) {
                Ok(mut output) => {
                    print_hex(&mut output, byte_length);
                    if args.arg_inputs.len() > 1 {
                        println!("  {}", input_str);
                    } else {
                        println!();
                    }
                }
                Err(e) => {
                    did_error = true;
                    println!("bao: {}: {}", input_str, e);
                }
            }
''', '''            let result = hash_one(&Some(input.clone()), key.as_ref(), derive_key);
            did_error |= result.is_err();
            match result {
                Err(e) => println!("bao: {}: {}", input_str, e),
                Ok(mut output) => {
                    print_hex(&mut output, byte_length);
                    match args.arg_inputs.len() {
                        1 => println!(),
                        _ => println!("  {}", input_str),
                    }
                }
            }
''')]),
 dict(id='bin-key-match', checks=['C18', 'C19', 'C21'], edits=[(M, '''        let key_bytes = hex::decode(key_str)?;
        if key_bytes.len() != baokeshed::KEY_LEN {
            bail!(
                "keys must be {} bytes, found {}",
                baokeshed::KEY_LEN,
                key_bytes.len()
            );
        }
        let mut key_array = [0; baokeshed::KEY_LEN];
        key_array.copy_from_slice(&key_bytes);
        Some(key_array)
''', '''        let key_bytes = match hex::decode(key_str) {
            Ok(bytes) => bytes,
            Err(e) => return Err(e.into()),
        };
        let mut key_array = [0; baokeshed::KEY_LEN];
        if key_bytes.len() == key_array.len() {
            key_array.copy_from_slice(&key_bytes[..]);
        } else {
            bail!(
                "keys must be {} bytes, found {}",
                baokeshed::KEY_LEN,
                key_bytes.len()
            );
        }
        Some(key_array)
''')]),
 dict(id='bin-hash-all', checks=B, edits=[(M, '''        let mut output = hash_one(&None, key.as_ref(), derive_key)?;
        print_hex(&mut output, byte_length);
        println!();
''', '''        print_stdin_hash(key.as_ref(), derive_key, byte_length)?;
'''), (M, '''fn open_input(''', '''fn print_stdin_hash(
    key: Option<&[u8; baokeshed::KEY_LEN]>,
    derive_key: bool,
    byte_length: u64,
) -> Result<()> {
    let mut output = hash_one(&None, key, derive_key)?;
    print_hex(&mut output, byte_length);
    println!();
    Ok(())
}

fn open_input('''), (M, '''    if args.flag_help {
        print!("{}", USAGE);
    } else if args.flag_version {
        println!("{}", VERSION);
    } else {
        hash(&args)?;
    }

    Ok(())
''', '''    if args.flag_help {
        print!("{}", USAGE);
        return Ok(());
    }
    if args.flag_version {
        println!("{}", VERSION);
        return Ok(());
    }
    hash(&args)
''')]),
 dict(id='bin-open-match', checks=['C18', 'C19', 'C22'], edits=[(M, 'FN fn open_input(', '''fn open_input(maybe_path: &Option<PathBuf>) -> Result<Input> {
    match path_if_some_and_not_dash(maybe_path) {
        None => Ok(Input::Stdin),
        Some(path) => {
            let file = File::open(path)?;
            Ok(Input::File(file))
        }
    }
}'''), (M, 'FN fn path_if_some_and_not_dash(', '''fn path_if_some_and_not_dash(maybe_path: &Option<PathBuf>) -> Option<&Path> {
    match maybe_path {
        Some(path) if path != Path::new("-") => Some(path),
        _ => None,
    }
}'''), (M, '''        match *self {
            Input::Stdin => io::stdin().read(buf),
            Input::File(ref mut file) => file.read(buf),
        }
''', '''        match self {
            Input::File(file) => file.read(buf),
            Input::Stdin => io::stdin().lock().read(buf),
        }
''')]),
 dict(id='hex-chars', checks=['C23', 'C14'], edits=[(L, '''        let table = b"0123456789abcdef";
        for &b in self.0.iter() {
            s.push(table[(b >> 4) as usize] as char);
            s.push(table[(b & 0xf) as usize] as char);
        }
''', '''        const DIGITS: &[u8; 16] = b"0123456789abcdef";
        for i in 0..OUT_LEN {
            let b = self.0[i];
            for nibble in &[b / 16, b % 16] {
                s.push(char::from(DIGITS[usize::from(*nibble)]));
            }
        }
''')]),
 dict(id='output-read-helper', checks=['C06', 'C10', 'C11'], edits=[(L, '''        self.offset += 2 * OUT_LEN as u64;
        output
    }
''', '''        self.advance();
        output
    }

    fn advance(&mut self) {
        self.offset += (2 * OUT_LEN) as u64;
    }
''')]),
 dict(id='words-loop', checks=['C05', 'C23'], edits=[(L, '''        *refs.0 = words[0].to_le_bytes();
        *refs.1 = words[1].to_le_bytes();
        *refs.2 = words[2].to_le_bytes();
        *refs.3 = words[3].to_le_bytes();
        *refs.4 = words[4].to_le_bytes();
        *refs.5 = words[5].to_le_bytes();
        *refs.6 = words[6].to_le_bytes();
        *refs.7 = words[7].to_le_bytes();
''', '''        let slots = [refs.0, refs.1, refs.2, refs.3, refs.4, refs.5, refs.6, refs.7];
        let mut i = 0;
        for slot in slots {
            *slot = words[i].to_le_bytes();
            i += 1;
        }
''')]),
]
