# planted bugs in the command-line tool
M = 'baokeshed_bin/src/main.rs'
HEAD = '''#!/bin/bash
# exits 0 when the tree behaves, nonzero otherwise
R=${REPO:-/repo}
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
CARGO_TARGET_DIR="$T/target" cargo build -q --offline --release --manifest-path "$R/baokeshed_bin/Cargo.toml" 2>"$T/err" || { cat "$T/err"; exit 3; }
B="$T/target/release/baokeshed"
cd "$T" || exit 2
K=000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f
'''
SEEDS = [
 dict(id='bin-derive-stdin-only', property='C18', demo=None,
  edits=[(M, '''            if derive_key {
                baokeshed::Hasher::new_derive_key(key)''', '''            if derive_key && maybe_path.is_none() {
                baokeshed::Hasher::new_derive_key(key)''')],
  needs='--derive-key with an input named on the command line that cannot be mapped: "-", a pipe or an empty file',
  breaks='such inputs are hashed in keyed mode instead of key derivation mode',
  sh=HEAD + '''printf hello > f
mkfifo p
cat f > p &
A=$("$B" --derive-key=$K f p | cut -d' ' -f1 | sort -u | wc -l)
[ "$A" = 1 ]
'''),
 dict(id='bin-dash-anywhere', property='C18', demo=None,
  edits=[(M, '        if path == Path::new("-") {', '        if path.file_name() == Some("-".as_ref()) {')],
  needs='a file named "-" given with a directory, such as ./-',
  breaks='the file ./- is not hashed; standard input is hashed in its place',
  sh=HEAD + '''printf hello > ./-
A=$(printf other | "$B" ./-)
C=$(printf hello | "$B")
[ "$A" = "$C" ]
'''),
 dict(id='bin-error-forgotten', property='C19', demo=None,
  edits=[(M, '''                Ok(mut output) => {
                    print_hex(&mut output, byte_length);''', '''                Ok(mut output) => {
                    did_error = false;
                    print_hex(&mut output, byte_length);''')],
  needs='several inputs of which one fails and a later one succeeds',
  breaks='the tool exits with success although an input could not be read',
  sh=HEAD + '''printf hello > f
if "$B" f missing f > out; then exit 1; fi
[ $(wc -l < out) = 3 ]
'''),
 dict(id='bin-read-error-ignored', property='C19', demo=None,
  edits=[(M, '        baokeshed::copy::copy_wide(&mut input, &mut hasher)?;', '''        if let Err(e) = baokeshed::copy::copy_wide(&mut input, &mut hasher) {
            // Files that shrink or vanish while being read are treated as ending early.
            if maybe_path.is_none() {
                return Err(e.into());
            }
        }''')],
  needs='a named input whose opening succeeds and whose reading fails, such as a directory',
  breaks='a hash is printed for an input that could not be read, and the exit status is zero',
  sh=HEAD + '''mkdir d
if "$B" d > out; then exit 1; fi
! grep -q '^[0-9a-f]\\{64\\}' out
'''),
 dict(id='bin-stop-at-unreadable', property='C19', demo=None,
  edits=[(M, '''                    did_error = true;
                    println!("bao: {}: {}", input_str, e);''', '''                    did_error = true;
                    println!("bao: {}: {}", input_str, e);
                    if e.downcast_ref::<io::Error>().map(io::Error::kind) != Some(io::ErrorKind::NotFound) {
                        break;
                    }''')],
  needs='an input that fails with something else than "not found" (a directory), followed by further inputs',
  breaks='the inputs after the failing one are not processed',
  sh=HEAD + '''printf hello > f
mkdir d
"$B" f d f missing f > out
[ $? != 0 ] && [ $(grep -c '^[0-9a-f]\\{64\\}' out) = 3 ]
'''),
 dict(id='bin-length-u32', property='C20', demo=None,
  edits=[(M, 'args.flag_length.unwrap_or(baokeshed::OUT_LEN as u64);', 'args.flag_length.map(|n| u64::from(n as u32)).unwrap_or(baokeshed::OUT_LEN as u64);')],
  needs='an output length of 2^32 bytes or more',
  breaks='the length is reduced modulo 2^32',
  sh=HEAD + '''N=$(printf hello | "$B" --length=4294967300 2>/dev/null | head -c 1000 | wc -c)
[ "$N" = 1000 ]
'''),
 dict(id='bin-long-key-cut', property='C21', demo=None,
  edits=[(M, 'if key_bytes.len() != baokeshed::KEY_LEN {', 'if key_bytes.len() < baokeshed::KEY_LEN {'),
         (M, 'key_array.copy_from_slice(&key_bytes);', 'key_array.copy_from_slice(&key_bytes[..baokeshed::KEY_LEN]);')],
  needs='a key option of more than 64 hexadecimal digits',
  breaks='a longer key is cut to 32 bytes instead of rejected',
  sh=HEAD + '''if printf hello | "$B" --key=${K}00 > out; then exit 1; fi
[ ! -s out ]
'''),
 dict(id='bin-map-u32', property='C22', demo=None,
  edits=[(M, '.len(metadata.len() as usize)', '.len(metadata.len() as u32 as usize)')],
  needs='a regular file of more than 4 GiB',
  breaks='only the size modulo 2^32 of the file is mapped and hashed',
  sh=HEAD + '''truncate -s 4294967301 f || exit 2
A=$("$B" f)
C=$("$B" < f)
[ "$A" = "$C" ]
'''),
]
