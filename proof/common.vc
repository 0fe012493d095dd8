// Renamings common to all files.
#type String => Vec<u8>
#type str => [u8]
#type Bytes => Vec<u8>
#type OsString => Vec<u8>
#type OsStr => [u8]
#type BytesMut => Vec<u8>
#type Box<error::Error+Send+Sync> => BoxErr
#path std::cmp::min cmp::min
#path std::cmp::max cmp::max
#path core::cmp::min cmp::min
#path core::cmp::max cmp::max
#method to_vec xto_vec
#method to_string xdisplay
#method reverse xreverse
#method is_empty xis_empty
#method into xinto
#method as_bytes xslice
#method as_str xslice
#path BytesMut::new Vec::new
#path String::from xbytes_from
#path OsString::from xbytes_from
#path Bytes::from xbytes_from
#method downcast_ref xdowncast_ref
#method open xopen
#method is_ascii_digit xis_ascii_digit
#method is_ascii_whitespace xis_ascii_whitespace
#method is_ascii_uppercase xis_ascii_uppercase
#method is_ascii_lowercase xis_ascii_lowercase
#method is_ascii_hexdigit xis_ascii_hexdigit
#method to_ascii_lowercase xto_ascii_lowercase
#moving persist
#option ok
#option get
#option var_os
#option single
#option parent
#option name target shorthand value_of insert pop first last
#result get_string get_bool get_path config
#effect fs::metadata
#effect File::open
#effect File::xopen
#effect .xopen
#effect .open
#effect .metadata
#effect .is_file
#effect .exists
#effect .tempfile_in
#effect .persist
#effect fs::create_dir_all
#effect fs::set_permissions
#effect fs::hard_link
#effect fs::remove_file
#effect fs::read_dir
#effect fs::write
#effect fs::copy
#effect fs::rename
#effect fs::remove_dir_all
#effect File::create
#effect .xdrop
#effect libc::umask
#type HashMap => BTreeMap
#path HashMap::new BTreeMap::new
#type libc::mode_t => u32
#path u16::from_str_radix xradix_u16
#pure .read .write .next .flush .id .new .path .iter
#path fs::File::open fs::File::xopen
#type Path => PathBuf
#path File::open fs::File::xopen
