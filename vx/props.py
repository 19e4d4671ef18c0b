"""Which contracts each property rests on. UNITS: unit -> regex over function ids / lemma names
(the closure of the functions the property depends on). NATIVE: the module that runs the same
contracts on the compiled code."""
PRIMR = r"rbytes::Rbuff::extract_(const_n|as_array|n)|rbytes::RBuffer::(new|len|pos|is_empty|set_pos|skip|rewind|read_([iuf]\d+|bool))"
ARRR = r"rbytes::RBuffer::read_array_.*"
PRIMW = r"rbytes::Wbuff::write_array_u8|rbytes::WBuffer::(new|len|p|pos|buffer|offset|clear|write_([iuf]\d+|bool))"
ARRW = r"rbytes::WBuffer::write_array_.*"
COMPP = r"rbytes::(Unm|M)arshaler for ([iuf]\d+|bool)::.*|rbytes::UnmarshalerInto.*|rbytes::RBuffer::read_object(_into)?|rbytes::WBuffer::write_object"
BASE = r"rbase::.*|rcolors::.*|lemma_(framed|heap_bit|size)|acc_patch|round_trip|modes"
LEAF = r"rtree::.*(Leaf|leaf).*|lemma_(framed|size)|acc_patch|round_trip|modes"
SKIP = r"rbytes::RBuffer::(set_skip_header|skip_header|do_skip_header)"
STR = r"rbytes::RBuffer::read_string|rbytes::WBuffer::write_string|rbytes::(Unm|M)arshaler for String::.*"
CSTR = r"rbytes::Rbuff::extract_until|rbytes::RBuffer::read_cstring|rbytes::WBuffer::write_cstring"
CONT = r"rbytes::(Unm|M)arshaler for (Vec|\[T|HashSet|HashMap).*"
HDR = r"rbytes::RBuffer::read_header|rbytes::WBuffer::(write_header|set_header|write_in_place)|rbytes::Wbuff::write_in_place"
POLY = r"rbytes::strkey::(WBuffer|RBuffer)::.*|rbytes::WBuffer::write_object_nil"
VERS = r".*ensure_(maximum|minimum)_supported_version"
LW = r"lemma_(w8|w16|w32|w64|from_at|starts_.*|bool_bits|consumed|appended|took|utf8_inj|used)|enc_.*"
RIO = r"acc_.*|rd_.*|empty_add|signed_words|fixed_round|lemma_(str_bound|starts_concat)|enc_.*"
DATE = r"riofs::(now|datetime_to_u32|u32_to_datetime)|lemma_pack|lemma_datetime_round"
KEYC = r"riofs::(Unm|M)arshaler for Key::.*|riofs::(Default|traits::Object|Named) for Key::.*|root::traits::.*|round_trip|modes"
KEYN = r"riofs::key_len_for|riofs::Key::(?!load|bytes).*|lemma_(key_size|record)|rcompress::(root_compress_algo_level|compress)"
LOAD = r"riofs::Key::(load|bytes)|rcompress::(decompress|kind_of)|lemma_(two_blocks|three|loaded_back)"
DIRC = r"riofs::(Unm|M)arshaler for TDirectoryFile::.*|riofs::Default for TDirectory.*|riofs::TDirectory(File)?::(new|dir|keys|named|is_big_file|record_size)|lemma_dir_fits|round_trip|modes"
DIRW = r"riofs::TDirectoryFile::(save_keys|write_header|save|close)|lemma_keys_len"
FREE = r"riofs::(Unm|M)arshaler for FreeSegments::.*|riofs::FreeSegments::.*|riofs::FreeList::.*|round_trip|modes"
DISK = r"riofs::RootFile(Writer|Reader)::.*"
FILE = r"riofs::RootFile(Header)?::(n_bytes_name|version|begin|end|dir|mut_dir|is_big_file|compression|writer|write_at|set_end|title)"
FHDR = r"riofs::RootFile::(write_header|create)|lemma_(magic|header_file_round|headed)"
CLOSE = r"riofs::RootFile::(close|write_streamer_info|write_free_segments|write_header|add_streamer_info|find_deep_streamer)|lemma_list_names"
BASK = r"tree::(.*(Basket|WBasket)(::| for ).*|Branch::(name|tbranch)|TBranch::.*|Named for .*|From<.*)|lemma_(payload|joined|push|stored|head|start.*|ok.*|i32_at|table|load_back|raw_back|basket_back|entry)|enc_.*"
RCL = r"lemma_(more|front|nothing|found|found_all|record|read_one|read_back|reads|stands|setup|one_more|from_first|growing|later|prefix_of)$"
RCONT = r"rcont::.*|" + RCL
BRL = r"lemma_(hands|chunk_back|ordered|tame|values|pos|typed)$|vx_windows"
NRC = r"|(?!" + RCL + "|" + BRL + r")lemma_.*"
ACCT = r"tree::(Branch::.*|TBranch::.*|From<.*|WBranch<T>::.*|.* for (WBranch|TBranch|TBranchElement).*|WBasket::.*|Basket::.*)" + NRC
TREE = r"tree::.*" + NRC
PROPS = {
    "C01": dict(units={"u_rbytes": [PRIMR, ARRR, PRIMW, ARRW, COMPP, LW, r"round_trip|modes"]}, native=True),
    "C02": dict(units={"u_rbytes": [PRIMR, PRIMW, r"rbytes::WBuffer::write_array_u8|rbytes::RBuffer::read_array_u8", STR, CSTR, COMPP, LW, r"round_trip|modes|lemma_enc_str|lemma_count_word"]}, native=True),
    "C03": dict(units={"u_rbytes": [PRIMR, PRIMW, COMPP, STR, SKIP, CONT, LW, r"round_trip|modes|lemma_list.*|lemma_enc_str|lemma_hdr_skip|list_.*|map_of|set_of"]}, native=True),
    "C04": dict(units={"u_rbytes": [PRIMR, PRIMW, HDR, LW, r"lemma_header_round|lemma_count_.*|lemma_patch_.*|lemma_mask|lemma_ormask"]}, native=True),
    "C05": dict(units={"u_rbytes": [PRIMR, PRIMW, CSTR, HDR, POLY, LW, r"lemma_(tag.*|protocol|extends_refs|class_at|object_at|mask|ormask|count_.*|ap_ext|ext_trans|keep|has_ref|patch_.*)"]}, native=True),
    "C11": dict(units={"u_tree": [BASK], "u_riofs": [PRIMR, PRIMW, KEYN, KEYC, LOAD, DISK, FILE]}, native=True),
    "C13": dict(units={"u_riofs": [LOAD, DISK, PRIMR, r"riofs::Key::(is_compressed|obj_len|key_len|n_bytes|seek_key|buffer).*|riofs::Unmarshaler for Key::.*", LW], "u_tree": [r"tree::Basket::.*|tree::Unmarshaler for Basket::.*|lemma_(i32_at|table|head_back|load_back|raw_back|basket_back|entry|two_blocks|three|loaded_back)|rcompress::.*"]}, native=True),
    "C24": dict(units={"u_tree": [r"branch::.*|tree::Basket::.*|tree::Unmarshaler for Basket::.*|" + BRL + r"|lemma_(i32_at|table|head_back|load_back|raw_back|basket_back|entry)$"], "u_riofs": [LOAD, DISK, PRIMR, KEYC, LW], "u_rbytes": [SKIP, COMPP, r"rbytes::RBuffer::read_object(_into)?|round_trip|modes"], "u_rtree": [r"rtree::Leaf::etype"]}, native=True),
    "C12": dict(units={"u_tree": [ACCT], "u_riofs": [PRIMW, KEYN, DISK, FILE]}, native=True),
    "C15": dict(units={"u_tree": [TREE], "u_riofs": [PRIMW, KEYN, KEYC, DISK, FILE, r"riofs::RootFile::put"], "u_rtree": [LEAF], "u_rbytes": [PRIMR, PRIMW, COMPP, STR, CONT, SKIP, LW]}, native=True),
    "C21": dict(units={"u_tree": [RCONT], "u_rtree": [r"rbase::.* for Object::.*|rbase::Object::.*"], "u_rbytes": [PRIMR, PRIMW, STR, CSTR, HDR, POLY, VERS, LW, r"rbytes::RBuffer::read_object|rbytes::WBuffer::write_object|lemma_(tag.*|protocol|extends_refs|class_at|object_at|mask|ormask|count_.*|ap_ext|ext_trans|keep|has_ref|patch_.*)"]}, native=True),
    "C14": dict(units={"u_rbytes": [VERS, PRIMR, r"rbytes::RBuffer::read_header"], "u_rtree": [r"(rbase|rtree)::Unmarshaler for .*"], "u_tree": [r"(tree|rcont)::Unmarshaler for .*"]}, native=True),
    "C06": dict(units={"u_riofs": [PRIMR, PRIMW, STR, DATE, KEYC, KEYN, LW, RIO]}, native=True),
    "C07": dict(units={"u_riofs": [PRIMW, KEYN, DISK, FILE, DIRW, FREE, FHDR, CLOSE, r"riofs::RootFile::put|riofs::Marshaler for .*", LW, RIO]}, native=True),
    "C08": dict(units={"u_riofs": [PRIMW, DISK, FILE, FHDR, CLOSE, LW, RIO]}, native=True),
    "C09": dict(units={"u_riofs": [PRIMR, PRIMW, DATE, KEYC, KEYN, DIRC, DIRW, DISK, FILE, r"riofs::RootFile::(put|close)", LW, RIO]}, native=True),
    "C10": dict(units={"u_riofs": [PRIMR, PRIMW, FREE, KEYN, FILE, r"riofs::RootFile::write_free_segments", LW, RIO]}, native=True),
    "C17": dict(units={"u_riofs": [DATE, r"riofs::(Unm|M)arshaler for (Key|TDirectoryFile)::.*", PRIMR, PRIMW, LW, RIO, r"round_trip|modes"]}, native=True),
    "C19": dict(units={"u_rtree": [BASE, r"rtree::.*TioFeatures.*|lemma_features"], "u_rbytes": [PRIMR, PRIMW, STR, HDR, COMPP, LW]}, native=True),
    "C22": dict(units={"u_rtree": [r"rcolors::.*|rmeta::.*"]}, native=True),
    "C23": dict(units={"u_rtree": [LEAF, r"rbase::.*(Named|Object)::.*"], "u_rbytes": [PRIMR, PRIMW, STR, HDR, COMPP, LW]}, native=True),
    "C20": dict(units={"u_riofs": [KEYN, KEYC, FILE, r"riofs::RootFile::(put|add_streamer_info|find_deep_streamer)"]}, native=True),
    "C25": dict(units={"u_riofs": [r"rcompress::(root_compress_algo_level|compress)", r"riofs::Key::(?!load|bytes).*", r"riofs::RootFile(Header)?::compression"]}, native=True),
}
