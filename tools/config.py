"""What each check depends on."""
T = ['Verus 0.2026.09.13 and Z3', 'vx: the extraction rules of DESIGN.md (what they drop is listed there)', 'vstd specifications of Vec, VecDeque, slices and integer operations']
KT = ['Kani 0.68 / CBMC 6.11 bit-precise semantics of Rust, its SAT and SMT back ends']
STORE = 'bit positions stay below 2^60 (the store cannot be that big in memory); usize has 64 bits'
CHECKS = {
    'C09': dict(specs=['base', 'bits'], native=['inner'],
        roots=['BitStream::new', 'BitStream::write_bits', 'BitStream::write_bit', 'BitStream::peek_bits', 'BitStream::read_bits', 'BitStream::read_bit', 'BitStream::peek', 'BitStream::read', 'BitStream::write', 'BitStream::set_bit_cursor', 'BitStream::bit_cursor', 'BitStream::seek_start', 'BitStream::capacity_upperbound'],
        trusted=T, assumptions=[STORE]),
    'C10': dict(specs=['base', 'bits'], native=['inner'], roots=['BitStream::write_compressed', 'BitStream::read_compressed'], trusted=T, assumptions=[STORE]),
    'C11': dict(specs=['base', 'bits', 'meta', 'headers'], native=['inner'],
        roots=['FrameHeaders::new', 'FrameHeaders::push', 'FrameHeaders::get', 'FrameHeaders as Iterator::next', 'FrameHeaders::set_cursor', 'FrameHeaders::reset', 'FrameHeaders::len'],
        trusted=T, assumptions=['fewer than 2^32 frames; usize has 64 bits']),
    'C17': dict(specs=[], coq=['mono'], kani=['leaf_truncate_value', 'route_truncate_is_product', 'leaf_clamp_monotone', 'leaf_cast_monotone', 'leaf_normalize_unclamped', 'leaf_normalize_value', 'leaf_normalize_monotone'], roots=[], native=['api'],
        trusted=KT, assumptions=['the conversions are those of codec.rs; that every encoder and decoder uses them is part of C01 and C12']),
    'C21': dict(specs=['stack'], native=['inner'], roots=['CircularStack::' + f for f in ('new', 'push', 'pop', 'prev', 'len', 'is_empty')], trusted=T, assumptions=[]),
    'C22': dict(specs=['queue'], native=['inner'], roots=['FixedRingBuffer::' + f for f in ('new', 'len', 'is_full', 'is_empty', 'push_front', 'push_rear', 'pop_front', 'pop_rear', 'clear', 'iter')],
        trusted=T + ['the backing store is instantiated with Vec<T> (rule R14): any backing whose Index and IndexMut behave like an array acts the same'], assumptions=['the backing holds at least `capacity` items, as the caller of new promises']),
    'C23': dict(specs=['base', 'list'], native=['inner'], roots=['LinkedList::' + f for f in ('new', 'len', 'front', 'rear', 'push_front', 'push_rear', 'pop_front', 'pop_rear', 'insert_at', 'remove_at', 'allocate', 'free', 'get', 'get_mut', 'iter')] + ['LinkedListIterator::new', 'LinkedListIterator as Iterator::next', 'Ptr::as_usize', 'Ptr as From<usize>::from', 'Node as From::from', 'Node::set_data', 'Node::nullify', 'Node::data', 'Node::data_mut'],
        trusted=T + ['derive(PartialEq) of Ptr and InsertDirection compares their fields', 'Iterator::map applies its function to every item'], assumptions=['fewer than 2^32 - 1 items; pointers given to insert_at and remove_at are those of items in the list (or NULL for insert_at)', 'iter_mut is unsafe code: compared with the model by the bounded search only']),
    'C24': dict(specs=['base', 'list', 'lru'], native=['inner'], roots=['LruCache::' + f for f in ('new', 'len', 'lookup', 'get', 'get_mut', 'remove', 'put', 'raise_key')] + ['LinkedList::' + f for f in ('new', 'len', 'front', 'rear', 'push_front', 'pop_rear', 'insert_at', 'remove_at', 'allocate', 'free')],
        trusted=T + ['vstd specification of HashMap (new, get, insert, remove); get_mut as contracted in contracts/lru.vspec', 'derive(PartialEq) of Ptr compares its field'], assumptions=['keys compare, hash and clone as equal values do (obeys_key_model); the capacity is from 1 to 2^32 - 1']),
    'C25': dict(specs=['base', 'meta'], native=['inner'], roots=['NibbleList::' + f for f in ('new', 'len', 'is_empty', 'push', 'get', 'set', 'truncate', 'clear', 'iter')] + ['BitVec::' + f for f in ('new', 'len', 'push', 'get', 'set', 'truncate', 'clear', 'iter')],
        trusted=T + ['Iterator::map over a range applies its function to every number of it'], assumptions=['fewer than 2^32 - 1 items; a nibble handed over is at most 15; the place handed to set is that of an item']),
}
# ---- the codec: client programs (contracts/clients.vspec) are the properties; these are the functions they rest on
_AD = ['base', 'bits', 'meta', 'stack', 'headers', 'leaf', 'float', 'info', 'frame', 'rec', 'codec', 'clients']
_LEAF = ['leaf_int_float', 'leaf_truncate_value', 'leaf_normalize_unclamped', 'leaf_parabola_coefs', 'leaf_parabola_eval']
_S = 'AdhocCodec as Streamable::'
_MAKE = ['AdhocCodec::new', 'AdhocCodec::with_info', 'AdhocCodec::set_info', 'AdhocCodec::with_compression_level']
_REC = _MAKE + [_S + 'encode', _S + 'info', 'AdhocCodec::init']
FLOATS = 'arithmetic on f32 is deterministic and never panics; what is claimed about its values is decided by Kani on the real operations (leaf harnesses)'
LIMITS = 'a recording has fewer than 2^58 bits and 2^32 frames'
DAMAGED = 'a damaged stream has fewer than 2^48 bits'
def _ad(roots, kani=(), **k): return dict(dict(specs=_AD, kani=_LEAF + list(kani), roots=roots, native=['api'], always=10, trusted=T + KT, assumptions=[STORE, FLOATS, LIMITS]), **k)
IO = 'a `Write` that bincode has written to without an error holds the derived encoding of the value (lengths as 8 bytes, fields in order), a `Read` gives back what was written, and what bincode returns for any bytes is not longer in its own encoding than they are'
CAP = 'a vector has a capacity below 2^48'
_SER = ['BitStream', 'BitVec', 'NibbleList', 'FrameHeaders', 'AudioStream', 'StreamInfo']
_SAVE = ['AdhocCodec::save_to', 'AdhocCodec::load', 'FrameHeaders::is_valid']
_SIZE = ['AdhocCodec::filesize_upperbound', _S + 'filesize_upperbound', 'FrameHeaders::calculate_weight_upperbound', 'BitStream::capacity_upperbound']
_BIN = ['bincode 1.3 (serialize_into, deserialize_from), serde_derive', 'the layout of [i16; 3] and StreamInfo (sizes)']
def _io(roots, **k):
    d = dict(specs=_AD + ['io'], serde=_SER, trusted=T + KT + _BIN, assumptions=[STORE, FLOATS, LIMITS, IO, CAP])
    return _ad(roots, **dict(d, **k))
CHECKS['C01'] = _ad(_REC + [_S + 'decode'], ['leaf_noise_unit', 'leaf_level0_identity', 'leaf_scale_one'])
CHECKS['C02'] = _ad(_REC + [_S + 'decode'], ['leaf_noise_unit', 'leaf_dither_small'] + ['leaf_lossy_l%02d' % i for i in range(1, 11)])
CHECKS['C03'] = _ad(_REC + [_S + 'decode'])
CHECKS['C04'] = _io(_REC + _SAVE + [_S + 'decode', _S + 'seek'], always=20)
CHECKS['C05'] = _io(_REC + _SAVE + [_S + 'decode', _S + 'seek'], always=20)
CHECKS['C06'] = _io(_REC + _SAVE + [_S + 'decode', _S + 'seek'], always=20)
CHECKS['C07'] = _io(_REC + _SAVE + _SIZE, always=20)
CHECKS['C08'] = _ad([_S + 'encode'], native=['api', 'inner'])
CHECKS['C18'] = _io(_SAVE + _SIZE + [_S + 'decode', _S + 'seek', 'AdhocCodec::calculate_sample_count_per_channel'], always=20)
CHECKS['C18']['assumptions'] += [DAMAGED]
CHECKS['C19'] = _io(_REC + _SAVE + [_S + 'decode', _S + 'seek', 'AdhocCodec::calculate_sample_count_per_channel'], always=20)
_W = 'WavCodec as Streamable::'
WAVIO = 'std::io: Write::write_all writes everything or reports an error; Read::take/read_to_end deliver what the source holds from the position on, Seek::seek(Start) moves there'
WAVLIM = 'fewer than 2^63 bytes of samples in memory; for saving: what the fields of a WAV header can hold (at most 32767 channels, byte rate and sizes below 2^32); for loading a saved file back: the header does not spell "data" by coincidence (shown for up to 255 channels, rate * channels < 2^27, less than 1 GB)'
def _wav(roots, **k):
    return dict(dict(specs=['base', 'leaf', 'float', 'info', 'wav', 'wavclients'], kani=['leaf_truncate_value', 'leaf_normalize_value', 'wav_header_bytes', 'wav_header_bytes_mut', 'leaf_wav_rewind', 'leaf_wav_wide'],
        roots=[_W + r if r in ('encode', 'decode', 'seek', 'filesize_upperbound') else 'WavCodec::' + r for r in roots], native=['api'], always=10,
        trusted=T + KT + ['std::io and byte order functions of core, as contracted in contracts/wav.vspec'], assumptions=[FLOATS, WAVIO, WAVLIM]), **k)
CHECKS['C12'] = _wav(['new', 'encode', 'decode', 'seek', 'save_to', 'load'])
CHECKS['C13'] = _wav(['save_to', 'encode'])
CHECKS['C14'] = _wav(['load', 'encode', 'decode', 'seek'])
CHECKS['C15'] = _wav(['seek', 'decode', 'encode'])
CHECKS['C16'] = _wav(['encode', 'seek', 'decode'])
CHECKS['C07']['specs'] = _AD + ['io', 'wav', 'wavclients']
CHECKS['C07']['kani'] = CHECKS['C07']['kani'] + ['wav_header_bytes']
CHECKS['C07']['roots'] += [_W + 'filesize_upperbound', 'WavCodec::save_to']
CHECKS['C07']['assumptions'] += [WAVIO]
FS = 'std::path and std::fs as contracted in contracts/cli.vspec: the stem and the extension of a name, joining names, a file that was made is left with what was written to it and one that is opened gives what it holds'
CHECKS['C20'] = _io(['convert_file', 'convert_wav_to_adhoc', 'convert_adhoc_to_wav'] + _REC + ['AdhocCodec::save_to', 'AdhocCodec::load', _S + 'decode'] + ['WavCodec::load', 'WavCodec::save_to', 'WavCodec::new', _W + 'encode', _W + 'decode', _W + 'info'],
    specs=_AD + ['io', 'wav', 'wavclients', 'cli'], native=['cli'], always=20,
    kani=['leaf_noise_unit', 'leaf_level0_identity', 'leaf_scale_one', 'leaf_pcm_near', 'leaf_normalize_value', 'leaf_dither_small', 'wav_header_bytes', 'wav_header_bytes_mut', 'leaf_wav_rewind', 'leaf_wav_wide'] + ['leaf_lossy_l%02d' % i for i in range(1, 11)],
    assumptions=[STORE, FLOATS, LIMITS, IO, CAP, WAVIO, FS, 'a WAV file below 1.75 GB whose rate * channels * 2 fits a header'],
    partial='the command line itself (clap: which files, directory and level are handed to convert_file; rayon: every file in its turn)')
# property -> technique, level note (for MANIFEST.json)
NOTES = {
    'C09': 'Every function of the bit store is verified by Verus against contracts over the store seen as a function from bit positions to bits; unbounded in positions, contents and histories.',
    'C10': 'write_compressed and read_compressed verified by Verus: for every residual, parameter 0..15, position and earlier contents.',
    'C11': 'FrameHeaders with its nibble and bit lists verified by Verus against a list of entries.',
    'C17': 'Kani decides the conversions bit-precisely for all 2^32 floats and all 16-bit values (function contract on truncate_sample and loop-free lemmas); monotonicity of the rounded product is a Flocq lemma checked by coqc. If the code no longer has that form, all 2^32 floats are run through it instead.',
    'C21': 'CircularStack verified by Verus for any history of pushes and pops.',
    'C23': 'LinkedList verified by Verus against a sequence of pointers and items; the chain of freed nodes is part of the invariant.',
    'C24': 'LruCache verified by Verus against a sequence of entries in the order of their use, over the contracts of LinkedList and a map.',
    'C25': 'NibbleList and BitVec verified by Verus against sequences of nibbles and bits.',
    'C22': 'FixedRingBuffer verified by Verus against a sequence, for every capacity that is a power of two.',
}
NOTES.update({
    'C01': 'Proved end to end: the client program that records with any buffers, rewinds and decodes with any buffers returns the 16-bit values (client_lossless), over the contracts of encode, decode, the entropy coder, the frame table and the bit store; float leaves by Kani.',
    'C02': 'Proved end to end (client_lossy); the error bound per level is decided by Kani for all floats in [-1,1] and all dither values.',
    'C03': 'Proved: client_decode_all, for every sequence of buffer sizes.',
    'C04': 'Proved: client_save_load and client_load_history (saving and loading a recording gives the same recording at its start, decoded after any seeks and decodes), for recordings of up to 65535 channels; that bincode reads back what it wrote is trusted.',
    'C05': 'Proved: client_seek, after any history of seeks and decodes (client_history), and on a loaded copy (client_load_history).',
    'C06': 'Proved: client_record_again, for a codec in any state it can be in, and a saved and loaded copy of it (client_save_load).',
    'C07': 'Proved: client_size, client_size_history, client_size_again: what is announced is at least the length of the derived encoding that saving writes, for a fresh codec after any seeks, decodes and encodes, and for one loaded from anything and then used; client_wav_size: for WAV codecs it is the number of bytes saving writes.',
    'C08': 'Proved: the parameter is the cheapest (compute_optimal_divisor_exponent and encode_frame) and an encode call adds at most 18 bits per sample.',
    'C18': 'Proved: client_damaged: any bytes are rejected or give a codec that any seeks, decodes, counts and size queries leave without a panic, and that saving again leaves without one as well.',
    'C19': 'Proved: client_count, after any history; the consumed count is the contract of encode; a loaded copy is the same recording (client_save_load).',
})
NOTES.update({
    'C12': 'Proved: client_wav (any buffers in, rewound, any buffers out gives the 16-bit values in order, the rest of each buffer untouched) and client_wav_save_load (a saved file loads as the same codec, whose bytes are the same). The value of a sample is Kani on the real conversions.',
    'C13': 'Proved: save_to writes exactly the canonical header and the samples or reports an error; the layout of the header struct is decided by Kani; std write_all is trusted to write everything or to report an error.',
    'C14': 'Proved: load, for any bytes, never panics and gives an error or exactly the whole sets of the data region that the file states (contract of load), then survives any history (client_wav_damaged).',
    'C15': 'Proved: contract of seek for all three bases and any t, and client_wav_history for any history of encodes, decodes and seeks.',
    'C20': 'Proved from convert_file down (client_cli: a WAV file is converted, the file that is made is converted back): every sample of the file that comes back is the 16-bit value up to one step (level 0) or within the error of the level, under the same name, for every WAV file, directory and level. File names and files are modelled by trusted contracts on std::path and std::fs. The parsing of the command line by clap and the fan-out by rayon are not proved: they are covered by a bounded search that runs the built tool.',
    'C16': 'Proved: contract of encode (put) and client_wav_history.',
})
NOT_APPLICABLE = {}
