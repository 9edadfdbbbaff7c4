#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
A='src/codec/adhoc.rs'; F='src/codec/adhoc/frame.rs'; S='src/codec/adhoc/audio_stream.rs'; B='src/collections/bitstream.rs'
K='src/collections/stack.rs'; NL='src/collections/nibble_list.rs'; BV='src/collections/bitvec.rs'; W='src/codec/wav.rs'; C='src/codec.rs'; P='src/math/parabola.rs'; N='src/math/noise.rs'
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None))
P_=[
p('C01','Compression level 0 is lossless to 16 bits',
 'With compression level 0 (the default), encoding any sequence of sample buffers and then rewinding to the start and decoding delivers exactly as many samples as were encoded (whole sets of channels), and every delivered sample is exactly the 16-bit value of the encoded one: clamp(s, -1, 1) * 32767 truncated toward zero, divided by 32767 (NaN counts as 0). This holds for any channel count of at least one, any number of encode calls and any length of each call, including empty ones and ones longer than 65535 samples per channel.',
 ['inputs','histories'],'every sequence of encode calls (lengths and f32 contents), every channel count >= 1, at level 0',
 'The unit tests encode one 13-sample mono signal, one 14-sample stereo signal in two calls and one music file; they accept errors up to 0.01 and never reach extreme residuals, short first blocks, long blocks or other channel counts.',
 [A,F,B,K,C,P],[('encode / decode of one frame mirror each other over the same predictor','%s FrameCodec::encode_frame, FrameCodec::decode_frame'%F),('residual coding','%s BitStream::write_compressed, read_compressed'%B),('history of the last three samples','%s CircularStack'%K)],
 [('sample history','the last samples of the channel, feeds the predictor on both sides',F),('bit cursor','where the next code goes or comes from',B)],['Streamable::encode','Streamable::decode']),
p('C02','Lossy levels stay within the advertised error',
 'With compression level L in 1..10, encoding samples in [-1, 1] and then rewinding and decoding delivers as many samples as were encoded, and every delivered sample differs from the encoded one by at most 2^L/32767 (one step of the coarser quantisation) plus 0.001 (the dither), up to single-precision rounding.',
 ['inputs','histories','configurations'],'every level 1..10, every sequence of encode calls with samples in [-1,1], every channel count >= 1',
 'One test encodes a music file at level 4 and checks nothing about the decoded values.',
 [A,F,N,C],[('dither and scale before quantisation','%s AdhocCodec::encode_block'%A),('scale up after decoding','%s AdhocCodec::decode'%A),('level to scale','%s AdhocCodec::with_compression_level'%A)],
 [('scale / inv_scale','2^level and its inverse',A)],['Streamable::decode']),
p('C03','Decoding delivers the stream once, in order, for any buffer size',
 'Whatever sizes the buffers passed to successive decode calls have, the delivered pieces concatenated are the encoded stream in order, without loss or repetition. Each call fills as much as is left up to the largest multiple of the channel count that fits, reports exactly that number, leaves the rest of the buffer unchanged, and reports nothing delivered only when the stream is at its end or the buffer cannot hold one set of channels.',
 ['inputs','histories'],'every encoded stream and every sequence of output buffer lengths',
 'The tests use one fixed buffer length per test and never a buffer that is not a multiple of the channel count, is empty, or is larger than the rest of the stream.',
 [A,F],[('per channel queue of decoded samples','%s AdhocCodec::decode'%A),('frame by frame refill','%s FrameCodec::decode_frame'%F)],
 [('buffered channel','decoded samples not yet delivered',F)],['Streamable::decode']),
p('C04','Saving and loading preserves the recording',
 'A recording that is saved and loaded again has the same sample rate, channel count and number of samples per channel, decodes to exactly the same samples, and behaves the same after seeking, whatever the position of the codec was when it was saved. A loaded recording starts at its beginning.',
 ['inputs','histories','configurations'],'every encoded recording of up to 65535 channels, level 0..10, saved at any point of its use',
 'No test loads a saved file and compares it (the assertion is commented out in the test).',
 [A,F,B,BV,NL,S],[('serialisation of headers and bit store','%s AdhocCodec::save_to, load'%A),('rebuilding the transient state','%s AdhocCodec::load'%A)],
 [],['AdhocCodec::save_to','AdhocCodec::load']),
p('C05','Seeking an ADHOC recording lands on the requested sample',
 'After seeking a recording to t milliseconds from the start, decoding continues with sample number floor(t * sample_rate / 1000) of every channel (computed in single precision) and delivers exactly the samples a full decode delivers from there on. A seek to or past the end leaves nothing to decode. This holds for any sequence of seeks and decodes before it, and after loading from a file.',
 ['inputs','histories'],'every encoded recording, every time t, every history of seeks and decodes',
 'Tests only ever seek an ADHOC codec to 0.',
 [A,F,K],[('search for the frame, history from its header, prune','%s AdhocCodec::seek'%A),('history saved in every header','%s FrameCodec::encode_frame'%F)],
 [('frame header: stack_history, bit_cursor, is_init','what is needed to start decoding at a frame',F)],['Streamable::seek']),
p('C06','Rewinding and encoding again leaves no trace of the old recording',
 'After a codec that has been used in any way is rewound to the start and new audio is encoded, it behaves as a codec that only ever encoded the new audio: decoding, seeking, the reported number of samples, and a saved and loaded copy show the new audio only, whatever its length compared with the old one.',
 ['histories'],'every old recording and use of it, every new recording, same channel count',
 'Tests never reuse a codec for a second recording.',
 [A,F,B,BV,NL],[('stale headers are dropped','%s FrameHeaders::push'%F),('stale bits are overwritten','%s BitStream::write_bits'%B),('rewind','%s AdhocCodec::init, seek'%A)],
 [('header cursor','index of the next frame header to read or write',F)],['Streamable::encode','Streamable::decode','AdhocCodec::save_to']),
p('C07','The announced file size is never too small',
 'The file size in bits that a codec announces is at least the size of the file that saving it writes at that moment, for every recording, level and history; for WAV codecs it is exactly that size.',
 ['inputs','histories'],'every recording and every moment at which the size is asked for',
 'No test calls it.',
 [A,F,B,BV,NL,W],[('sum of the weights of all serialised parts','%s AdhocCodec::filesize_upperbound, %s FrameHeaders::calculate_weight_upperbound'%(A,F)),('header plus data','%s WavCodec::filesize_upperbound'%W)],[],['Streamable::filesize_upperbound']),
p('C08','Each block is coded with its cheapest parameter; cost is bounded',
 'For every block of every channel the encoder uses an entropy-coding parameter for which the total code length of the block is the smallest among the parameters 1 to 15. Consequently no audio, whatever it is, takes more than 18 bits per sample on average in addition to the fixed metadata per block.',
 ['inputs'],'every block content and every sample history before it',
 'Tests print the compression ratio and assert nothing about it.',
 [F,B],[('cost table over the 15 parameters','%s FrameCodec::compute_optimal_divisor_exponent'%F),('code length of one residual','%s BitStream::write_compressed'%B)],[],['AdhocCodec::save_to','FrameCodec::encode_frame']),
p('C09','The bit store reads back what was written, at any alignment',
 'The bit store behaves as a string of bits with a cursor: writing the low n bits of a value (n up to 128) puts exactly those bits at the cursor and leaves every earlier bit unchanged, single-bit writes likewise; reading or peeking n stored bits at any position gives exactly the stored bits, and every operation moves the cursor by exactly the number of bits written or read (peeking does not move it). This holds across storage word boundaries and when old contents are overwritten from any earlier position.',
 ['inputs','histories'],'every sequence of writes, reads and cursor moves, every width 0..128, every alignment',
 'The tests write a few values of a few widths to an empty store.',
 [B],[('split writes and reads over two 128-bit chunks','%s BitStream::write_bits, peek_bits'%B)],[('binary, bit_cursor','chunks and cursor',B)],['BitStream']),
p('C10','Entropy coding is invertible for every residual and parameter',
 'For every 16-bit residual and every parameter from 0 to 15, at every bit position and whatever the storage held before, reading a code with the parameter it was written with returns the residual and leaves the cursor right behind the code; the code takes exactly (|residual| >> parameter) + parameter + 2 bits and nothing before it changes.',
 ['inputs','histories'],'all 65536 residuals x 16 parameters x every position and previous store content',
 'The tests cover one divisor with a small range of values starting on an empty store.',
 [B],[('sign, unary quotient, binary remainder','%s BitStream::write_compressed, read_compressed'%B)],[],['BitStream::write_compressed','BitStream::read_compressed']),
p('C11','Frame metadata reads back as it was recorded',
 'The table of frame metadata behaves as a list of entries (parameter 0..15, length, bit position below 2^64, first-frame flag, three history samples) with a cursor: adding an entry at the cursor replaces everything from there on and leaves the earlier entries alone, entry i reads back exactly as it was added, reading past the end gives nothing, and iteration walks the entries in order from the cursor.',
 ['inputs','histories'],'every sequence of additions, reads, cursor moves and resets',
 'The packed lists underneath are only tested with one small sequence each; the table itself has no test.',
 [F,BV,NL],[('parallel packed lists','%s FrameHeaders::push, get, next'%F),('nibble and bit packing','%s, %s'%(NL,BV))],[('header_cursor','next entry',F)],['FrameHeaders']),
p('C12','WAV audio survives encoding, decoding, saving and loading',
 'Samples encoded into a WAV codec decode, after rewinding, to exactly their 16-bit values (clamp(s,-1,1)*32767 truncated toward zero, divided by 32767; NaN counts as 0) in order, for any buffer sizes (whole sets of channels, rest of the buffer unchanged). A saved WAV file loads with the same channel count, sample rate and samples, and saving it once more gives the same bytes.',
 ['inputs','histories'],'every sequence of encode calls, every sequence of decode buffer lengths, 1..255 channels, sample rate * channels below 2^26, data below 1 GB',
 'Tests copy one file through the codec and compare nothing.',
 [W,C],[('little endian 16-bit store','%s WavCodec::write_sample, get_sample'%W),('header written and parsed','%s WavCodec::save_to, load'%W)],[('short_cursor','index of the next 16-bit sample',W)],['WavCodec']),
p('C13','Saved WAV files have a canonical header and complete data',
 'Saving a WAV codec writes exactly the 44-byte canonical PCM header (RIFF size = 36 + data size, 16-byte fmt chunk, format 1, channel count, sample rate, byte rate = rate * channels * 2, block align = channels * 2, 16 bits, data size) followed by all the samples as 16-bit little endian, also through a writer that accepts only part of what it is given or is interrupted; if the writer fails, saving reports an error.',
 ['inputs','fault_sequences'],'every recording of 1..32767 channels whose byte rate and sizes fit the fields of the header, every pattern of short writes and errors of the writer',
 'Tests write one file to disk and one to memory and do not look at the bytes.',
 [W],[('header fields','%s WavCodec::save_to'%W),('header layout','%s RawWavHeader'%W)],[],['WavCodec::save_to']),
p('C14','Loading a WAV file never panics and reads exactly the data region',
 'Loading arbitrary bytes as a WAV file never panics: it either reports an error or gives a codec with at least one channel whose whole sets of samples all lie within the data region of the file (never beyond its stated length or the end of the file) and decode into [-1, 1] up to one 16-bit step. For a well-formed 8- or 16-bit PCM file whose data chunk (the first occurrence of the letters "data") starts within the first 248 bytes, the loaded samples are those of the data chunk (8-bit ones scaled from 0..255 to -1..1), and channels and rate those of the header.',
 ['inputs','fault_sequences'],'every byte sequence, every pattern of short reads',
 'Tests load one valid file.',
 [W],[('search for the data chunk, checks, bounded read','%s WavCodec::load'%W)],[],['WavCodec::load','Streamable::decode']),
p('C15','WAV seeking is exact, aligned and stays inside the recording',
 'Seeking a WAV codec to t milliseconds from the start, the current position or the end moves to that base plus t * sample_rate / 1000 sample sets (truncated toward zero, in single precision), limited to the range from the start to the end of the recording and always on the first channel of a set; the base of a relative seek is the set the current position is in. Decoding and encoding continue exactly there, for any t whatsoever.',
 ['inputs','histories'],'every recording, every sequence of seeks of the three kinds with any i64/u64 time, interleaved with decodes',
 'No test seeks a WAV codec.',
 [W],[('clamp and align','%s WavCodec::seek'%W)],[('short_cursor','index of the next 16-bit sample',W)],['Streamable::seek']),
p('C16','Encoding into the middle of a WAV recording changes only that part',
 'Encoding samples at any position inside an existing WAV recording replaces exactly the samples from that position on, one for one, extends the recording only if they reach past its end, leaves all other samples unchanged, and leaves the position right behind the last one written.',
 ['inputs','histories'],'every recording, position and sequence of overwrites',
 'Tests only append to an empty recording.',
 [W],[('overwrite or push','%s WavCodec::write_sample'%W)],[('short_cursor','index of the next 16-bit sample',W)],['Streamable::encode']),
p('C17','Sample conversion is total, clamped and monotone',
 'Every 32-bit float, including NaN, infinities and subnormals, can be encoded: the 16-bit value it turns into is within one step of clamp(s,-1,1)*32767 and never larger in magnitude, never outside -32767..32767, 0 for NaN, and a larger sample never turns into a smaller value. Every decoded 16-bit value v is the float v/32767 (correct to single precision), which never leaves [-1, 1] for encoded samples.',
 ['inputs'],'all 2^32 floats and all 65536 16-bit values',
 'Tests use a handful of moderate sample values.',
 [C],[('clamp, scale, truncate','%s truncate_sample'%C),('scale back','%s normalize_sample'%C)],[],['Streamable::encode','Streamable::decode']),
p('C18','A damaged ADHOC file never causes a panic',
 'Loading arbitrary bytes as an ADHOC file never panics: it is either rejected or gives a codec with at least one channel that can be decoded, sought, measured and saved without a panic, whatever its contents, each decode call reporting whole sets of channels that fit the buffer.',
 ['inputs','fault_sequences'],'every byte sequence; every sequence of decode, seek, size and save calls on an accepted file',
 'No test loads an ADHOC file.',
 [A,F,B,BV,NL],[('validation after deserialisation','%s AdhocCodec::load, %s FrameHeaders::is_valid'%(A,F)),('reads past the end give zeros','%s BitStream::peek_bits, read_bit, read_compressed'%B)],[],['AdhocCodec::load','Streamable::decode','Streamable::seek']),
p('C19','The reported number of samples per channel is what was encoded',
 'The number of samples per channel a recording reports is the number of whole sets of channels encoded into it since it was created or last rewound and re-encoded, equals the number of sets a full decode delivers, and does not depend on the position, on decoding or seeking, or on having been saved and loaded; each encode call reports as consumed exactly the whole sets it was given.',
 ['inputs','histories'],'every sequence of encode calls, decodes, seeks, saves and loads',
 'No test calls it.',
 [A,F],[('sum of the frame sizes','%s AdhocCodec::calculate_sample_count_per_channel'%A),('frame sizes','%s FrameCodec::encode_frame'%F)],[],['AdhocCodec::calculate_sample_count_per_channel','Streamable::encode']),
p('C20','The command line tool converts files faithfully in both directions',
 'Converting WAV files with the command line tool leaves in the output directory, for every input NAME.wav, a file NAME.adhoc with the rate and the channels of the WAV file that decodes to exactly as many samples as the WAV file is loaded with, each the one of the WAV file coded at the requested compression level (5 if none is given): no sample is lost or added, whatever the number of channels, samples or files. Converting NAME.adhoc leaves NAME.wav with the 16-bit values of exactly the samples the ADHOC file decodes to, so that there and back every 16-bit sample is within one step of the original at level 0 and within the error of the level otherwise.',
 ['inputs','configurations'],'every input file, name, output directory and compression level',
 'The tool has no test.',
 ['src/main.rs','src/codec/adhoc.rs','src/codec/wav.rs'],[('which way a file is converted','src/main.rs convert_file'),('decode and encode until there is nothing left','src/main.rs convert_wav_to_adhoc, convert_adhoc_to_wav')],[],['adhoc_audio binary','convert_file']),
]
# internal containers that the library carries but its codecs do not use
P_ += [
p('C21','The history of recent samples returns the last ones pushed',
 'The fixed-size history of samples returns, for an offset of one to three (or four), the sample pushed that many pushes ago; when fewer have been pushed it returns the oldest one, popping undoes the last push, and it is empty exactly when it holds no sample.',
 ['inputs','histories'],'every sequence of pushes and reads, any element type',
 'Three tests push at most two items.',
 [K],[('index arithmetic modulo 4','%s CircularStack::push, prev, pop'%K)],[('cursor, len','next slot and number of items',K)],['CircularStack']),
p('C22','The fixed-capacity queue is a bounded double-ended queue',
 'The fixed ring buffer (power-of-two capacity) behaves as a bounded double-ended queue: pushes at either end add the item there unless the queue is full (then nothing changes), pops return the item at that end in order and report nothing when empty, iterating gives the items front to rear, and its length is the number of items held.',
 ['inputs','histories'],'every sequence of pushes and pops at both ends, every power-of-two capacity',
 'One test pushes four items to an array of 32.',
 ['src/collections/queue.rs'],[('front and rear modulo capacity','src/collections/queue.rs FixedRingBuffer')],[],['FixedRingBuffer']),
p('C23','The linked list keeps its items in order behind stable pointers',
 'The linked list behaves as a sequence: pushing or inserting beside a node puts exactly the new item there, removing a node or popping an end takes out and returns exactly that item, and nothing else moves; iterating gives the items front to back; the pointer of an item stays valid, and leads to that item, until it is removed; freed nodes are used again before the list grows.',
 ['inputs','histories'],'every sequence of pushes, pops, insertions, removals and changes, any item type',
 'One test pushes and pops seven items and prints the list.',
 ['src/collections/linked_list.rs','src/collections.rs'],[('links of the ring of nodes','src/collections/linked_list.rs LinkedList::insert_at, remove_at'),('chain of freed nodes','src/collections/linked_list.rs LinkedList::allocate, free')],[],['LinkedList']),
p('C24','The cache keeps the entries used last',
 'The least-recently-used cache with a capacity of one or more never holds more entries than its capacity; a key put into it is found with the value put last until it is removed or as many other keys as the capacity have been put or got since its last use; putting a new key into a full cache drops exactly the entry whose last use (put, get, get_mut) is furthest back; lookup changes nothing, remove takes out exactly the entry of its key, and its length is the number of entries held.',
 ['inputs','histories'],'every sequence of puts, gets, lookups, changes and removals, every capacity, any key and value types',
 'No test uses it.',
 ['src/collections/lru_cache.rs','src/collections/linked_list.rs'],[('entries in the order of their use','src/collections/lru_cache.rs LruCache::put, raise_key'),('from keys to nodes of the list','src/collections/lru_cache.rs LruCache::get, get_mut, lookup, remove')],[('table','from each key to the node of its entry','src/collections/lru_cache.rs')],['LruCache']),
p('C25','The packed lists of nibbles and of bits behave as lists',
 'The list of 4-bit values and the list of single bits that the frame metadata is stored in behave as lists: pushing appends exactly the value given, setting changes exactly the item at that place, getting and iterating give each item as it was last pushed or set, truncating keeps exactly the first items, clearing leaves an empty list, and what is pushed after truncating or clearing does not depend on what was there before; the length is the number of items held.',
 ['inputs','histories'],'every sequence of pushes, changes, truncations, clearings and reads, any values, any number of items below 2^32 - 1',
 'Three tests push seven nibbles or a few hundred bits; none pushes after truncating or clearing.',
 ['src/collections/nibble_list.rs','src/collections/bitvec.rs'],[('two items to a byte','src/collections/nibble_list.rs NibbleList::push, set, get'),('what is left behind the last item','src/collections/nibble_list.rs NibbleList::truncate, clear')],[('nibble_count, bit_cursor','number of items','src/collections/nibble_list.rs')],['NibbleList','BitVec']),
]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P_: f.write(json.dumps(x)+'\n')
