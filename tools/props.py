"""Property texts and check metadata; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, thorough=False, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech,
                  technique=technique, note=note, na=na, thorough=thorough, observe=observe or []))


TRUST = ('Trusted: the MIR export, the abstract semantics in sa/ and its models of std and of the algorithm crate. '
         'Abstract interpretation of every path of the compiled functions; nothing is executed. ')

p('C15', 'HTTP/2 frame header wire layout',
  'A 9-octet frame header is read and written as 24-bit length, type, flags and 31-bit stream identifier with the reserved bit ignored; fewer than 9 octets are an error and exactly 9 are consumed.',
  'inputs', 'every header byte string and every header value within the wire ranges',
  'tests decode a couple of literal frames; the rule ranges over 2^72 headers',
  'src/http/http2/frame/mod.rs src/http/http2/frame/kind.rs src/http/http2/frame/flag.rs',
  ['FrameHeader::parse', 'FrameHeader::encode'], 'abstract interpretation of MIR: trace-partitioned summaries vs wire layout',
  TRUST + 'Headers with undefined flag bits and lengths above 2^24-1 are outside the stated domain.')

p('C16', 'HTTP/2 code points',
  'Frame types, flag bits, error codes and setting identifiers convert to and from the wire values the RFC assigns them, and unassigned values never turn into an assigned meaning.',
  'inputs', 'every 8-bit type and flag value, 32-bit error code and 16-bit setting identifier',
  'tests touch a handful of code points; a swapped pair elsewhere goes unnoticed because both ends of a round trip swap',
  'src/http/http2/frame/kind.rs src/http/http2/frame/flag.rs src/http/http2/frame/reason.rs src/http/http2/frame/settings.rs',
  ['Kind::new', 'Kind::encode', 'Flag accessors and setters', 'Reason', 'Setting::from_id'], 'abstract interpretation of MIR: per-value summaries vs code-point tables', TRUST)

p('C17', 'HTTP/2 frame readers enforce size and stream rules',
  'PING, WINDOW_UPDATE, RST_STREAM, PRIORITY, GOAWAY and SETTINGS payloads are accepted only with the length and stream identifier the RFC demands, and the fields read are the big-endian fields at the specified offsets; anything else is an error, never a value.',
  'inputs', 'every header (length, flags, stream) and payload of these frames',
  'tests contain no ill-formed frame of these kinds',
  'src/http/http2/frame/ping.rs src/http/http2/frame/window_update.rs src/http/http2/frame/reset.rs src/http/http2/frame/priority.rs src/http/http2/frame/go_away.rs src/http/http2/frame/settings.rs',
  ['Ping::parse', 'WindowUpdate::parse', 'Reset::parse', 'Priority::parse', 'GoAway::parse', 'Settings::parse'],
  'abstract interpretation of MIR: trace-partitioned summaries vs specified cases', TRUST + 'The header length equals the payload length handed over, as the frame dispatcher guarantees.')

p('C18', 'HTTP/2 SETTINGS values are range checked',
  'A received SETTINGS entry outside the range the RFC permits for its identifier is a connection error, an entry inside it is stored unchanged under the matching setting, and unknown identifiers are ignored.',
  'inputs', 'every identifier and 32-bit value, alone and followed by a second entry',
  'tests decode one legal SETTINGS payload',
  'src/http/http2/frame/settings.rs', ['Settings::parse', 'Setting::from_id'], 'abstract interpretation of MIR: trace-partitioned summaries vs specified cases',
  TRUST + 'Payloads of one and two entries are analysed; longer ones run the same loop body.')

p('C19', 'HTTP/2 frame writers emit what they announce',
  'For WINDOW_UPDATE, RST_STREAM, PRIORITY, PING, GOAWAY and SETTINGS frames, the length field written, the number of octets that follow the header and the size reported to the caller agree, and the payload octets are the specified encoding of the fields.',
  'inputs', 'every field value, and for SETTINGS every subset of the settings',
  'tests encode a few values and never compare the length field to the bytes that follow',
  'src/http/http2/frame/ping.rs src/http/http2/frame/window_update.rs src/http/http2/frame/reset.rs src/http/http2/frame/priority.rs src/http/http2/frame/go_away.rs src/http/http2/frame/settings.rs',
  ['encode functions of the fixed-layout frames'], 'abstract interpretation of MIR: write-log summaries vs wire layout', TRUST)

p('C20', 'WebSocket frame header coding',
  'Frame headers are read and written as the RFC lays them out: flag bits and opcode, mask bit, the shortest of the three length forms, optional 4-byte key; truncated headers, over-long length forms and fragmented or over-sized control frames are errors and nothing is written for a refused header.',
  'inputs', 'every header byte string of every available length, every header value',
  'tests read about ten literal headers',
  'src/ws/frame_header.rs', ['read_header', 'write_header'], 'abstract interpretation of MIR: trace-partitioned summaries vs wire layout', TRUST)

p('C21', 'WebSocket opcodes and close codes',
  'Opcodes, close status codes and message owners convert to and from their wire values exactly as assigned, and an unassigned value never becomes an assigned meaning.',
  'inputs', 'every 8-bit opcode and 16-bit close code',
  'tests use four opcodes and two close codes',
  'src/ws/dataframe.rs src/ws/message.rs', ['Opcode conversions', 'CloseCode conversions'], 'abstract interpretation of MIR: per-value summaries vs code-point tables', TRUST)

p('C22', 'WebSocket masking is the specified XOR',
  'Masked output equals the payload with byte i combined by XOR with key byte i mod 4, wherever the payload is split over writes, and unmasked frames pass bytes through; masking twice restores the payload.',
  'inputs histories', 'every payload and key; payload lengths up to 67 covering every alignment of the word-sized fast path, and every split of a short payload over successive writes',
  'one literal frame is masked in the tests; alignment and position carry-over are not exercised',
  'src/ws/mask.rs src/ws/dataframe.rs', ['Masker', 'mask_data'], 'abstract interpretation of MIR: write-log summaries vs specified XOR', TRUST + 'Lengths analysed one by one (0-13, 16, 17, 31, 33, 64, 67; thorough adds 128, 130, 259), so other lengths rest on the loop being uniform.', thorough=True)

p('C09', 'Status codes are three-digit numbers',
  'A status code is accepted exactly when it is 100 to 999 (from a number) or three ASCII digits not starting with 0 (from text); it is written back as those three digits, its class predicates hold exactly for their hundred range, and a registered code carries the reason phrase the registry assigns it and no unregistered code carries one of those.',
  'inputs', 'every 16-bit number, every byte string, every code from 100 to 999',
  'tests look at a few codes; the digit table and the reason table have hundreds of entries',
  'src/http/status.rs', ['StatusCode::from_u16', 'StatusCode::from_bytes', 'as_str', 'canonical_reason', 'is_informational and its siblings'],
  'abstract interpretation of MIR: path summaries vs RFC 9110 tables', TRUST + 'Reason phrases are compared up to case and punctuation.')

p('C26', 'Percent coding is reversible and strict',
  'Percent-encoding writes URI characters as themselves and every other byte as % followed by its two upper-case hexadecimal digits; percent-decoding turns each %XY back into that one byte and leaves all other bytes alone, and a % not followed by two hexadecimal digits is an error.',
  'inputs', 'every byte value at every position of strings up to 3 (encoding) and 5 (decoding) bytes',
  'one or two literal strings are decoded in the tests; wrong digits, truncated escapes and adjacent escapes are not',
  'src/url/url.rs src/helper.rs', ['Url::url_encode', 'Url::url_decode', 'Url::parse_url_token', 'Helper::to_hex', 'Helper::convert_hex'],
  'abstract interpretation of MIR: byte-level summaries vs specified coding', TRUST + 'Longer strings run the same loop body; that the decoded bytes are UTF-8 is checked at run time by the library and not part of the property.')

p('C27', 'Names of methods, versions and schemes',
  'Every registered HTTP method, protocol version and URL scheme name converts to its own value and back to exactly that name, no other name ever becomes a registered value, and the predicates over these values hold for exactly the values they name.',
  'inputs', 'every string, every method, version and scheme',
  'tests use GET, POST and http; the other rows of each table are only read by eye',
  'src/http/method.rs src/http/version.rs src/url/scheme.rs', ['Method conversions', 'Version conversions', 'Scheme conversions'],
  'abstract interpretation of MIR: symbolic-string summaries vs name tables', TRUST + 'For the two from_str functions that fold case, listed names in three cases and near misses of each are evaluated in place of an arbitrary string.')


MSGNOTE = TRUST + 'Decided on families of message templates (every cut position, every position replaced by or preceded by an arbitrary byte); messages outside these families rest on the parser loops being uniform. '

p('C05', 'HTTP/1 parsing tells incomplete from malformed',
  'Parsing a request or response head reports an incomplete message exactly when the bytes so far could still grow into a head the grammar accepts: a cut-off head is never reported malformed or complete, and a head that is already wrong is never reported incomplete.',
  'inputs histories', 'every head and every prefix of it, as bytes arrive from a connection',
  'tests parse complete literal heads and one or two cuts; the rule has to hold at every cut of every message',
  'src/http/request.rs src/http/response.rs src/helper.rs src/url/url.rs',
  ['Request::parse_buffer', 'Response::parse_buffer', 'Helper scanners'], 'abstract interpretation of MIR: byte-exact template summaries vs reference grammar', MSGNOTE)

p('C06', 'HTTP/1 parsing reports what it consumed',
  'After a head is parsed the object says complete, the returned count is the length of the head, and the buffer is left exactly behind it so that the body is the next byte read; after any error the object still says partial.',
  'inputs histories', 'every head, malformed head and prefix, with and without body bytes behind it',
  'tests compare one or two sizes and never look where the buffer stands after parsing',
  'src/http/request.rs src/http/response.rs src/helper.rs',
  ['Request::parse_buffer', 'Response::parse_buffer', 'is_partial'], 'abstract interpretation of MIR: byte-exact template summaries vs reference grammar', MSGNOTE)

p('C07', 'HTTP/1 heads are accepted exactly by the grammar',
  'A request or response head is accepted exactly when method, target, version, status, reason and header lines consist of the bytes and separators the grammar allows, and the method, target, version, status code and header fields read are those written in the message, in order.',
  'inputs', 'every head, with an arbitrary byte at any position',
  'tests parse a handful of literal heads; the byte classes have 256 entries per position',
  'src/http/request.rs src/http/response.rs src/helper.rs src/http/header.rs src/http/name.rs',
  ['Request::parse_buffer', 'Response::parse_buffer', 'Helper scanners', 'HeaderMap'], 'abstract interpretation of MIR: byte-exact template summaries vs reference grammar', MSGNOTE, thorough=True)

p('C25', 'URL parsing splits as written',
  'Parsing a URL yields exactly the scheme, user name, password, host, port, path and query written in it, percent-decoded where the parts are text, with the default path and the default port of the scheme when absent; a URL with a byte no part may contain, a broken escape, or a port that is no 16-bit number is an error.',
  'inputs', 'every URL in absolute, authority or origin form, with an arbitrary byte at any position',
  'tests parse a few literal URLs; separators in unusual places are where the parts get mixed up',
  'src/url/url.rs src/url/scheme.rs src/helper.rs', ['Url::parse', 'Url::from_str', 'Url::try_from'],
  'abstract interpretation of MIR: byte-exact template summaries vs reference splitter',
  TRUST + 'Decided on ten URL templates with an arbitrary byte in place of or between the bytes of each; other URLs rest on the scanning loop being uniform.', thorough=True)

p('C08', 'Header names compare without case',
  'Two header names are equal exactly when they agree up to the case of ASCII letters, whichever way they are stored or compared, equal names feed a hasher the same bytes, header values compare and hash by their exact bytes, and the stored bytes are returned unchanged.',
  'inputs', 'every pair of names and values, static or owned',
  'tests compare two or three names; a letter range that is off by one or a hash that disagrees with equality shows on single bytes only',
  'src/http/name.rs src/http/value.rs src/helper.rs', ['HeaderName PartialEq and Hash', 'HeaderValue PartialEq and Hash', 'Helper::eq_bytes_ignore_ascii_case'],
  'abstract interpretation of MIR: byte-exact summaries vs case-folding relation',
  TRUST + 'Pairs with one arbitrary byte against every byte, in names of up to 7 bytes; longer names rest on the comparison being uniform.')

p('C28', 'Serializers report the bytes they write',
  'Serializing a body or a token (string, byte buffer, header name or value, header list, method, version, scheme) appends exactly its bytes, in order, and returns their number; an unset method, version or scheme is an error that writes nothing.',
  'inputs', 'every content and length of each serializable type, header lists of up to three fields',
  'tests look at the output of a few messages and never at the returned size',
  'src/serialize.rs src/http/name.rs src/http/value.rs src/http/header.rs src/http/method.rs src/http/version.rs src/url/scheme.rs',
  ['Serialize implementations', 'HeaderMap::encode', 'HeaderName::encode', 'HeaderValue::encode'], 'abstract interpretation of MIR: write-log summaries over symbolic strings', TRUST)

p('C29', 'HTTP/1 heads are written so that they read back',
  'Writing a request or response emits a head that the HTTP/1 grammar accepts and that reads back as the same method, target, version, status and header fields in the same order, followed by the body unchanged; the size returned is the number of bytes written, and a message without method or version is an error.',
  'inputs', 'every method, version, status code, path, query, header field and body',
  'tests write a few fixed messages; bytes of the target that need escaping and the returned size are not looked at',
  'src/http/request.rs src/http/response.rs src/http/header.rs src/http/status.rs',
  ['Request::encode_header', 'Request::http1_data', 'Response::encode_header', 'Response::serialize'], 'abstract interpretation of MIR: byte-exact template summaries vs reference grammar',
  TRUST + 'Values with an arbitrary byte in one text part. Header names and values are assumed to be ones a header line may contain; codes without a registered reason are refused by the library and not part of the property.')

p('C30', 'Chunked coding',
  'A chunk is read as hexadecimal size, line break, that many bytes and CRLF: the returned header length and size are exactly those of the chunk and nothing is consumed; a cut-off chunk is incomplete, a broken one or a size that does not fit is an error; a written chunk has exactly that form and the returned size counts it.',
  'inputs histories', 'every chunk and every prefix of one, every data length',
  'tests decode two literal chunks; sizes that overflow, cuts inside the trailer and wrong trailers are not tried',
  'src/helper.rs', ['Helper::parse_chunk_data', 'Helper::encode_chunk_data'], 'abstract interpretation of MIR: byte-exact template summaries vs reference reader', MSGNOTE)

p('C31', 'Header map operations',
  'Inserting replaces and pushing appends to the first field whose name matches without case, or adds a field at the end; looking up, testing and removing act on that same field; all other fields, their order and their spelling stay as they are, and the shortcuts (host, referer, cookie, connection and transfer tokens, length) read the field they name.',
  'inputs histories', 'every map of up to four fields (including repeated names), every name asked for',
  'tests use maps with one or two distinct names in their canonical spelling',
  'src/http/header.rs src/http/name.rs src/http/value.rs', ['HeaderMap operations'], 'abstract interpretation of MIR: summaries vs reference list',
  TRUST + 'Maps of up to four fields; larger maps rest on the search loops being uniform. Connection and transfer-coding tokens are looked for as the library spells them.')

p('C34', 'Numeric header values',
  'A header value converts to an unsigned or signed number exactly when it is a decimal number in range, and then to that number; everything else is an error, a content length that is no number reads as 0, and a number becomes its decimal digits.',
  'inputs', 'every header value, every number',
  'tests convert one or two short numbers; overflow and stray characters are not tried',
  'src/http/value.rs src/http/header.rs', ['HeaderValue to usize and isize', 'HeaderMap::get_body_len', 'HeaderValue from numbers'],
  'abstract interpretation of MIR: byte-exact template summaries vs decimal numbers', TRUST + 'Digit templates at and around the limits with one arbitrary byte; a leading plus sign in static values is left open.')

p('C36', 'URLs are written so that they read back',
  'Writing a URL gives text that parses back to the same scheme, user name, password, host, port, path and query, with separators inside a part escaped; the connect address is host:port and the authority leaves out exactly the default port of http and https.',
  'inputs', 'every URL with both or neither of user name and password',
  'tests print a few URLs whose parts contain no separator',
  'src/url/url.rs src/url/scheme.rs', ['Display for Url', 'Url::get_connect_url', 'Url::get_authority'], 'abstract interpretation of MIR: byte-exact template summaries vs reference splitter',
  TRUST + 'Values with an arbitrary ASCII byte in one part, or a two-byte character.')

HP = 'src/http/http2/hpack/'

p('C10', 'HPACK static table',
  'Indices 1 to 61 stand for the 61 fields of RFC 7541 appendix A, in decoding an indexed field or an indexed name, in look-up by index and in the index an encoder finds for a field or a field name; index 0 and indices beyond both tables are errors, and no field is found under an index that means another.',
  'inputs', 'every index and every field name and value of the table',
  'tests look up a handful of the 61 entries',
  HP + 'header_index.rs ' + HP + 'decoder.rs', ['HeaderIndex::get_from_index', 'HeaderIndex::find_header', 'Decoder::decode'],
  'abstract interpretation of MIR: summaries of the look-ups vs appendix A', TRUST + 'Values looked up are those of the table and near misses.', thorough=False)

p('C11', 'HPACK Huffman code',
  'Every octet is coded with its code of RFC 7541 appendix B, most significant bit first, padded with ones to a whole octet; decoding inverts that and refuses padding of 8 bits or more, padding that is not all ones, and the end-of-string code.',
  'inputs', 'every octet string',
  'tests decode a few ASCII strings; most of the 256 codes, of the bit offsets and of the paddings never occur in them',
  HP + 'huffman.rs', ['HuffmanEncoder::encode', 'HuffmanEncoder::encode_lower', 'HuffmanDecoder::decode'],
  'abstract interpretation of MIR: byte-exact summaries vs the canonical code', TRUST + 'Every symbol at every bit offset and every padding; longer strings rest on the coder\'s state between symbols being its bit offset and the partial octet.', thorough=True)

p('C12', 'HPACK encoder and decoder stay in step',
  'After any sequence of blocks an HPACK decoder of RFC 7541 that reads what the encoder wrote has the fields that were encoded (names in lower case) and the same dynamic table as the encoder; the decoder gives the fields RFC 7541 assigns to a block, in order, updates its table as specified, and refuses malformed blocks.',
  'inputs histories', 'every sequence of header lists and of blocks, for every table size',
  'tests use single blocks with a fresh table of the default size; errors in the table show only blocks later',
  HP + 'encoder.rs ' + HP + 'decoder.rs ' + HP + 'header_index.rs', ['Encoder::encode_header_into', 'Decoder::decode', 'HeaderIndex'],
  'abstract interpretation of MIR: byte-exact summaries of histories vs reference decoder', TRUST + 'Histories of up to nine steps with an arbitrary octet in a name, a value, a length or an index, on five table sizes. The table size is set on both sides before the first block.', thorough=True)

p('C13', 'HPACK dynamic table accounting',
  'The table size is the sum over its entries of name length + value length + 32; entries are added at the front and evicted from the back, as few as needed for the size not to exceed the maximum, both on adding and on lowering the maximum; an entry that does not fit at all empties the table; indices 62 and up count from the newest entry; a size update in a block is applied when it is at most the agreed maximum and refused otherwise.',
  'inputs histories', 'every history of additions and size changes, with entries of every length and every maximum',
  'tests fill the default table with a few short entries, so that nothing is ever evicted at a boundary',
  HP + 'header_index.rs', ['HeaderIndex::add_header', 'HeaderIndex::set_max_table_size', 'Decoder size update'],
  'abstract interpretation of MIR: symbolic lengths, one summary per eviction outcome', TRUST + 'Tables of up to three entries of arbitrary length (four in the thorough run); longer tables rest on the eviction loop being uniform.', thorough=True)

p('C14', 'HPACK integers',
  'An integer with an N-bit prefix is written and read as RFC 7541 5.1 specifies, in the fewest octets, for every value and every prefix, keeping the bits above the prefix; in a block, integers that do not end, or use more than four octets after the prefix, are errors, as are strings longer than the rest of the block.',
  'inputs', 'every value, every prefix, every sequence of integer octets',
  'tests code 10, 42 and 1337 and a few more',
  HP + 'decoder.rs ' + HP + 'encoder.rs', ['Encoder::encode_integer_into', 'Decoder::decode integer places'],
  'abstract interpretation of MIR: symbolic octets and values vs RFC 7541 5.1', TRUST)

p('C23', 'WebSocket frame reading',
  'A frame is read with the final bit, reserved bits, opcode and payload (unmasked with its key) it has on the wire, consuming exactly its octets; a payload that has not arrived completely is an error, and with a limit a frame announcing more is refused before any of its payload is consumed or memory is reserved for it.',
  'inputs', 'every buffer content and length, every limit',
  'tests read two short frames; limits and lengths above 125 are never tested together',
  'src/ws/dataframe.rs src/ws/frame_header.rs src/ws/mask.rs', ['DataFrame::read_dataframe', 'DataFrame::read_dataframe_with_limit'],
  'abstract interpretation of MIR: trace-partitioned summaries vs RFC 6455 5.2', TRUST + 'Unmasked payloads of every length; masked ones of up to 35 octets (longer ones rest on the masking loop, C22).')

p('C24', 'WebSocket message assembly and writing',
  'A message assembled from frames has the type of the first frame and the concatenated payload; text and close reasons that are not UTF-8, a close payload of one octet, reserved bits, other opcodes and non-continuation frames after the first are errors. Writing a message or frame emits the header with minimal length, the key if any and the payload (masked with it), and returns the number of octets written; size, frame_size and take_payload agree with what is written; Message and OwnedMessage convert into each other without loss.',
  'inputs', 'every sequence of frames, every message',
  'tests contain one frame per kind; splits inside a character, reserved bits on later frames and the reported sizes are not covered',
  'src/ws/message.rs src/ws/dataframe.rs', ['OwnedMessage::from_dataframes', 'DataFrameable::write_to', 'DataFrameable::size', 'From<Message> for OwnedMessage'],
  'abstract interpretation of MIR: byte-exact summaries vs RFC 6455 5.4-5.6', TRUST + 'Up to three frames with symbolic payload octets; whether the last frame carries FIN is not checked by the code and not claimed.')

p('C33', 'HTTP/2 header lists',
  'A received header list is refused when the sum of name length + value length + 32 over its fields exceeds the limit, or when :status is not a three-digit number; otherwise :method, :scheme, :authority, :path and :status end up in their part and every other field in the header map, unchanged and in order.',
  'inputs', 'every decoded field list and every limit',
  'tests never set a limit close to the size of the list',
  'src/http/http2/frame/headers.rs', ['Headers::parse', 'PushPromise::parse', 'HeaderBlock'],
  'abstract interpretation of MIR: summaries with the block decoder replaced by field lists and a symbolic limit', TRUST + 'A family of 20 field lists with symbolic octets and an arbitrary limit; repeated fields are outside the claim.')

p('C35', 'HTTP/2 frame dispatch and padding',
  'A frame is read as the type its header names, with the stream and flags of the header; DATA, HEADERS and PUSH_PROMISE payloads start after the pad length and priority fields and the padding at their end is not part of the data or header block; padding as long as the frame, frames on a stream they are not allowed on, frames too short for their fields and CONTINUATION or unknown frames are errors. The accessors of a frame agree with it.',
  'inputs', 'every frame header and payload',
  'tests contain no padded frame and no frame on a wrong stream',
  'src/http/http2/frame/frame.rs src/http/http2/frame/headers.rs src/http/http2/frame/data.rs', ['Frame::parse', 'Frame::trim_padding', 'Headers::parse', 'PushPromise::parse'],
  'abstract interpretation of MIR: trace-partitioned summaries vs RFC 9113 6.1-6.10', TRUST + 'The header length equals the payload length. Padding of DATA stays in the payload handed to the user (known finding).')

p('C37', 'HTTP/2 DATA, HEADERS and PUSH_PROMISE writing',
  'Data is written in DATA frames of at most the frame size, END_STREAM on the last only and PADDED never; a header list is written as one HEADERS frame followed by CONTINUATION frames of at most the frame size, END_HEADERS on the last only, END_STREAM on the first as asked, no flag announcing fields that are not written, and a block that decodes to the pseudo-header fields followed by the other fields in order; the returned size is the number of octets written.',
  'inputs', 'every data length, header list, frame size and flags',
  'tests write headers that fit one frame of the default size',
  'src/http/http2/frame/data.rs src/http/http2/frame/headers.rs ' + HP + 'encoder.rs', ['Data::encode', 'Headers::encode', 'PushPromise::encode', 'HeaderBlock::encode'],
  'abstract interpretation of MIR: byte-exact summaries vs reference decoder', TRUST + 'Data of up to 7 octets with frame sizes around it, nine header lists with 14 frame sizes; the pseudo-header block of PUSH_PROMISE is claimed for blocks that fit one frame.')

PAN = ('Every panic site the compiler emits or std documents (bounds checks, overflow checks, slicing, unwrap/expect, divisions, explicit panics, allocation with a capacity) '
       'on every path of the reader is an obligation; arguments are unconstrained. Sums of the lengths of objects in memory are taken to fit in usize. ')

p('C01', 'HTTP/1 and URL readers never panic',
  'Parsing a request, a response, a header block, a chunk, a URL or percent-encoded text returns a value or an error for every octet sequence; it never panics, overflows or indexes out of bounds.',
  'inputs', 'every octet sequence handed to Request/Response parse and parse_buffer, Helper::parse_header, Helper::parse_chunk_data, Url::parse and Url::url_decode',
  'tests parse well-formed messages; a hostile octet anywhere must not bring a server down',
  'src/http/request.rs src/http/response.rs src/helper.rs src/url/url.rs src/http/header.rs',
  ['Request::parse', 'Request::parse_buffer', 'Response::parse', 'Response::parse_buffer', 'Helper::parse_header', 'Helper::parse_chunk_data', 'Url::parse', 'Url::url_decode'],
  'abstract interpretation of MIR: intervals and linear relations discharge every panic site', TRUST + PAN)

p('C02', 'HTTP/2 readers never panic',
  'Parsing a frame header, a frame payload of any type, an HPACK header block, an HPACK table reference or a Huffman string returns a value or an error for every octet sequence; it never panics, overflows or indexes out of bounds.',
  'inputs', 'every frame header, payload, header block and Huffman string, in any decoder state',
  'tests decode well-formed frames and blocks; a hostile peer sends the rest',
  'src/http/http2/frame/mod.rs src/http/http2/frame/frame.rs src/http/http2/frame/headers.rs src/http/http2/hpack/decoder.rs src/http/http2/hpack/huffman.rs src/http/http2/hpack/header_index.rs',
  ['FrameHeader::parse', 'Frame::parse', 'Decoder::decode', 'HeaderIndex::get_from_index', 'HuffmanDecoder::decode'],
  'abstract interpretation of MIR: intervals and linear relations discharge every panic site',
  TRUST + PAN + 'Composed: the frame readers assume nothing of the header block decoder but that it moves the buffer forward, which is its own entry; '
  'the decoder assumes nothing of the dynamic table, whose eviction loop relies on the size accounting property.')

p('C03', 'WebSocket readers never panic',
  'Reading a frame, with or without a size limit, and assembling a message from frames returns a value or an error for every octet sequence and every list of frames; it never panics, overflows or indexes out of bounds.',
  'inputs', 'every octet sequence and every list of frames',
  'tests read ten literal frames',
  'src/ws/frame_header.rs src/ws/dataframe.rs src/ws/message.rs src/ws/mask.rs',
  ['DataFrame::read_dataframe', 'DataFrame::read_dataframe_with_limit', 'read_header', 'Message::from_dataframes', 'OwnedMessage::from_dataframes'],
  'abstract interpretation of MIR: intervals and linear relations discharge every panic site', TRUST + PAN)

p('C04', 'Readers of untrusted octets always return',
  'No octet sequence makes the HTTP/1, URL, HTTP/2, HPACK, Huffman or WebSocket readers loop without end: every loop they reach moves some bounded quantity one way on each trip.',
  'inputs', 'every octet sequence and every list of frames, in any decoder state',
  'a test that hangs never samples the input that makes it hang',
  'src/helper.rs src/http/request.rs src/http/response.rs src/url/url.rs src/http/http2/frame/frame.rs src/http/http2/hpack/decoder.rs src/http/http2/hpack/huffman.rs src/ws/dataframe.rs src/ws/message.rs',
  ['every loop reachable from the readers'],
  'abstract interpretation of MIR: lexicographic progress measure for every loop',
  TRUST + 'Recursion is followed to a fixed depth and fails the check beyond it. Loops inside std are taken to end.')

p('C38', 'Named constants denote the registered values',
  'Every named constant a program refers to stands for the value its name is registered for: status codes, header names, methods, version strings, HTTP/2 error codes, flag bits, the connection preface and the limits and defaults of the protocol.',
  'inputs', 'every named constant of the crate',
  'tests refer to constants by name on both sides, so an exchanged or mistyped value is never noticed',
  'src/http/status.rs src/http/name.rs src/http/method.rs src/http/version.rs src/http/http2/mod.rs src/http/http2/frame/reason.rs src/http/http2/frame/flag.rs',
  ['StatusCode constants', 'HeaderName constants', 'Method constants', 'Version constants', 'Reason constants', 'Flag constants', 'http2 limits'],
  'query over compiler-evaluated constants vs registry tables', TRUST + 'Header names are compared without regard to case.')
