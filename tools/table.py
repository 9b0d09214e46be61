# ---------------------------------------------------------------- utilities
U = 'src/utils/'
prop('S01', 'Quoting and unquoting of strings are inverse',
 'Quoting any string and unquoting the result gives the string back, also when only a prefix of the string or of the buffer is given and when the result is a token inside a longer text. '
 'The quoted form starts and ends with a double quote and is a valid JSON string literal for any text without control characters. '
 'Unquoting any input never reads or writes outside its arguments and reports the consumed length.',
 'inputs', 'every string (any bytes) up to the bound, every buffer size', 'tests/utils/test_strutils.c quotes a handful of strings; the properties are about every mix of quotes, backslashes, truncation points',
 U+'strutils.c '+U+'strutils.h', [('strquote/strnquote', U+'strutils.c'), ('strunquote/strnunquote', U+'strutils.c'), ('strput_unquote', U+'strutils.c')])
prop('S02', 'String writers stay inside their buffer and return the full length',
 'Functions that copy, append or escape strings into a caller-supplied buffer never write at or beyond the given size, always NUL-terminate when the size is positive and return the length the complete result has. '
 'Their allocating variants hold the complete result at the requested position and leave what precedes it untouched. Number parsing limited to n bytes looks at those bytes only.',
 'inputs', 'every source string, buffer size, position and previous content up to the bound', 'tests use buffers that fit or one truncation; over-runs by one and empty sources need every size',
 U+'strutils.c', [('strsets/strsetn/strput/strnput/strnput_escape/natoi', U+'strutils.c')])
prop('S03', 'Hexadecimal encoding of binary data is reversible',
 'Encoding bytes as hexadecimal digits and decoding them gives the same bytes for any content, and lengths returned do not depend on the buffer size. '
 'Decoding accepts exactly strings of hexadecimal digits and never writes beyond the buffer.',
 'inputs', 'all byte strings up to the bound, all buffer sizes', 'tests encode three blobs',
 U+'strutils.c', [('strhex_encode/strhex_decode', U+'strutils.c')])
prop('S04', 'Semantic versions are recognised and ordered as semver.org prescribes',
 'The length of the longest valid semantic version that starts a string is reported for every string. '
 'Comparing two versions gives the precedence order of the Semantic Versioning 2.0 specification for core versions and pre-release identifiers, and is antisymmetric.',
 'inputs', 'all strings up to the bound', 'tests compare a fixed list of versions',
 U+'strutils.c', [('strchk_semver/strcmp_semver', U+'strutils.c')])
prop('S05', 'NULL-terminated string lists keep their elements on insert, append and remove',
 'After inserting, appending or removing an element at any valid index the list holds exactly the expected strings in order, is NULL-terminated, and its length is right, for every length including those where the list has to grow. '
 'Indices outside the list are handled as documented and leave it unchanged.',
 'inputs histories', 'all lists and indices up to the bound, lengths around the growth boundary', 'tests never reach the allocation boundary at 32 elements',
 U+'strutils.c', [('strlst_insert/append/remove', U+'strutils.c')])
prop('S06', 'Glob patterns match exactly the strings they describe',
 'A pattern of literals, "?", "*", character groups with ranges and negation, and backslash escapes matches a string exactly when the string is in the language of the pattern.',
 'inputs', 'every pattern over the token alphabet up to the bound, every string up to the bound', 'tests/utils/test_globmatch.c matches a few fixed pairs; bugs hide in backtracking combinations',
 U+'globmatch.c', [('globmatch/globchars', U+'globmatch.c')])
prop('S07', 'UTF-8 encoding and decoding of code points are inverse',
 'Every code point is encoded in its shortest form and decoded back to the same value with the same length; values that cannot be encoded and malformed byte sequences are reported with length zero.',
 'inputs', 'every 64 bit code point, every sequence of up to six bytes', 'tests try a handful of code points',
 U+'unicode.c', [('utf8encode/utf8decode', U+'unicode.c')])
prop('S08', 'URI component encoding is reversible and bounded',
 'Encoding arbitrary bytes as a URI component and decoding them gives the bytes back, only unreserved characters and percent escapes are produced, and the returned lengths equal the number of bytes written. '
 'Decoding arbitrary input never writes more than it reads and leaves malformed escapes as they are.',
 'inputs', 'all byte strings up to the bound', 'tests encode a few fixed strings',
 U+'uri_encode.c', [('uriencode/uridecode', U+'uri_encode.c')])
prop('S09', 'Percent encoding is reversible and never exceeds its buffer',
 'Percent-decoding undoes percent-encoding for any text, characters that need not be encoded are kept, malformed escapes are rejected, and the encoded length does not depend on the buffer size, which is never exceeded.',
 'inputs', 'every text up to the bound, every buffer size', 'tests encode a few texts',
 U+'urlsplit.c '+U+'strutils.c', [('pct_encode/pct_xencode/pct_decode/pct_ndecode', U+'urlsplit.c')])
prop('S10', 'Boolean words are recognised as documented',
 'Exactly the documented words, in any letter case, are read as true or false, the end pointer always tells where reading stopped, and anything else is reported as not a boolean.',
 'inputs', 'all strings up to the bound', 'tests check lower case words',
 U+'strtob.c', [('strtob', U+'strtob.c')])
prop('S11', 'Rounding to powers of two is exact',
 'Rounding a size up (down) gives the smallest (largest) power of two not less (greater) than it, for every representable size.',
 'inputs', 'every size_t', 'tests check small values',
 U+'clp2.c', [('clp2/flp2', U+'clp2.c')])
prop('S12', 'Dimension expressions are evaluated by the rules of arithmetic',
 'An expression of integers, variables, operators and parentheses evaluates to the value given by operator precedence, left associativity and C integer arithmetic. '
 'Anything that is not an expression, and any division by zero, yields an error message and the error value rather than a crash. '
 'A dimension is reported to depend on a variable exactly if the variable occurs as a whole word.',
 'inputs', 'every pair of operators and parenthesis placement, every value of the variables in the bound', 'tests evaluate a fixed list of expressions',
 U+'infixcalc.c', [('infixcalc/infixcalc_depend', U+'infixcalc.c')])
prop('M01', 'Hash maps return the last value set for each key',
 'After any sequence of set and remove operations a map returns, for every key, the value set last, does not find removed keys, and its iterator yields every key in the map exactly once.',
 'histories inputs', 'every history of set/remove operations on colliding and non-colliding keys up to the bound, every value', 'tests use one order of operations',
 U+'map.c', [('map_set_/map_get_/map_remove_/map_next_', U+'map.c')])
prop('M02', 'Global states of a session are kept once and released exactly once',
 'A state added to a session is found under its name until it is removed, cannot be added twice, and its free function is called exactly once, when it is removed or when the session is freed. Sessions are found by their identifier as long as they exist.',
 'histories', 'every history of add/remove operations up to the bound, sessions freed in either order', 'tests use one session with a fixed history',
 U+'session.c', [('session_add_state/session_remove_state/session_free', U+'session.c')])
T = 'src/dlite-type.c'
prop('T01', 'Type names and data types correspond one to one',
 'The name written for any data type and size is read back as the same data type and size. '
 'Reading a text as type name succeeds exactly for the documented names (with explicit size where one is needed), and gives their type and size. Names are never written beyond the buffer.',
 'inputs', 'every type and size, every text up to the bound', 'tests read a handful of names; abbreviations and trailing characters are not tried',
 T+' src/dlite-type.h', [('dlite_type_set_typename/dlite_type_set_dtype_and_size', T)])
prop('T02', 'Copied values are equal to and independent of their source',
 'Copying a value of any data type gives an equal value with memory of its own for all strings it owns; absent optional strings stay absent. Clearing a value releases everything it owns and leaves it zeroed, without touching memory around it.',
 'inputs', 'every type, content and combination of optional fields up to the bound', 'tests copy few types with all fields set',
 T, [('dlite_type_copy/dlite_type_clear', T)])
prop('T03', 'Casting values preserves them whenever the new type can represent them',
 'Casting between booleans, integers and floats of any size gives the value of a C conversion, preserving every value that fits, refuses negative values for unsigned types, never changes the source and never writes outside the destination. '
 'Casting text succeeds exactly when it is a number of the requested kind, blobs are truncated or zero-padded.',
 'inputs', 'every pair of numeric types, every value; texts and blobs up to the bound', 'tests cast a few values between a few types',
 'src/dlite-type-cast.c', [('dlite_type_copy_cast', 'src/dlite-type-cast.c')])
prop('T04', 'Arrays are cast element by element for any shape and memory layout',
 'Casting an n-dimensional array stores, at every index of the destination, the cast of the element at the same (row-major) position of the source, whatever the strides of either side (C order, Fortran order, padded, reversed), and touches nothing else. '
 'Shapes with different numbers of elements are refused, empty arrays copy nothing, and strings are duplicated rather than shared.',
 'inputs', 'all shapes and strides up to the bound, every element value', 'tests cast one 3-d array with three layouts',
 T, [('dlite_type_ndcast', T)])
E_ = 'src/dlite-entity.c'
prop('I01', 'Instances are laid out and created as their metadata says',
 'An instance created from metadata has the requested dimensions, property shapes evaluated from them, zeroed properties that are aligned and overlap neither each other nor dimensions, and no memory for empty arrays. '
 'The metadata lists its dimensions and properties as given, and names that do not exist are reported as such.',
 'inputs', 'every combination of three property types for the layout, all dimensions up to the bound, any bytes written to the properties', 'tests create a handful of instances; overlap and alignment are never checked',
 E_+' src/dlite-type.c', [('dlite_meta_init/dlite_instance_create/dlite_instance_size', E_), ('dlite_type_padding_at', 'src/dlite-type.c')])
prop('I02', 'Property values are kept exactly and never change on frozen instances',
 'Setting a property stores exactly the value given, in memory of the instance, whatever was there before, and leaves all other properties alone. A copied instance holds the same values and is independent of the original. '
 'A frozen instance refuses every change of properties, dimensions and parent, and its copies can be changed. Properties referring to instances accept only instances of the right metadata.',
 'inputs histories', 'any numbers and strings, all kinds of properties, dimensions up to the bound', 'tests set few values once',
 E_+' src/dlite-type.c', [('dlite_instance_set_property/dlite_instance_copy/dlite_instance_freeze', E_), ('dlite_type_copy', 'src/dlite-type.c')])
prop('I03', 'Changing dimensions keeps the values and zeroes what is new',
 'After changing dimensions of an instance its dimensions and shapes are the new ones, elements that are still there keep their values, new elements are zero or absent, scalars are untouched, and what is gone is released. Dimensions that are not mentioned stay as they are; dimensions of metadata cannot be changed.',
 'inputs histories', 'any values, growing and shrinking dimensions up to the bound', 'tests change dimensions of one instance once or twice',
 E_, [('dlite_instance_set_dimension_sizes/dlite_instance_set_dimension_size', E_)])
prop('I05', 'Instances live exactly as long as they are referenced',
 'Every instance exists in the store, and is found by its UUID and uri, from its creation until its last reference is released, and then never again. Creating, getting, copying and referring to an instance add one reference each, releasing takes one; '
 'an instance that exists is returned, not created again, and refused if its dimensions differ. Each instance holds a reference to its metadata. Releasing everything leaves no memory behind.',
 'histories', 'every history of references to two instances up to the bound', 'tests follow fixed histories and cannot see leaks or late releases',
 E_, [('dlite_instance_incref/dlite_instance_decref/dlite_instance_get/dlite_instance_has', E_)])
prop('I06', 'The hash of an instance depends on all of its content and nothing else',
 'Instances with equal dimensions, property values and parent have equal hashes, whatever their ids. Changing any one number, string (other than between an absent and an empty one), array element, dimension or the parent changes what is hashed, and so does changing a field of a dimension, property or relation of metadata.',
 'inputs', 'any numbers, every kind of property, every single change', 'tests compare a few fixed hashes',
 E_+' src/dlite-type.c', [('dlite_instance_get_hash', E_), ('dlite_type_update_sha3', 'src/dlite-type.c')])
prop('I07', 'Snapshots preserve history and any later change of them is detected',
 'Every snapshot of an instance is an immutable instance of its own that holds the values at the time it was made, in order. A transaction verifies as long as nobody changes an ancestor, and any such change is detected. '
 'Only immutable instances can be parents, parents live as long as their children and are released with them.',
 'inputs histories', 'any values, two snapshots, any change of any ancestor', 'tests make one history and never tamper with it',
 E_, [('dlite_instance_snapshot/dlite_instance_set_parent/dlite_instance_verify_hash', E_)])
MI = 'src/dlite-misc.c'
prop('U01', 'UUIDs are well formed, deterministic and parsed exactly',
 'A text is taken as UUID exactly if it is 36 characters of hexadecimal digits and hyphens in the right places. Printing and reading a UUID are inverse to each other. Named UUIDs depend on all of name space and name and on nothing else, random and named UUIDs carry the right version and variant, and comparison of UUIDs is a total order.',
 'inputs', 'every text up to 37 characters, every digest and random bits', 'tests try a handful of texts',
 U+'uuid.c '+U+'uuid4.c', [('isuuid/uuid_from_string/uuid_as_string/uuid_create_sha1_from_name', U+'uuid.c'), ('uuid4_generate', U+'uuid4.c')])
prop('L01', 'The same id always gives the same UUID and is normalised the same way',
 'An id that is a UUID, or ends with a slash or hash followed by a UUID, is that UUID; any other id gives the version 5 UUID of exactly its text without final hash or slash; no id gives a random one. The kind of id reported says which. '
 'A normalised id is prefixed with the name space unless it is a URL already, has no final hash or slash, normalising it again changes nothing, and buffers of any size are never overrun.',
 'inputs', 'ids of the critical lengths around a UUID with arbitrary characters', 'tests convert a fixed list of ids',
 MI, [('dlite_get_uuid/dlite_idtype/dlite_normalise_id/dlite_normalise_idn', MI)])
prop('L02', 'URLs are recognised and split into components as in RFC 3986',
 'A text is recognised as URL exactly if it has a valid scheme, authority and the allowed characters; the components reported are the ones RFC 3986 defines and cover all of it. Only the first characters asked for are considered. '
 'Joining components gives back the text, never beyond the buffer, and returns the length needed.',
 'inputs', 'every text up to the bound, also behind a scheme or a host', 'tests split a fixed list of URLs',
 U+'urlsplit.c', [('urlsplitn/isurln/urljoin', U+'urlsplit.c')])
prop('O01', 'Storage locations, options and metadata URIs are split and joined exactly',
 'Splitting a storage URL finds driver, location, options and fragment where the documentation says, also for Windows paths. Options given as a string are percent-decoded and assigned to the option of that name only, unknown names are refused, and nothing is left behind. '
 'A metadata URI is split at its last two slashes into name space, version and name, and joined back to the same text; a URI with fewer slashes is refused.',
 'inputs', 'every text up to the bound', 'tests split a fixed list of locations',
 MI, [('dlite_split_url_winpath/dlite_join_url/dlite_option_parse/dlite_split_meta_uri/dlite_join_meta_uri', MI)])
prop('M04', 'Errors are reported, chained and restored as the nesting of try blocks says',
 'After a sequence of errors the current error value and message are those the override mode asks for, and clearing removes them. Errors in an inner try block are visible there only unless re-raised, and leave the outer error as it was. '
 'Messages are truncated, terminated, and never written beyond their buffer.',
 'inputs histories', 'any two errors in a row and two levels of nesting, with messages of any characters, all override modes', 'tests follow one fixed history with short messages',
 U+'err.c', [('_err_format/_err_vformat/_err_link_record/_err_unlink_record', U+'err.c')])
prop('M05', 'Errors have distinct names and are hidden one by one',
 'Every error code has a distinct name and a description, and the name leads back to the code. Choosing not to print one error affects no other error, and error names in front of a message are taken off, nothing else.',
 'inputs', 'every error code, every set of ignored errors, every message up to the bound', 'tests use two or three error codes',
 MI+' src/dlite-errors.c', [('dlite_errname/dlite_errcode', 'src/dlite-errors.c'), ('dlite_err_ignored_set/dlite_err_ignored_get/dlite_errmsg', MI)])
prop('A01', 'Array views address exactly the elements they stand for',
 'An array view describes elements in row-major order; indexing, iteration, transposing, reshaping and slicing (start, stop and step as in Python, any sign) refer to exactly the right elements of the same data, whatever the strides. '
 'A contiguous copy holds the same elements in order. Arrays compare equal exactly if layout and elements are equal.',
 'inputs', 'all shapes, strides, slices up to the bound', 'tests use one 3 x 4 array with few slices',
 'src/dlite-arrays.c', [('dlite_array_slice/dlite_array_iter_next/dlite_array_make_continuous/dlite_array_compare', 'src/dlite-arrays.c')])
prop('J01', 'JSON texts are split into tokens that describe them exactly',
 'Every JSON text with an object or array outermost is accepted, and the tokens give the kind, place, parent and number of children of each of its parts in order; an incomplete text is never accepted. '
 'For any text at all, no token refers outside of the text, nothing outside of the given text and tokens is accessed, and too few tokens are reported or, where asked for, replaced by enough. '
 'A member is found exactly by its whole key, the first if there are several, and elements by their index.',
 'inputs', 'every short text and number of tokens, every short continuation, every key', 'tests parse a few fixed texts',
 U+'jsmn.h '+U+'jsmnx.c', [('jsmn_parse', U+'jsmn.h'), ('jsmn_parse_alloc/jsmn_item/jsmn_element/jsmn_count', U+'jsmnx.c')])
prop('H01', 'Digests are the standard ones however the message is split',
 'SHA-3, SHA-1 and MD5 digests depend only on the concatenation of the pieces they are given, and equal the digest defined by FIPS 202, FIPS 180-4 and RFC 1321 for every message, in particular around block sizes.',
 'inputs', 'every content of messages around the block sizes, every division into pieces at the bound', 'tests digest a few messages in one piece',
 U+'sha3.c '+U+'sha1.c '+U+'md5.c', [('sha3_Update/sha3_Finalize', U+'sha3.c'), ('SHA1Update/SHA1Final', U+'sha1.c'), ('MD5Update/MD5Final', U+'md5.c')])
