#!/usr/bin/env python3
"""Single source of properties.jsonl (run it after editing)."""
import json, os
E='ethabi/src/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,**({'state':state} if state else {}))))
TY="Solidity ABI types (address, bool, string, bytes, bytes1..bytes32, intN/uintN for N = 8..256, T[], T[k] with k >= 1, tuples with at least one field, nested to any depth)"

prop('C01','Encoding follows the Solidity ABI specification byte for byte',
 "Encoding any list of well-typed values produces exactly the bytes the Solidity contract ABI specification prescribes for them: static values in place in the head, dynamic values behind a 32-byte offset relative to the start of the enclosing tuple or array, lengths before dynamic contents, integers, addresses and booleans left-padded and byte sequences right-padded with zeros. This holds for every nesting of tuples, fixed and dynamic arrays, every element count including zero, and every byte length (empty, a multiple of 32, larger than 255, 65535 or 16 MiB).",
 ['inputs'],"all lists of values of all "+TY,
 "The tests compare about 60 fixed hex vectors, at most three levels deep, with lengths below 100 bytes; they say nothing about other shapes, nestings and lengths.",
 [E+'encoder.rs',E+'util.rs',E+'token/token.rs'],
 [('head/tail construction',E+'encoder.rs: Mediate, encode_head_tail'),('padding',E+'encoder.rs: pad_bytes, pad_fixed_bytes; util.rs: pad_u32'),('static/dynamic split',E+'token/token.rs: is_dynamic')],
 ['ethabi::encode'])
prop('C02','Decoding inverts encoding for every type',
 "Encoding any list of well-typed values and decoding the bytes with the same types returns exactly the original values, in the original order and with the original structure. The types and values are arbitrary: any nesting of tuples, fixed arrays and dynamic arrays, any lengths, any UTF-8 strings, any integers up to 256 bits.",
 ['inputs'],"all lists of values of all "+TY,
 "Round trips are tested for the same fixed vectors only; offset arithmetic errors that need a particular mix of static and dynamic neighbours, depth or length do not show.",
 [E+'decoder.rs',E+'encoder.rs',E+'param_type/param_type.rs'],
 [('recursive decoding with relative offsets',E+'decoder.rs: decode_param'),('encoding',E+'encoder.rs: encode_head_tail')],
 ['ethabi::encode','ethabi::decode'])
prop('C03','Decoding arbitrary bytes is exact or fails cleanly, never panics',
 "Decoding any byte string against any list of types never panics: it either returns an error or returns exactly the values that the ABI layout locates in those bytes. It succeeds only if every word, offset, length and content it needs lies inside the buffer; offsets or lengths that point outside it, values of 2^32 and above used as offsets or lengths, boolean words with any of the upper 31 bytes set, and empty data for a non-empty type list are errors.",
 ['inputs'],"all byte strings (valid encodings, corrupted encodings, arbitrary words) against all "+TY,
 "Four corrupted inputs are tested; decoders see arbitrary chain data, so the guarantee is over all byte strings.",
 [E+'decoder.rs'],
 [('bounds checks',E+'decoder.rs: peek, take_bytes, decode_param'),('word validation',E+'decoder.rs: as_usize, as_bool')],
 ['ethabi::decode'])
prop('C04','Truncated data is rejected; padding and trailing bytes do not matter',
 "If a valid encoding is cut short anywhere before the last content byte that the values occupy, decoding fails instead of returning altered values; cutting off only the zero padding after the last byte-sequence content still decodes to the same values. Appending arbitrary bytes after a valid encoding never changes the decoded values, and neither do non-zero bytes in the padding that follows byte sequences or in the unused upper 12 bytes of an address word.",
 ['inputs'],"all valid encodings of all "+TY+", all truncation points, all appended suffixes, all padding contents",
 "One unpadded and one oddly sized input are tested; the claim is about every cut position of every encoding.",
 [E+'decoder.rs'],
 [('length checks on contents only',E+'decoder.rs: take_bytes, peek'),('address word',E+'decoder.rs: decode_param (Address)')],
 ['ethabi::decode'])
prop('C05','Decoding memory is bounded by the data, not by claimed lengths',
 "Memory allocated while decoding is at most a constant multiple of the number of bytes and elements actually reached inside the buffer; a corrupted array or byte-string length that exceeds the data never causes an allocation proportional to the claimed length. Decoding such data ends with an error after work proportional to the data.",
 ['inputs'],"all corrupted encodings of all "+TY+" with claimed lengths up to 2^32-1 at any array or byte-string length word",
 "One corrupted array is tested and only for the error result, not for what was allocated.",
 [E+'decoder.rs'],
 [('element vectors grow as elements are decoded',E+'decoder.rs: decode_param (Array, Bytes, String)')],
 ['allocations made during ethabi::decode'])
prop('C06','Selectors and event topics are Keccak-256 of the canonical signature',
 "For every function the call data starts with the first four bytes of Keccak-256 of its name followed by the parenthesised comma-separated canonical input types, and for every event the signature topic is the full 32-byte Keccak-256 of the same form; canonical means full widths (uint256, not uint), tuples expanded to their component lists and array suffixes kept. Parameter names, output types, mutability, indexed flags and anonymity have no influence on either. A function's readable signature is name(inputs) followed by :(outputs) exactly when it has outputs.",
 ['inputs','configurations'],"all functions and events: any name, any parameter list over all "+TY,
 "One selector over (uint32,bool) is tested plus a handful in ABI files; nothing covers tuples, nested arrays or the other integer widths.",
 [E+'signature.rs',E+'param_type/writer.rs',E+'function.rs',E+'event.rs'],
 [('signature hashing',E+'signature.rs: fill_signature'),('canonical type names',E+'param_type/writer.rs: write'),('readable signature',E+'function.rs: signature')],
 ['Function::encode_input','Function::signature','Event::signature'])
prop('C07','Calls are built only from arguments that match the declared parameters',
 "Building function call data or constructor data succeeds exactly when the argument list has the declared length and every argument, at every nesting level, has the declared kind, fixed-array length and tuple field count (a non-empty byte value no longer than N is accepted for bytesN and integers match any width of the same signedness); every other argument list is refused with an error, never a panic. An accepted function call is the selector followed by the ABI encoding of the arguments, an accepted constructor call is the given code followed by the encoding, and decoding a function's input or output data uses its declared inputs or outputs respectively.",
 ['inputs'],"all pairs of parameter list and argument list, matching or mismatching at any depth, over all "+TY,
 "About a dozen flat pairs are tested, none with tuples; mismatches can hide at any depth.",
 [E+'token/token.rs',E+'function.rs',E+'constructor.rs'],
 [('recursive type check',E+'token/token.rs: type_check, types_check'),('gate before encoding',E+'function.rs: encode_input; '+E+'constructor.rs: encode_input')],
 ['Token::types_check','Function::encode_input','Function::decode_input','Function::decode_output','Constructor::encode_input'])
prop('C08','Type names and types correspond one to one',
 "Printing any type gives its canonical Solidity name and parsing that name gives back the same type, for every nesting of tuples and arrays up to 60 levels (deeper names may be refused); int and uint parse as 256-bit types at any position. Parsing any text, however deeply nested, never panics or overflows the stack: text that is not a type name (unbalanced or misplaced parentheses or brackets, empty tuple fields, unknown base names, non-numeric sizes, trailing text) is refused with an error, and any accepted text prints to a canonical name that parses to the same type.",
 ['inputs'],"all "+TY+"; all strings, including non-ASCII ones",
 "About 25 names are tested; nested tuples beyond a few shapes and malformed names are not.",
 [E+'param_type/reader.rs',E+'param_type/writer.rs',E+'param_type/deserialize.rs',E+'param_type/param_type.rs'],
 [('parser',E+'param_type/reader.rs: read'),('printer',E+'param_type/writer.rs: write_for_abi'),('JSON form',E+'param_type/deserialize.rs')],
 ['Reader::read','Writer::write','Display of types','JSON deserialization of a type name'])
prop('C09','Loading a JSON ABI yields exactly the described interface',
 "Loading a JSON ABI gives a contract with exactly the described constructor, functions, events, fallback and receive entries: names (cut at the first opening parenthesis), parameter names, types including tuple components at any depth behind any array suffixes, internal types, indexed and anonymous flags, constant flag and state mutability (nonpayable when absent). The order of object keys, unknown extra keys and their values have no influence, whether the document is loaded as a whole contract or an entry is read on its own.",
 ['inputs','configurations'],"all JSON ABI documents over all "+TY+", all key orders, arbitrary extra keys",
 "A few hand-written documents with fixed key order are tested; overloads combined with nested tuples, optional keys and extra keys are not.",
 [E+'contract.rs',E+'operation.rs',E+'function.rs',E+'event.rs',E+'param.rs',E+'event_param.rs',E+'tuple_param.rs',E+'util.rs',E+'state_mutability.rs',E+'constructor.rs'],
 [('entry dispatch',E+'contract.rs: visit_seq; '+E+'operation.rs'),('parameter visitors',E+'param.rs, '+E+'event_param.rs, '+E+'tuple_param.rs'),('tuple components',E+'param.rs: set_tuple_components'),('name sanitising',E+'util.rs: sanitize_name')],
 ['Contract::load','serde_json::from_str of contract, function, event, constructor and parameters'])
prop('C10','Serialising a contract and loading it back gives the same contract',
 "Writing any contract to JSON and loading the result yields an equal contract: constructor, every overload of every function and event in its order, parameter names, internal types of function parameters, complete nested types, indexed and anonymous flags, constant flag, state mutability, fallback and receive. The same holds for every function, event, constructor and parameter on its own, and the written JSON uses the standard ABI keys and values so that another reader recovers the same interface.",
 ['inputs','configurations'],"all contracts, functions, events, constructors and parameters over all "+TY+", nested up to 60 levels",
 "Six small contracts are round-tripped; combinations of overloads, tuple arrays and flags are not.",
 [E+'contract.rs',E+'param.rs',E+'event_param.rs',E+'tuple_param.rs',E+'function.rs',E+'event.rs',E+'state_mutability.rs'],
 [('contract serialiser',E+'contract.rs: Serialize for Contract'),('components',E+'param.rs: SerializeableParamVec, inner_tuple')],
 ['serde_json::to_string','serde_json::from_str','Contract::load'])
prop('C11','Malformed JSON ABIs are refused with an error, never a panic',
 "Loading any byte string as a contract, from any reader, never panics or overflows the stack; input whose reading fails is refused. A document is refused if it is not a JSON array, if any entry is null, a boolean, a number or a string, or if any entry has an unknown or missing entry type, lacks a required member (name, inputs, outputs, anonymous, a parameter's name or type, the components of a tuple type), gives a parameter member twice, uses a value of the wrong JSON type, an unknown state mutability or an invalid type name; whatever is accepted survives writing and loading again unchanged.",
 ['inputs'],"all byte strings; all single-fault corruptions of valid ABI documents at any depth",
 "No malformed document is tested for more than one or two fields.",
 [E+'contract.rs',E+'operation.rs',E+'param.rs',E+'event_param.rs',E+'tuple_param.rs',E+'param_type/deserialize.rs',E+'param_type/reader.rs'],
 [('required members and duplicate detection',E+'param.rs, '+E+'event_param.rs, '+E+'tuple_param.rs: visit_map'),('type name errors',E+'param_type/deserialize.rs')],
 ['Contract::load'])
prop('C12','Name lookup returns the declared overloads in declaration order',
 "After loading an ABI, looking up all functions or all events of a name returns precisely the entries declared under that name in declaration order; the single lookup returns the first of them; a name that is not declared is an error naming it. Iterating over all functions or all events visits every declared entry exactly once, and the constructor lookup returns the declared constructor or none.",
 ['inputs','configurations'],"all ABI documents with any number of overloads and any interleaving of entries; all looked-up names",
 "Two overload documents are tested, with two overloads each.",
 [E+'contract.rs'],
 [('grouping by name',E+'contract.rs: visit_seq'),('lookups',E+'contract.rs: function, event, functions_by_name, events_by_name, functions, events')],
 ['Contract::function','Contract::event','Contract::functions_by_name','Contract::events_by_name','Contract::functions','Contract::events','Contract::constructor'])
prop('C13','Event logs decode to the emitted values in declaration order',
 "For any event and any values, decoding the log an EVM contract emits for them returns every parameter in declaration order, under its declared name, with the emitted value; an indexed parameter of type string, bytes, array or tuple is returned as its 32-byte topic hash. This holds for anonymous and ordinary events, any mix and order of indexed and plain parameters, and unnamed or equally named parameters.",
 ['inputs'],"all events with up to four topics, all parameter lists over all "+TY+", all emitted values",
 "One log of one event is tested in the library and one in the command line tool.",
 [E+'event.rs',E+'decoder.rs',E+'log.rs'],
 [('topic/data split and reassembly',E+'event.rs: parse_log, indexed_params'),('hashed topics',E+'event.rs: convert_topic_param_type')],
 ['Event::parse_log'])
prop('C14','Logs that do not belong to the event are refused, never misread',
 "Decoding a log with any event never panics. It fails if the event is not anonymous and the first topic is missing or differs from the event's signature topic, if the number of topics after it differs from the number of indexed parameters, or if a topic word or the data is not a valid encoding of the declared types; otherwise it returns exactly what the topics and data encode.",
 ['inputs'],"all pairs of an event and a raw log: emitted logs of the same or another event, corrupted and arbitrary logs",
 "No rejected log is tested in the library.",
 [E+'event.rs',E+'decoder.rs'],
 [('signature check and topic count',E+'event.rs: parse_log'),('bounds checks',E+'decoder.rs')],
 ['Event::parse_log'])
prop('C15','Event filters carry exactly the topics a matching log would have',
 "The filter built for an event from values for its first three indexed parameters contains, at each position, the very topic an EVM contract emits for that value: the padded word for value types, Keccak-256 of the raw contents for string and bytes, and Keccak-256 of the concatenated padded elements without lengths or offsets for arrays and tuples; the signature topic comes first unless the event is anonymous. Unconstrained positions stay unconstrained, alternatives keep their order, and a value of the wrong type or for a non-existent indexed parameter is refused with an error.",
 ['inputs'],"all events, all filter values (none, one, alternatives) over all "+TY,
 "Only address filters built by generated code are executed, and their topics are not compared with anything.",
 [E+'event.rs',E+'filter.rs'],
 [('topic conversion',E+'event.rs: filter, convert_token, convert_topic')],
 ['Event::filter'])
prop('C16','Topic filters convert and serialise to the JSON-RPC form without loss',
 "A topic filter serialises to a JSON array of exactly four entries in topic order: null for any, a 0x-prefixed 64-digit lowercase hex string for one hash, and an array of such strings in order for alternatives (also when there are none or one). Conversions between topics and optional values, single values and lists, mapping over a topic, the any test and indexing agree with this reading for every content.",
 ['inputs'],"all topic filters with any hashes, including leading zeros, and any number of alternatives",
 "One filter is serialised in the tests.",
 [E+'filter.rs'],
 [('serialisation',E+'filter.rs: Serialize for TopicFilter and Topic'),('conversions',E+'filter.rs: From, map, is_any, Index')],
 ['serde_json::to_string of a filter','Topic conversions'])
prop('C17','Strict text values parse to exactly the value they spell',
 "In strict mode a text parses as a given type exactly when it spells a value of it: 40 hex digits for address, true/false/1/0 for bool, 2N hex digits for bytesN, an even number of hex digits for bytes, 64 hex digits for integers, any text for string, and [..] or (..) around comma-separated element texts for arrays and tuples, where commas and brackets inside nested brackets, parentheses or double quotes do not separate. The parsed value is the spelled one at every nesting level; hex digits may have either case.",
 ['inputs'],"all types and values of all "+TY+", all spellings, any Unicode in strings",
 "A dozen texts are tested, only flat lists of booleans among the composites.",
 [E+'token/mod.rs',E+'token/strict.rs'],
 [('splitting of arrays and tuples',E+'token/mod.rs: tokenize_array, tokenize_struct, tokenize_fixed_array'),('leaf parsers',E+'token/strict.rs')],
 ['StrictTokenizer::tokenize'])
prop('C18','Lenient mode adds decimal integers with exact range checks',
 "In lenient mode an integer may also be written in decimal: an unsigned one as digits, a signed one as digits with an optional single leading minus; the parsed value is the two's complement word of that number, and numbers outside 0..2^256-1 or -2^255..2^255-1 and texts that are not such numbers are refused. Every text that strict mode accepts parses to the same value in lenient mode, and for types without integers both modes accept the same texts.",
 ['inputs'],"all integers near and beyond every range boundary, with leading zeros, alone or nested in arrays and tuples; all texts",
 "Six numbers are tested.",
 [E+'token/lenient.rs',E+'token/mod.rs'],
 [('decimal parsing',E+'token/lenient.rs: tokenize_uint, tokenize_int')],
 ['LenientTokenizer::tokenize'])
prop('C19','Malformed text values are refused, never dropped, guessed or panicked on',
 "Parsing any text as any type in either mode never panics, and any accepted text yields a value that matches the type, including the number of tuple fields and fixed-array elements. Texts with unbalanced brackets, parentheses or quotes, with text before or after the enclosing bracket pair, with a wrong number of fields or elements, or with an element that is not valid for its type are refused as a whole; no element is ever skipped.",
 ['inputs'],"all strings (corrupted spellings, bracket soup, arbitrary Unicode) against all "+TY,
 "Five malformed texts are tested.",
 [E+'token/mod.rs',E+'token/strict.rs',E+'token/lenient.rs'],
 [('bracket and quote tracking, arity',E+'token/mod.rs: tokenize_array, tokenize_struct, tokenize_fixed_array')],
 ['StrictTokenizer::tokenize','LenientTokenizer::tokenize'])
prop('C20','Values and types print to their exact textual form',
 "Displaying a decoded value prints true/false, the string itself, 40 hex digits for an address, all bytes in hex for byte sequences, minimal lowercase hex without prefix for integers, and [..] or (..) around comma-separated elements for arrays and tuples, at every nesting depth. Extracting the content of a value as a given kind returns exactly that content if the value is of that kind and nothing otherwise.",
 ['inputs'],"all values of all "+TY,
 "Display of values is only exercised through four command line outputs; extraction is not tested.",
 [E+'token/token.rs',E+'param_type/param_type.rs'],
 [('Display',E+'token/token.rs: Display for Token'),('extractors',E+'token/token.rs: into_*')],
 ['Token Display','Token::into_*'])
prop('C21','Static/dynamic classification of values and types agrees with the ABI',
 "A type is classified as dynamic exactly if it is string, bytes, a dynamic array, or a fixed array or tuple that contains a dynamic type at any depth, and every value of a type is classified like its type. A zero-length byte string is reported to be a valid encoding of a type only for the types whose encoding is empty (bytes0 and arrays of fixed length 0).",
 ['inputs'],"all "+TY+" and all their values with at least one element in fixed arrays",
 "About ten types without tuples are tested.",
 [E+'param_type/param_type.rs',E+'token/token.rs'],
 [('type classification',E+'param_type/param_type.rs: is_dynamic, is_empty_bytes_valid_encoding'),('value classification',E+'token/token.rs: is_dynamic')],
 ['ParamType::is_dynamic','ParamType::is_empty_bytes_valid_encoding','Token::is_dynamic'])
prop('C22','The command line encoder outputs exactly the ABI encoding or fails',
 "The encode commands print the lowercase hex ABI encoding of the given typed texts, and for a function of an ABI file the selector followed by that encoding, in strict or lenient mode; nothing else is printed and the exit status is zero. If a type, value, number of values, file, function name or signature is wrong, they print nothing on standard output and exit with a non-zero status; too many or too few values are errors, and a bare name that has several overloads is refused while name(inputs) or name(inputs):(outputs), as the readable signature spells it, selects exactly that overload.",
 ['inputs','configurations'],"all command lines: typed texts of all "+TY+", generated ABI files with overloads, valid and faulty arguments",
 "About fifteen fixed command lines are tested.",
 ['cli/src/main.rs'],
 [('argument pairing and parsing','cli/src/main.rs: encode_params, encode_input, parse_tokens'),('overload selection','cli/src/main.rs: load_function')],
 ['stdout and exit status of ethabi encode params / encode function'])
prop('C23','The command line decoder prints exactly the decoded values or fails',
 "The decode commands print one line per value in order, type and value for parameters and function outputs, name and value for log parameters, with values in their textual form; function outputs are decoded with the outputs of the selected overload and logs with the selected event, chosen by unambiguous name or by signature (spaces between the types of an event signature are ignored). Invalid hex, data that does not decode, unknown or ambiguous names and wrong topics produce no standard output and a non-zero exit status.",
 ['inputs','configurations'],"all command lines: encodings of values of all "+TY+", generated ABI files with overloaded functions and events, emitted logs, valid and corrupted data",
 "About eight fixed command lines are tested.",
 ['cli/src/main.rs'],
 [('decoding and printing','cli/src/main.rs: decode_params, decode_call_output, decode_log'),('overload selection','cli/src/main.rs: load_function, load_event, hash_signature')],
 ['stdout and exit status of ethabi decode params / decode function / decode log'])
prop('C24','Generated function and constructor bindings match the dynamic API',
 "For every ABI without tuples or overloads whose names stay distinct when converted to Rust's snake case (Rust keywords and names the generated code uses itself included), the derived bindings compile in the editions 2018 and 2021, and the generated function encoders, call builders and constructor produce exactly the bytes of the ABI encoding of their arguments behind the function's selector or the given code. Generated output decoders return exactly the encoded output values as Rust values (unit, single value or tuple) and an error for data that does not decode, without panicking.",
 ['programs','inputs'],"all ABI documents over tuple-free types, all argument and output values",
 "Six fixed ABI files are compiled and five calls executed; fixed arrays in outputs and nested arrays never are.",
 ['derive/src/function.rs','derive/src/constructor.rs','derive/src/contract.rs','derive/src/lib.rs','contract/src/lib.rs'],
 [('code generation','derive/src/function.rs, derive/src/constructor.rs: generate'),('type mapping','derive/src/lib.rs: rust_type, to_token, from_token, template_param_type, to_syntax_string')],
 ['compiled bindings: encode_input, call, decode_output, constructor'])
prop('C25','Generated event bindings match the dynamic API',
 "For every ABI without tuples or overloads whose names stay distinct when converted to Rust's naming, and events of at most three indexed parameters, the derived bindings compile, the generated event filter equals the topics a matching log would have for the given values, the wildcard filter constrains only the signature topic (nothing for anonymous events), and the generated log parser returns the emitted values in the fields named after the parameters, with indexed string, bytes and array parameters as their topic hash, and an error for logs that do not belong to the event, without panicking.",
 ['programs','inputs'],"all ABI documents over tuple-free types, all emitted values and filter values",
 "One transfer filter of one fixed ABI is executed and compared with nothing; no generated log parser is executed.",
 ['derive/src/event.rs','derive/src/lib.rs','contract/src/lib.rs'],
 [('code generation','derive/src/event.rs: generate_event, generate_log'),('type mapping','derive/src/lib.rs: rust_type, to_token, from_token')],
 ['compiled bindings: filter, wildcard_filter, parse_log, event'])
prop('C26','Results depend only on the arguments and the object, not on what ran before',
 "Whatever sequence of operations ran before, is repeated or runs at the same time in other threads on the same contract, every operation (building and decoding calls, signatures, lookups, log decoding, filters, constructor data, plain encoding and decoding, reading and printing types, values and JSON) returns exactly what it returns for the same arguments and the same public content of the object on its own. Operations never change their arguments or the contract, and after the public fields of a contract, function or event were changed every later result follows the new content. Entries that share a name, a type list or a part of either never influence one another.",
 ['histories','schedules','inputs'],"all sequences of operations and changes of public fields on contracts with related entries, by one or several threads, with all values of all "+TY,
 "Each test performs one operation on a fresh object in a single thread; nothing is reused, repeated, changed or shared.",
 [E+'contract.rs',E+'function.rs',E+'event.rs',E+'constructor.rs',E+'signature.rs',E+'encoder.rs',E+'decoder.rs'],
 [('operations on shared references',E+'function.rs: encode_input, decode_output, signature; event.rs: signature, filter, parse_log'),('lookups',E+'contract.rs: function, functions_by_name, event, events_by_name')],
 ['results of the public operations along a history'],state=[dict(name='contract content',meaning='the public fields of contracts, functions, events and constructors',where=E+'contract.rs: Contract')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P),'properties')
