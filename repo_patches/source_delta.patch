From ae56800c4f8af04f35b4d22490d8f37838b0c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:34 +0000
Subject: [PATCH 01/15] fix: refuse dynamic fixed array offsets beyond the data
 instead of panicking

---
 ethabi/src/decoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 825ec25..a4c2aa8 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -161,8 +161,15 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 		ParamType::FixedArray(ref t, len) => {
 			let is_dynamic = param.is_dynamic();
 
-			let (tail, mut new_offset) =
-				if is_dynamic { (&data[as_usize(&peek_32_bytes(data, offset)?)?..], 0) } else { (data, offset) };
+			let (tail, mut new_offset) = if is_dynamic {
+				let offset = as_usize(&peek_32_bytes(data, offset)?)?;
+				if offset > data.len() {
+					return Err(Error::InvalidData);
+				}
+				(&data[offset..], 0)
+			} else {
+				(data, offset)
+			};
 
 			let mut tokens = vec![];
 
-- 
2.43.0


From baee8484e5883359e0f97b5a4c6266c91e1632a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 02/15] fix: require as many tuple tokens as tuple fields in
 type checks

---
 ethabi/src/token/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 1df997c..61b9ee8 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -125,7 +125,8 @@ impl Token {
 			}
 			Token::Tuple(ref tokens) => {
 				if let ParamType::Tuple(ref param_type) = *param_type {
-					tokens.iter().enumerate().all(|(i, t)| t.type_check(&param_type[i]))
+					tokens.len() == param_type.len()
+						&& tokens.iter().zip(param_type).all(|(token, param_type)| token.type_check(param_type))
 				} else {
 					false
 				}
-- 
2.43.0


From 930702513958f0dfa49bd57ea2e10edbf01b9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:39 +0000
Subject: [PATCH 03/15] fix: refuse empty fixed bytes for non-empty fixed bytes
 types

---
 ethabi/src/token/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 61b9ee8..3737fa9 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -104,7 +104,8 @@ impl Token {
 			Token::String(_) => *param_type == ParamType::String,
 			Token::FixedBytes(ref bytes) => {
 				if let ParamType::FixedBytes(size) = *param_type {
-					size >= bytes.len()
+					// an empty value would not be encoded to any word
+					size >= bytes.len() && (size == 0 || !bytes.is_empty())
 				} else {
 					false
 				}
-- 
2.43.0


From 09787620d6fae2c483622c8b0f6690309a376688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:40 +0000
Subject: [PATCH 04/15] fix: parse nested tuple type names and refuse malformed
 ones without panicking

---
 ethabi/src/param_type/reader.rs | 109 ++++++++------------------------
 1 file changed, 26 insertions(+), 83 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 83e0267..dde3ebb 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -21,116 +21,59 @@ impl Reader {
 					return Err(Error::InvalidName(name.to_owned()));
 				};
 
+				// an empty tuple has no subtypes
+				if name.len() == 2 {
+					return Ok(ParamType::Tuple(vec![]));
+				}
+
 				let mut subtypes = Vec::new();
-				let mut subtuples = Vec::new();
 				let mut nested = 0isize;
-				let mut top_level_paren_open = 0usize;
 				let mut last_item = 1;
-				let mut chars = name.chars().enumerate();
 
-				// Iterate over name and build the nested tuple structure
-				while let Some((mut pos, c)) = chars.next() {
+				// Split the contents at the commas that are not within a nested tuple,
+				// the subtypes may be tuples or arrays of tuples themselves
+				for (pos, c) in name.char_indices() {
 					match c {
-						'(' => {
-							top_level_paren_open = pos;
-							nested += 1;
-							// If an '(' is encountered within the tuple
-							// insert an empty subtuples vector to be filled
-							if nested > 1 {
-								subtuples.push(vec![]);
-								last_item = pos + 1;
-							}
-						}
+						'(' => nested += 1,
 						')' => {
 							nested -= 1;
-
-							// End parsing and return an error if parentheses aren't symmetrical
-							if nested < 0 {
+							// the first parenthesis has to be closed by the last one
+							if nested <= 0 && pos + 1 != name.len() {
 								return Err(Error::InvalidName(name.to_owned()));
 							}
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							else if name[last_item..pos].is_empty() {
-								last_item = pos + 1;
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 0 {
-								// check for trailing brackets that indicate array of tuples
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							else if nested > 0 {
-								// this makes sure trailing brackets are included for the next step
-								loop {
-									match chars.clone().next() {
-										Some((_, ',')) | Some((_, ')')) | None => break,
-										_ => {
-											// consume the char and shift position
-											chars.next();
-											pos += 1;
-										}
-									}
-								}
-
-								// parse the nested tuple
-								let inner_tuple = &name[top_level_paren_open..=pos];
-								let subtype = Reader::read(inner_tuple)?;
-
-								if nested > 1 {
-									let mut subtuple = std::mem::take(&mut subtuples[(nested - 2) as usize]);
-									subtuple.push(subtype);
-									subtypes.push(ParamType::Tuple(subtuple));
-								} else {
-									subtypes.push(subtype);
-								}
-								last_item = pos + 1;
+							if nested == 0 {
+								subtypes.push(Reader::read(&name[last_item..pos])?);
 							}
 						}
-						',' => {
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							if name[last_item..pos].is_empty() {
-								last_item = pos + 1
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							// insert it into the subtuple vector for the current depth level
-							else if nested > 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtuples[(nested - 2) as usize].push(subtype);
-								last_item = pos + 1;
-							}
+						',' if nested == 1 => {
+							subtypes.push(Reader::read(&name[last_item..pos])?);
+							last_item = pos + 1;
 						}
 						_ => (),
 					}
 				}
+
+				// parentheses aren't symmetrical
+				if nested != 0 {
+					return Err(Error::InvalidName(name.to_owned()));
+				}
 				return Ok(ParamType::Tuple(subtypes));
 			}
 			// check if it is a fixed or dynamic array.
 			Some(']') => {
+				let open = name.rfind('[').ok_or_else(|| Error::InvalidName(name.to_owned()))?;
+				let subtype = &name[..open];
 				// take number part
-				let num: String =
-					name.chars().rev().skip(1).take_while(|c| *c != '[').collect::<String>().chars().rev().collect();
+				let num = &name[open + 1..name.len() - 1];
 
-				let count = name.chars().count();
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
-					let subtype = Reader::read(&name[..count - 2])?;
+					let subtype = Reader::read(subtype)?;
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
 					let len = num.parse()?;
-					let subtype = Reader::read(&name[..count - num.len() - 2])?;
+					let subtype = Reader::read(subtype)?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
 			}
-- 
2.43.0


From 86ef115a642cdd9b47780c6d80d2fc0984bfc8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:35 +0000
Subject: [PATCH 05/15] fix: skip the values of unknown keys when reading
 parameters

---
 ethabi/src/event_param.rs | 7 +++++--
 ethabi/src/param.rs       | 7 +++++--
 ethabi/src/tuple_param.rs | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/event_param.rs b/ethabi/src/event_param.rs
index bf279fb..9da5ceb 100644
--- a/ethabi/src/event_param.rs
+++ b/ethabi/src/event_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType, TupleParam};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -81,7 +81,10 @@ impl<'a> Visitor<'a> for EventParamVisitor {
 					}
 					indexed = Some(map.next_value()?);
 				}
-				_ => {}
+				// the values of other keys have to be consumed
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/param.rs b/ethabi/src/param.rs
index a7ed4e5..d96498c 100644
--- a/ethabi/src/param.rs
+++ b/ethabi/src/param.rs
@@ -9,7 +9,7 @@
 //! Function param.
 
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	Deserialize, Deserializer, Serialize, Serializer,
 };
 use std::fmt;
@@ -82,7 +82,10 @@ impl<'a> Visitor<'a> for ParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				// the values of other keys have to be consumed
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/tuple_param.rs b/ethabi/src/tuple_param.rs
index 1fd72e7..8ad505d 100644
--- a/ethabi/src/tuple_param.rs
+++ b/ethabi/src/tuple_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -83,7 +83,10 @@ impl<'a> Visitor<'a> for TupleParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				// the values of other keys have to be consumed
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 
-- 
2.43.0


From 92e14aee9757ac21f160c31e3ed894ddf1546725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:06 +0000
Subject: [PATCH 06/15] fix: keep log values apart when event parameters share
 a name

---
 ethabi/src/event.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index d725906..f50775f 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -10,7 +10,6 @@
 
 use serde::{Deserialize, Serialize};
 use sha3::{Digest, Keccak256};
-use std::collections::HashMap;
 
 use crate::{
 	decode, encode, signature::long_signature, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
@@ -30,11 +29,6 @@ pub struct Event {
 }
 
 impl Event {
-	/// Returns names of all params.
-	fn params_names(&self) -> Vec<String> {
-		self.inputs.iter().map(|p| p.name.clone()).collect()
-	}
-
 	/// Returns types of all params.
 	fn param_types(&self) -> Vec<ParamType> {
 		self.inputs.iter().map(|p| p.kind.clone()).collect()
@@ -151,21 +145,21 @@ impl Event {
 			return Err(Error::InvalidData);
 		}
 
-		let topics_named_tokens = topic_params.into_iter().map(|p| p.name).zip(topic_tokens.into_iter());
-
 		let data_types = data_params.iter().map(|p| p.kind.clone()).collect::<Vec<ParamType>>();
 
 		let data_tokens = decode(&data_types, &data)?;
 
-		let data_named_tokens = data_params.into_iter().map(|p| p.name).zip(data_tokens.into_iter());
-
-		let named_tokens = topics_named_tokens.chain(data_named_tokens).collect::<HashMap<String, Token>>();
-
+		// names are not necessarily unique, so the values are put back by position
+		let mut topic_tokens = topic_tokens.into_iter();
+		let mut data_tokens = data_tokens.into_iter();
 		let decoded_params = self
-			.params_names()
-			.into_iter()
-			.map(|name| LogParam { name: name.clone(), value: named_tokens[&name].clone() })
-			.collect();
+			.inputs
+			.iter()
+			.map(|p| {
+				let token = if p.indexed { topic_tokens.next() } else { data_tokens.next() };
+				token.map(|value| LogParam { name: p.name.clone(), value }).ok_or(Error::InvalidData)
+			})
+			.collect::<Result<Vec<_>>>()?;
 
 		let result = Log { params: decoded_params };
 
-- 
2.43.0


From 86b513f952248965522c83fff5e419aa3623bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:55 +0000
Subject: [PATCH 07/15] fix: hash indexed strings, bytes, arrays and tuples in
 filters as contracts emit them

---
 ethabi/src/event.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index f50775f..65b4915 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -50,13 +50,39 @@ impl Event {
 			if !token.type_check(kind) {
 				return Err(Error::InvalidData);
 			}
-			let encoded = encode(&[token]);
-			if encoded.len() == 32 {
-				let mut data = [0u8; 32];
-				data.copy_from_slice(&encoded);
-				Ok(data.into())
-			} else {
-				Ok(Hash::from_slice(Keccak256::digest(&encoded).as_slice()))
+			Ok(match token {
+				Token::String(ref content) => keccak256(content.as_bytes()),
+				Token::Bytes(ref content) => keccak256(content),
+				Token::Array(_) | Token::FixedArray(_) | Token::Tuple(_) => {
+					let mut encoded = vec![];
+					encode_in_place(&token, &mut encoded);
+					keccak256(&encoded)
+				}
+				_ => {
+					let encoded = encode(&[token]);
+					if encoded.len() == 32 {
+						Hash::from_slice(&encoded)
+					} else {
+						keccak256(&encoded)
+					}
+				}
+			})
+		}
+
+		fn keccak256(content: &[u8]) -> Hash {
+			Hash::from_slice(Keccak256::digest(content).as_slice())
+		}
+
+		// Concatenates the padded values without lengths and offsets, as described in
+		// https://solidity.readthedocs.io/en/develop/abi-spec.html#encoding-of-indexed-event-parameters
+		fn encode_in_place(token: &Token, out: &mut Vec<u8>) {
+			match token {
+				Token::Array(tokens) | Token::FixedArray(tokens) | Token::Tuple(tokens) => {
+					tokens.iter().for_each(|token| encode_in_place(token, out))
+				}
+				Token::String(content) => out.extend(encode(&[Token::FixedBytes(content.clone().into_bytes())])),
+				Token::Bytes(content) => out.extend(encode(&[Token::FixedBytes(content.clone())])),
+				_ => out.extend(encode(&[token.clone()])),
 			}
 		}
 
-- 
2.43.0


From 2df117cca1eb6a4337c8736860599e4371ac0786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:58 +0000
Subject: [PATCH 08/15] fix: split array and tuple texts at the right commas
 and refuse unbalanced or surplus items

---
 ethabi/src/token/mod.rs | 147 ++++++++++++++--------------------------
 1 file changed, 51 insertions(+), 96 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 6330a43..5b35e8e 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -12,8 +12,6 @@ mod lenient;
 mod strict;
 mod token;
 
-use std::cmp::Ordering::{Equal, Less};
-
 pub use self::{lenient::LenientTokenizer, strict::StrictTokenizer, token::Token};
 use crate::{Error, ParamType};
 
@@ -46,112 +44,24 @@ pub trait Tokenizer {
 
 	/// Tried to parse a struct as a vector of tokens
 	fn tokenize_struct(value: &str, param: &[ParamType]) -> Result<Vec<Token>, Error> {
-		if !value.starts_with('(') || !value.ends_with(')') {
-			return Err(Error::InvalidData);
-		}
-
-		if value.chars().count() == 2 {
+		if value == "()" && param.is_empty() {
 			return Ok(vec![]);
 		}
 
-		let mut result = vec![];
-		let mut nested = 0isize;
-		let mut ignore = false;
-		let mut last_item = 1;
-		let mut params = param.iter();
-		for (pos, ch) in value.chars().enumerate() {
-			match ch {
-				'(' if !ignore => {
-					nested += 1;
-				}
-				')' if !ignore => {
-					nested -= 1;
-
-					match nested.cmp(&0) {
-						Less => {
-							return Err(Error::InvalidData);
-						}
-						Equal => {
-							let sub = &value[last_item..pos];
-							let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
-							result.push(token);
-							last_item = pos + 1;
-						}
-						_ => {}
-					}
-				}
-				'"' => {
-					ignore = !ignore;
-				}
-				',' if nested == 1 && !ignore => {
-					let sub = &value[last_item..pos];
-					let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
-					result.push(token);
-					last_item = pos + 1;
-				}
-				_ => (),
-			}
-		}
-
-		if ignore {
+		let items = split_items(value, '(', ')')?;
+		if items.len() != param.len() {
 			return Err(Error::InvalidData);
 		}
-
-		Ok(result)
+		param.iter().zip(items).map(|(param, item)| Self::tokenize(param, item)).collect()
 	}
 
 	/// Tries to parse a value as a vector of tokens.
 	fn tokenize_array(value: &str, param: &ParamType) -> Result<Vec<Token>, Error> {
-		if !value.starts_with('[') || !value.ends_with(']') {
-			return Err(Error::InvalidData);
-		}
-
-		if value.chars().count() == 2 {
+		if value == "[]" {
 			return Ok(vec![]);
 		}
 
-		let mut result = vec![];
-		let mut nested = 0isize;
-		let mut ignore = false;
-		let mut last_item = 1;
-		for (i, ch) in value.chars().enumerate() {
-			match ch {
-				'[' if !ignore => {
-					nested += 1;
-				}
-				']' if !ignore => {
-					nested -= 1;
-					match nested.cmp(&0) {
-						Less => {
-							return Err(Error::InvalidData);
-						}
-						Equal => {
-							let sub = &value[last_item..i];
-							let token = Self::tokenize(param, sub)?;
-							result.push(token);
-							last_item = i + 1;
-						}
-						_ => {}
-					}
-				}
-				'"' => {
-					ignore = !ignore;
-				}
-				',' if nested == 1 && !ignore => {
-					let sub = &value[last_item..i];
-					let token = Self::tokenize(param, sub)?;
-					result.push(token);
-					last_item = i + 1;
-				}
-				_ => (),
-			}
-		}
-
-		if ignore {
-			return Err(Error::InvalidData);
-		}
-
-		Ok(result)
+		split_items(value, '[', ']')?.into_iter().map(|item| Self::tokenize(param, item)).collect()
 	}
 
 	/// Tries to parse a value as an address.
@@ -176,6 +86,51 @@ pub trait Tokenizer {
 	fn tokenize_int(value: &str) -> Result<[u8; 32], Error>;
 }
 
+/// Splits a value enclosed in `open` and `close` at its commas, except for those which are inside
+/// of nested brackets, nested parentheses or double quotes.
+fn split_items(value: &str, open: char, close: char) -> Result<Vec<&str>, Error> {
+	if !value.starts_with(open) || !value.ends_with(close) {
+		return Err(Error::InvalidData);
+	}
+
+	let mut items = vec![];
+	let mut nested = vec![];
+	let mut ignore = false;
+	let mut last_item = 1;
+	for (pos, ch) in value.char_indices() {
+		match ch {
+			'[' if !ignore => nested.push(']'),
+			'(' if !ignore => nested.push(')'),
+			']' | ')' if !ignore => {
+				if nested.pop() != Some(ch) {
+					return Err(Error::InvalidData);
+				}
+				if nested.is_empty() {
+					// only the last character closes the value
+					if pos + 1 != value.len() {
+						return Err(Error::InvalidData);
+					}
+					items.push(&value[last_item..pos]);
+				}
+			}
+			'"' => {
+				ignore = !ignore;
+			}
+			',' if nested.len() == 1 && !ignore => {
+				items.push(&value[last_item..pos]);
+				last_item = pos + 1;
+			}
+			_ => (),
+		}
+	}
+
+	if ignore || !nested.is_empty() {
+		return Err(Error::InvalidData);
+	}
+
+	Ok(items)
+}
+
 #[cfg(test)]
 mod test {
 	use super::{LenientTokenizer, ParamType, Tokenizer};
-- 
2.43.0


From 9d599147990562f19b05f7e072cf9c270f41904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:02 +0000
Subject: [PATCH 09/15] fix: refuse integer texts without digits or with
 several minus signs

---
 ethabi/src/token/lenient.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/token/lenient.rs b/ethabi/src/token/lenient.rs
index aa63e39..c7b55d5 100644
--- a/ethabi/src/token/lenient.rs
+++ b/ethabi/src/token/lenient.rs
@@ -43,6 +43,9 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
+		if value.is_empty() {
+			return Err(Error::InvalidData);
+		}
 		let uint = Uint::from_dec_str(value)?;
 		Ok(uint.into())
 	}
@@ -56,7 +59,11 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let abs = Uint::from_dec_str(value.trim_start_matches('-'))?;
+		let digits = value.strip_prefix('-').unwrap_or(value);
+		if digits.is_empty() {
+			return Err(Error::InvalidData);
+		}
+		let abs = Uint::from_dec_str(digits)?;
 		let max = Uint::max_value() / 2;
 		let int = if value.starts_with('-') {
 			if abs.is_zero() {
-- 
2.43.0


From 1d02d861c6663a5ec62fce3962266eb9dbb09b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:07 +0000
Subject: [PATCH 10/15] fix: refuse surplus parameter values in cli encode
 function

---
 cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index db84036..38614d6 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -172,6 +172,10 @@ fn parse_tokens(params: &[(ParamType, &str)], lenient: bool) -> anyhow::Result<V
 fn encode_input(path: &str, name_or_signature: &str, values: &[String], lenient: bool) -> anyhow::Result<String> {
 	let function = load_function(path, name_or_signature)?;
 
+	if function.inputs.len() != values.len() {
+		return Err(anyhow!("expected {} params, got {}", function.inputs.len(), values.len()));
+	}
+
 	let params: Vec<_> =
 		function.inputs.iter().map(|param| param.kind.clone()).zip(values.iter().map(|v| v as &str)).collect();
 
-- 
2.43.0


From 8ffa2736cbc18f4820ac866667e0178507c77e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:37 +0000
Subject: [PATCH 11/15] fix: accept values with a leading minus in cli encode
 function

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 38614d6..6e53cc8 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -25,7 +25,7 @@ enum Encode {
 	Function {
 		abi_path: String,
 		function_name_or_signature: String,
-		#[structopt(short, number_of_values = 1)]
+		#[structopt(short, number_of_values = 1, allow_hyphen_values = true)]
 		params: Vec<String>,
 		/// Allow short representation of input params.
 		#[structopt(short, long)]
-- 
2.43.0


From ffaa4f7b339e2fc6990ba7b8ec3741e65723a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:18 +0000
Subject: [PATCH 12/15] fix: generate compiling bindings for fixed size, nested
 and fixed bytes arrays

---
 derive/src/event.rs |  4 ++--
 derive/src/lib.rs   | 40 ++++++++++++++++++++++++++++++++--------
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 079ce7a..9016b84 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -10,7 +10,7 @@ use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
-use super::{from_token, get_template_names, rust_type, to_syntax_string, to_token};
+use super::{from_token, get_template_names, owned_items, rust_type, to_syntax_string, to_token};
 
 /// Structure used to generate contract's event interface.
 pub struct Event {
@@ -96,7 +96,7 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.map(|(index, (param_name, param))| {
 				let topic = syn::Ident::new(&format!("topic{}", index), Span::call_site());
 				let i = quote! { i };
-				let to_token = to_token(&i, &param.kind);
+				let to_token = to_token(&owned_items(&i, &param.kind), &param.kind);
 				quote! { #topic: #param_name.into().map(|#i| #to_token), }
 			})
 			.collect();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index ce70efa..27c8e1d 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -143,7 +143,7 @@ fn rust_type(input: &ParamType) -> proc_macro2::TokenStream {
 		}
 		ParamType::FixedArray(ref kind, size) => {
 			let t = rust_type(&*kind);
-			quote! { [#t, #size] }
+			quote! { [#t; #size] }
 		}
 		ParamType::Tuple(_) => {
 			unimplemented!("Tuples are not supported. https://github.com/openethereum/ethabi/issues/175")
@@ -183,14 +183,38 @@ fn template_param_type(input: &ParamType, index: usize) -> proc_macro2::TokenStr
 
 fn from_template_param(input: &ParamType, name: &syn::Ident) -> proc_macro2::TokenStream {
 	match *input {
-		ParamType::Array(_) => quote! { #name.into_iter().map(Into::into).collect::<Vec<_>>() },
-		ParamType::FixedArray(_, _) => {
-			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(Into::into).collect::<Vec<_>>() }
+		ParamType::Array(ref kind) => {
+			let t = collected_type(kind);
+			quote! { #name.into_iter().map(Into::into).collect::<Vec<#t>>() }
+		}
+		ParamType::FixedArray(ref kind, _) => {
+			let t = collected_type(kind);
+			quote! { (Box::new(#name.into()) as Box<[_]>).into_vec().into_iter().map(Into::into).collect::<Vec<#t>>() }
 		}
 		_ => quote! {#name.into() },
 	}
 }
 
+/// The type of collected items. It cannot be inferred if methods of the items are called.
+fn collected_type(kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedBytes(_) | ParamType::Array(_) | ParamType::FixedArray(_, _) => rust_type(kind),
+		_ => quote! { _ },
+	}
+}
+
+/// Arrays of a fixed size are turned into vectors, because `into_iter` of an array
+/// yields references before the edition 2021.
+fn owned_items(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedArray(ref kind, _) => {
+			let t = rust_type(kind);
+			quote! { (Box::new(#name) as Box<[#t]>).into_vec() }
+		}
+		_ => name.clone(),
+	}
+}
+
 fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
 	match *kind {
 		ParamType::Address => quote! { ethabi::Token::Address(#name) },
@@ -202,7 +226,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		ParamType::String => quote! { ethabi::Token::String(#name) },
 		ParamType::Array(ref kind) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&owned_items(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
@@ -213,7 +237,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		}
 		ParamType::FixedArray(ref kind, _) => {
 			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let inner_loop = to_token(&owned_items(&inner_name, kind), kind);
 			quote! {
 				// note the double {{
 				{
@@ -267,10 +291,10 @@ fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2
 		ParamType::FixedArray(ref kind, size) => {
 			let inner = quote! { inner };
 			let inner_loop = from_token(kind, &inner);
-			let to_array = vec![quote! { iter.next() }; size];
+			let to_array = vec![quote! { iter.next().expect(INTERNAL_ERR) }; size];
 			quote! {
 				{
-					let iter = #token.to_array().expect(INTERNAL_ERR).into_iter()
+					let mut iter = #token.into_fixed_array().expect(INTERNAL_ERR).into_iter()
 						.map(|#inner| #inner_loop);
 					[#(#to_array),*]
 				}
-- 
2.43.0


From 0ce5d7512201f11e8b6fedab3593ea84c42250b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:32 +0000
Subject: [PATCH 13/15] fix: read indexed strings, bytes and arrays of derived
 event logs as hashes

---
 derive/src/event.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 9016b84..89a9530 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -6,6 +6,7 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use ethabi::ParamType;
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
@@ -25,6 +26,16 @@ pub struct Event {
 	anonymous: bool,
 }
 
+/// Logs carry the hashes of indexed values which do not fit into a topic.
+fn log_kind(param: &ethabi::EventParam) -> ParamType {
+	match param.kind {
+		ParamType::Bytes | ParamType::String | ParamType::Array(_) | ParamType::FixedArray(_, _) if param.indexed => {
+			ParamType::FixedBytes(32)
+		}
+		ref kind => kind.clone(),
+	}
+}
+
 impl<'a> From<&'a ethabi::Event> for Event {
 	fn from(e: &'a ethabi::Event) -> Self {
 		let names: Vec<_> = e
@@ -43,13 +54,13 @@ impl<'a> From<&'a ethabi::Event> for Event {
 				}
 			})
 			.collect();
-		let kinds: Vec<_> = e.inputs.iter().map(|param| rust_type(&param.kind)).collect();
+		let log_kinds: Vec<_> = e.inputs.iter().map(log_kind).collect();
 		let log_fields =
-			names.iter().zip(kinds.iter()).map(|(param_name, kind)| quote! { pub #param_name: #kind }).collect();
+			names.iter().zip(log_kinds.iter().map(rust_type)).map(|(param_name, kind)| quote! { pub #param_name: #kind }).collect();
 
 		let log_iter = quote! { log.next().expect(INTERNAL_ERR).value };
 
-		let to_log: Vec<_> = e.inputs.iter().map(|param| from_token(&param.kind, &log_iter)).collect();
+		let to_log: Vec<_> = log_kinds.iter().map(|kind| from_token(kind, &log_iter)).collect();
 
 		let log_init =
 			names.iter().zip(to_log.iter()).map(|(param_name, convert)| quote! { #param_name: #convert }).collect();
-- 
2.43.0


From 2b8b7aadfb0b44d63b514df6a66fd10b3223aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:42 +0000
Subject: [PATCH 14/15] fix: refuse types nested too deeply instead of
 overflowing the stack

---
 ethabi/src/param.rs             | 18 ++++++++++++++++--
 ethabi/src/param_type/reader.rs | 21 +++++++++++++++++----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/param.rs b/ethabi/src/param.rs
index d96498c..fed3268 100644
--- a/ethabi/src/param.rs
+++ b/ethabi/src/param.rs
@@ -14,7 +14,10 @@ use serde::{
 };
 use std::fmt;
 
-use crate::{param_type::Writer, ParamType, TupleParam};
+use crate::{
+	param_type::{Reader, Writer},
+	ParamType, TupleParam,
+};
 use serde::ser::{SerializeMap, SerializeSeq};
 
 /// Function param.
@@ -142,11 +145,22 @@ pub(crate) fn set_tuple_components<Error: serde::de::Error>(
 ) -> Result<(), Error> {
 	if let Some(inner_tuple_mut) = inner_tuple_mut(kind) {
 		let tuple_params = components.ok_or_else(|| Error::missing_field("components"))?;
-		inner_tuple_mut.extend(tuple_params.into_iter().map(|param| param.kind))
+		inner_tuple_mut.extend(tuple_params.into_iter().map(|param| param.kind));
+		if nesting(kind) > Reader::MAX_NESTING {
+			return Err(Error::custom("type is nested too deeply"));
+		}
 	}
 	Ok(())
 }
 
+fn nesting(kind: &ParamType) -> usize {
+	match kind {
+		ParamType::Array(inner) | ParamType::FixedArray(inner, _) => 1 + nesting(inner),
+		ParamType::Tuple(inner) => 1 + inner.iter().map(nesting).max().unwrap_or(0),
+		_ => 0,
+	}
+}
+
 pub(crate) struct SerializeableParamVec<'a>(pub(crate) &'a [ParamType]);
 
 impl Serialize for SerializeableParamVec<'_> {
diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index dde3ebb..8bea42d 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -12,8 +12,21 @@ use crate::{Error, ParamType};
 pub struct Reader;
 
 impl Reader {
+	/// Deepest nesting of arrays and tuples a type may have. Types are read and processed
+	/// recursively, and every tuple takes two of the 128 levels serde_json reads.
+	pub(crate) const MAX_NESTING: usize = 60;
+
 	/// Converts string to param type.
 	pub fn read(name: &str) -> Result<ParamType, Error> {
+		Reader::read_nested(name, Reader::MAX_NESTING)
+	}
+
+	fn read_nested(name: &str, max_nesting: usize) -> Result<ParamType, Error> {
+		let read_subtype = |subtype: &str| match max_nesting.checked_sub(1) {
+			Some(max_nesting) => Reader::read_nested(subtype, max_nesting),
+			None => Err(Error::InvalidName(subtype.to_owned())),
+		};
+
 		match name.chars().last() {
 			// check if it is a struct
 			Some(')') => {
@@ -42,11 +55,11 @@ impl Reader {
 								return Err(Error::InvalidName(name.to_owned()));
 							}
 							if nested == 0 {
-								subtypes.push(Reader::read(&name[last_item..pos])?);
+								subtypes.push(read_subtype(&name[last_item..pos])?);
 							}
 						}
 						',' if nested == 1 => {
-							subtypes.push(Reader::read(&name[last_item..pos])?);
+							subtypes.push(read_subtype(&name[last_item..pos])?);
 							last_item = pos + 1;
 						}
 						_ => (),
@@ -68,12 +81,12 @@ impl Reader {
 
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
-					let subtype = Reader::read(subtype)?;
+					let subtype = read_subtype(subtype)?;
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
 					let len = num.parse()?;
-					let subtype = Reader::read(subtype)?;
+					let subtype = read_subtype(subtype)?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
 			}
-- 
2.43.0


From 13ab4445d48de64113cc5854cfa814ad3cd2e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:53 +0000
Subject: [PATCH 15/15] fix: derive bindings for parameters and functions named
 like keywords or generated locals

---
 derive/src/event.rs    | 19 ++++++++++++-------
 derive/src/function.rs |  7 +++----
 derive/src/lib.rs      | 24 ++++++++++++++----------
 3 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 89a9530..15b683f 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -7,11 +7,11 @@
 // except according to those terms.
 
 use ethabi::ParamType;
-use heck::{CamelCase, SnakeCase};
+use heck::CamelCase;
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
-use super::{from_token, get_template_names, owned_items, rust_type, to_syntax_string, to_token};
+use super::{from_token, get_template_names, owned_items, rust_type, rust_variable, to_syntax_string, to_token};
 
 /// Structure used to generate contract's event interface.
 pub struct Event {
@@ -43,14 +43,15 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.iter()
 			.enumerate()
 			.map(|(index, param)| {
-				if param.name.is_empty() {
+				let name = rust_variable(&param.name);
+				if name.is_empty() {
 					if param.indexed {
 						syn::Ident::new(&format!("topic{}", index), Span::call_site())
 					} else {
 						syn::Ident::new(&format!("param{}", index), Span::call_site())
 					}
 				} else {
-					syn::Ident::new(&param.name.to_snake_case(), Span::call_site())
+					syn::Ident::new(&name, Span::call_site())
 				}
 			})
 			.collect();
@@ -73,10 +74,14 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.enumerate()
 			.filter(|&(_, param)| param.indexed)
 			.map(|(index, param)| {
-				if param.name.is_empty() {
+				let name = rust_variable(&param.name);
+				if name.is_empty() {
 					syn::Ident::new(&format!("topic{}", index), Span::call_site())
+				} else if name == "event" {
+					// the filter calls a function of this name
+					syn::Ident::new("_event", Span::call_site())
 				} else {
-					syn::Ident::new(&param.name.to_snake_case(), Span::call_site())
+					syn::Ident::new(&name, Span::call_site())
 				}
 			})
 			.collect();
@@ -162,7 +167,7 @@ impl Event {
 	/// Generates rust interface for contract's event.
 	pub fn generate_event(&self) -> TokenStream {
 		let name_as_string = &self.name.to_camel_case();
-		let name = syn::Ident::new(&self.name.to_snake_case(), Span::call_site());
+		let name = syn::Ident::new(&rust_variable(&self.name), Span::call_site());
 		let camel_name = syn::Ident::new(&self.name.to_camel_case(), Span::call_site());
 		let recreate_inputs_quote = &self.recreate_inputs_quote;
 		let anonymous = &self.anonymous;
diff --git a/derive/src/function.rs b/derive/src/function.rs
index 8b1a90d..072e5c3 100644
--- a/derive/src/function.rs
+++ b/derive/src/function.rs
@@ -6,13 +6,12 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
-use heck::SnakeCase;
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
 use super::{
-	from_template_param, from_token, get_output_kinds, get_template_names, input_names, rust_type, template_param_type,
-	to_ethabi_param_vec, to_token,
+	from_template_param, from_token, get_output_kinds, get_template_names, input_names, rust_type, rust_variable,
+	template_param_type, to_ethabi_param_vec, to_token,
 };
 
 struct TemplateParam {
@@ -149,7 +148,7 @@ impl Function {
 	/// Generates the interface for contract's function.
 	pub fn generate(&self) -> TokenStream {
 		let name = &self.name;
-		let module_name = syn::Ident::new(&self.name.to_snake_case(), Span::call_site());
+		let module_name = syn::Ident::new(&rust_variable(&self.name), Span::call_site());
 		let tokenize = &self.inputs.tokenize;
 		let declarations: &Vec<_> = &self.inputs.template_params.iter().map(|i| &i.declaration).collect();
 		let definitions: &Vec<_> = &self.inputs.template_params.iter().map(|i| &i.definition).collect();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 27c8e1d..3f7cc87 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -311,11 +311,13 @@ fn input_names(inputs: &[Param]) -> Vec<syn::Ident> {
 		.iter()
 		.enumerate()
 		.map(|(index, param)| {
-			if param.name.is_empty() {
-				syn::Ident::new(&format!("param{}", index), Span::call_site())
-			} else {
-				syn::Ident::new(&rust_variable(&param.name), Span::call_site())
-			}
+			let name = match rust_variable(&param.name) {
+				name if name.is_empty() => format!("param{}", index),
+				// avoid the names used by the generated code itself
+				name if ["f", "function", "c", "code"].contains(&name.as_str()) => format!("_{}", name),
+				name => name,
+			};
+			syn::Ident::new(&name, Span::call_site())
 		})
 		.collect()
 }
@@ -340,11 +342,13 @@ fn get_output_kinds(outputs: &[Param]) -> proc_macro2::TokenStream {
 
 /// Convert input into a rust variable name.
 ///
-/// Avoid using keywords by escaping them.
+/// Avoid using keywords by escaping them. Empty if nothing of the name can be used.
 fn rust_variable(name: &str) -> String {
-	// avoid keyword parameters
-	match name {
-		"self" => "_self".to_string(),
-		other => other.to_snake_case(),
+	let name = name.to_snake_case();
+	if name.is_empty() || syn::parse_str::<syn::Ident>(&name).is_ok() {
+		name
+	} else {
+		// a keyword, or it starts with a digit
+		format!("_{}", name)
 	}
 }
-- 
2.43.0

