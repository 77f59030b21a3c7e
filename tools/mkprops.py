"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
M = "pycose/messages/"; K = "pycose/keys/"
p("C01", "Signed bytes are exactly the RFC 8152 Sig_structure",
  "For every COSE_Sign1 message, and every signer of a COSE_Sign message, the bytes that are signed and verified are exactly the CBOR encoding of the RFC 8152 Sig_structure: the context string of the message type, the message's protected header bytes (zero-length when it has no protected header), for a signer also its own protected header bytes by the same rule, the external data supplied, and the payload. "
  "The payload is the embedded one or, only when there is none, the detached payload given to the call; supplying both or neither is an error. "
  "Unprotected headers, keys and earlier calls have no influence on these bytes.",
  ["inputs", "histories"], "every protected/unprotected header, external data, embedded or detached payload, and every sequence of earlier calls on the message",
  "The tests compare the structure for the COSE working group vectors only: a few dozen fixed headers and payloads, external data mostly empty, each message used once.",
  [M + "sign1message.py", M + "signer.py", M + "cosemessage.py", M + "cosebase.py"],
  [("Sign1Message._create_sig_structure", M + "sign1message.py"), ("CoseSignature._create_sig_structure", M + "signer.py"), ("CoseMessage._base_structure", M + "cosemessage.py"), ("CoseBase.phdr_encoded", M + "cosebase.py")],
  ["compute_signature / verify_signature (the bytes given to the primitive)", "_create_sig_structure"])
p("C02", "Authenticated bytes of MAC messages are exactly the RFC 8152 MAC_structure",
  "For every COSE_Mac and COSE_Mac0 message the authentication tag is computed and verified over exactly the CBOR encoding of the RFC 8152 MAC_structure: the context string ('MAC' or 'MAC0'), the protected header bytes (zero-length when there is no protected header), the external data and the payload. "
  "A message without payload is an error. Unprotected headers, keys, recipients and earlier calls have no influence on these bytes.",
  ["inputs", "histories"], "every protected/unprotected header, external data and payload, and every sequence of earlier calls on the message",
  "Only fixed vectors are compared; no test varies external data, empty versus absent protected headers, or reuses a message after changing it.",
  [M + "maccommon.py", M + "mac0message.py", M + "macmessage.py", M + "cosemessage.py"],
  [("MacCommon._mac_structure", M + "maccommon.py"), ("CoseMessage._base_structure", M + "cosemessage.py")],
  ["compute_tag / verify_tag (the bytes given to the primitive)", "_mac_structure"])
p("C03", "Additional authenticated data is exactly the RFC 8152 Enc_structure",
  "For every COSE_Encrypt and COSE_Encrypt0 message, encryption and decryption authenticate exactly the CBOR encoding of the RFC 8152 Enc_structure: the context string ('Encrypt' or 'Encrypt0'), the protected header bytes (zero-length when there is no protected header) and the external data. "
  "The payload, unprotected headers, keys, recipients and earlier calls have no influence on these bytes.",
  ["inputs", "histories"], "every protected/unprotected header, external data, payload, and every sequence of earlier calls on the message",
  "Only fixed vectors are compared; no test varies external data, empty versus absent protected headers, or reuses a message after changing it.",
  [M + "enccommon.py", M + "enc0message.py", M + "encmessage.py", M + "cosemessage.py"],
  [("EncCommon._enc_structure", M + "enccommon.py"), ("CoseMessage._base_structure", M + "cosemessage.py")],
  ["encrypt / decrypt (the associated data given to the AEAD)", "_enc_structure"])
p("C04", "Signatures are made and judged by exactly the named algorithm and key",
  "A signature is the result of the algorithm named in the signing header (deterministic ECDSA, EdDSA, RSASSA-PSS with salt as long as the hash, or RSASSA-PKCS1-v1_5, each with its registered hash and curve) applied with the private values of the message's key to the bytes to be signed. "
  "Verification returns true exactly when that algorithm accepts the carried signature over the bytes to be verified under the key's public values, and false for every other signature. "
  "A key that does not fit the algorithm (another curve, another key type) is an error, never a result.",
  ["inputs"], "every registered signature algorithm, every key of every type, all data and all signatures",
  "The vectors cover some algorithms with one key each and valid signatures; a wrong hash, salt length, curve or a verdict that ignores part of the signature passes for the others.",
  ["pycose/algorithms.py", M + "signcommon.py"],
  [("_Ecdsa.sign/verify", "pycose/algorithms.py"), ("EdDSA.sign/verify", "pycose/algorithms.py"), ("_Rsa.sign/verify, get_pad_func", "pycose/algorithms.py"), ("SignCommon.compute_signature/verify_signature", M + "signcommon.py")],
  ["compute_signature", "verify_signature", "alg.sign / alg.verify"])
p("C05", "MAC tags are exactly the named MAC and are compared in full",
  "The tag of a MAC message is the algorithm named in the message applied to the bytes to be authenticated under the message's key: HMAC with the registered hash truncated to the leftmost registered number of bytes, or AES-CBC-MAC with zero IV over the zero-padded data, truncated to the leftmost registered number of bytes of the last block. "
  "Verification returns true if and only if the carried tag equals that value in every byte and in length.",
  ["inputs"], "every registered MAC algorithm, every key, all data of any length (so any padding) and every candidate tag",
  "Vectors cover one data length per algorithm and one flipped byte; padding boundaries, shorter or longer tags and other key sizes are not sampled.",
  ["pycose/algorithms.py", M + "maccommon.py"],
  [("_HMAC.compute_tag/verify_tag", "pycose/algorithms.py"), ("_AesMac.compute_tag/verify_tag", "pycose/algorithms.py"), ("MacCommon.compute_tag/verify_tag", M + "maccommon.py")],
  ["compute_tag", "verify_tag", "alg.compute_tag / alg.verify_tag"])
p("C06", "Content encryption uses exactly the named AEAD and is inverted by decryption",
  "Encrypting produces the ciphertext of the AEAD named in the message (AES-GCM, or AES-CCM with the registered tag length) for the payload under the message's key, nonce and additional authenticated data; decrypting applies the same AEAD to the carried ciphertext. "
  "Hence decrypting what was encrypted, with the same key, headers and external data, returns the payload, and any other ciphertext, nonce, protected header or external data is rejected by an exception instead of yielding plaintext.",
  ["inputs"], "every registered AEAD, every key, nonce, header, external data and payload",
  "The vectors fix one payload and nonce per algorithm; that every input round-trips, and that every tampered input is rejected, is quantified over all of them.",
  ["pycose/algorithms.py", M + "enccommon.py"],
  [("_AesGcm/_AesCcm.encrypt/decrypt", "pycose/algorithms.py"), ("EncCommon.encrypt/decrypt", M + "enccommon.py")],
  ["encrypt", "decrypt", "alg.encrypt / alg.decrypt"])
p("C07", "The AEAD nonce is the IV header, or Base IV xor padded Partial IV",
  "The nonce of an encryption or decryption is the message's IV header when present; otherwise, when the key has a Base IV, it is the Base IV xor the Partial IV header left-padded with zeros to the length of the Base IV, and so always exactly as long as the Base IV. "
  "Without an IV and without a Base IV, or with a Base IV but no Partial IV, or with a Partial IV longer than the Base IV, the operation fails with an exception before anything is encrypted or decrypted.",
  ["inputs"], "every combination of IV, Partial IV and Base IV of any content and length, in either header bucket",
  "The few Partial IV vectors have no leading zero bytes in the xor; equal or leading-zero values and other lengths are not sampled.",
  [M + "enccommon.py"], [("EncCommon._get_nonce", M + "enccommon.py")], ["encrypt / decrypt (the nonce given to the AEAD)"])
p("C08", "No cryptographic operation with a key that its own attributes forbid",
  "A message or recipient signs, verifies, MACs, encrypts, decrypts, wraps, unwraps or agrees on keys only with a key that is present and of a type admitted for that operation, whose alg attribute (when set) equals the algorithm in the message's or recipient's header, and whose list of key operations (when not empty) contains an operation admitted for it. "
  "In every other case the call raises an exception, produces no cryptographic output, and leaves the message's headers, payload, key and authentication data as they were.",
  ["inputs"], "every key type, alg and key_ops attribute, every algorithm header, each of the operations",
  "Tests check a handful of wrong key/operation pairs per message type, not the product of keys, attributes, algorithms and operations.",
  [K + "cosekey.py", M + "enccommon.py", M + "maccommon.py", M + "signcommon.py", M + "recipient.py"],
  [("CoseKey.verify", K + "cosekey.py"), ("SignCommon._key_verification", M + "signcommon.py"), ("EncCommon.encrypt/decrypt", M + "enccommon.py"), ("MacCommon.compute_tag/verify_tag", M + "maccommon.py"), ("recipient encrypt/decrypt/compute_cek", M + "recipient.py")],
  ["key.verify", "encrypt, decrypt, compute_tag, verify_tag, compute_signature, verify_signature", "recipient encrypt/decrypt/compute_cek"])
p("C09", "Header lookup: one value from either bucket, duplicates rejected",
  "Looking up a header parameter returns its value from whichever of the protected and unprotected buckets has it, and the caller's default (None if not given) when neither has it. "
  "A parameter with a value in both buckets raises an exception, whatever the values are, and falsy values such as 0, an empty string or an empty byte string count as present. "
  "Lookups change nothing.",
  ["inputs"], "every parameter, every pair of header buckets and every default",
  "No test looks up falsy values, unknown labels, or passes a default.",
  [M + "cosebase.py"], [("CoseBase.get_attr", M + "cosebase.py")], ["get_attr"])
p("C10", "Protected header bytes are kept as received, and follow every update",
  "A decoded message authenticates and re-encodes its protected header with exactly the bytes that were received, whatever encoding the sender chose, for as long as the protected header is not modified through the message. "
  "Once it is assigned or updated, and for a message that was built locally, the protected bytes are the CBOR encoding of the current protected header, and zero-length when that is empty. "
  "Changes to the unprotected header or other attributes never change the protected bytes.",
  ["inputs", "histories"], "every received byte string that decodes to a map (canonical or not) and every sequence of header assignments, updates and reads",
  "Tests decode canonical vectors and never modify a decoded message; non-canonical headers and update histories are unbounded.",
  [M + "cosebase.py"], [("CoseBase.phdr_encoded", M + "cosebase.py"), ("CoseBase.phdr setter / phdr_update", M + "cosebase.py"), ("CoseBase.__init__", M + "cosebase.py")],
  ["phdr_encoded", "encode", "the to-be-signed/MACed/authenticated bytes"],
  [("CoseBase._phdr_encoded", "received bytes, None once stale", M + "cosebase.py")])
p("C11", "Messages have the RFC 8152 wire form and survive encode then decode",
  "Encoding a message yields the CBOR array of RFC 8152 for its type (protected header bytes, unprotected header map, payload or ciphertext or nil, then tag or signature, then signers or recipients in order), wrapped in the CBOR tag registered for the type unless an untagged encoding is asked for. "
  "Decoding that yields a message of the same type with equal protected bytes, headers, payload or ciphertext, and authentication data, and with equal signers or recipients in the same order.",
  ["inputs"], "all six message types, every header map, payload (also empty and detached), signature/tag, and any number of signers or recipients",
  "The vectors contain one or two signers or recipients and small fixed headers; element order, optional trailing elements and custom labels vary without bound.",
  [M + "cosemessage.py", M + "sign1message.py", M + "signmessage.py", M + "enc0message.py", M + "encmessage.py", M + "mac0message.py", M + "macmessage.py", M + "signer.py", M + "recipient.py", M + "cosebase.py"],
  [("CoseMessage.encode/decode/from_cose_obj", M + "cosemessage.py"), ("encode/from_cose_obj of each message type", M), ("CoseBase._parse_header, _custom_cbor_encoder", M + "cosebase.py")],
  ["encode", "CoseMessage.decode"])
p("C12", "Decoding dispatches on the tag and rejects everything malformed",
  "Decoding returns a message only for a CBOR-tagged array whose tag is one of the six registered COSE tags and whose elements have the required types (protected header a byte string encoding a map, unprotected header a map, payload a byte string or nil, then the tag, signature, signatures or optional recipients of the type, and nothing more); the result is of the class registered for that tag and an instance of the class on which decode was called. "
  "Every other first CBOR item of the input raises an exception: none yields a message of another type or with parts silently dropped.",
  ["inputs"], "every byte string, decoded through the generic or any specific message class",
  "Tests feed a few hand-made malformed messages; the space of CBOR structures is unbounded.",
  [M + "cosemessage.py", M + "cosebase.py", M + "encmessage.py", M + "macmessage.py", M + "signmessage.py"],
  [("CoseMessage.decode", M + "cosemessage.py"), ("CoseMessage.record_cbor_tag", M + "cosemessage.py"), ("from_cose_obj", M)],
  ["CoseMessage.decode and decode of each message class"])
p("C13", "Recipient structures follow the rules of their algorithm class",
  "A recipient is given the class of its algorithm header, from either bucket, and decoding or encoding it fails unless the rules of that class hold: direct encryption has an empty ciphertext and, for the plain direct algorithm, an empty protected header; AES key wrap has an empty protected header and a non-empty ciphertext; direct key agreement with an ephemeral key carries that key; the direct modes carry no further recipients. "
  "Direct encryption is the only mode of a message that uses it, and direct key agreement has exactly one recipient; any other combination is an exception. "
  "Assigning recipients replaces the whole list, or changes nothing if an element is not a recipient.",
  ["inputs"], "every recipient structure and every list of recipients",
  "Tests use single well-formed recipients; the rule violations and the combinations of several recipients are mostly untested.",
  [M + "recipient.py", M + "encmessage.py", M + "macmessage.py"],
  [("CoseRecipient.create_recipient/verify_recipients/has_recipient", M + "recipient.py"), ("from_cose_obj/encode of the four recipient classes", M + "recipient.py"), ("recipients setters", M)],
  ["create_recipient", "verify_recipients", "EncMessage/MacMessage encode, decode, encrypt, compute_tag"])
p("C14", "All recipients of a message obtain the one content encryption key",
  "When a message with key wrap, key agreement with key wrap, or direct key agreement recipients is protected, the content is encrypted or MACed under one content key: the key derived by the agreement, or the CEK preset in a recipient, or else a fresh random key of the length the content algorithm requires, and every wrapping recipient carries exactly that key wrapped under its own key encryption key. "
  "The key a recipient recovers by unwrapping or agreement from the encoded recipient is that content key, and a key or recipient that does not fit is an exception.",
  ["inputs"], "every recipient class and algorithm, any number of recipients, preset or absent CEK, and all keys",
  "The vectors have one recipient with a preset CEK; several recipients, mixed preset and fresh CEKs and the random path are not compared end to end.",
  [M + "recipient.py", M + "encmessage.py", M + "macmessage.py", "pycose/algorithms.py"],
  [("EncMessage.encrypt/decrypt, MacMessage.compute_tag", M), ("KeyWrap/KeyAgreementWithKeyWrap/DirectKeyAgreement encrypt, decrypt, compute_cek", M + "recipient.py"), ("_AesKw, _RsaOaep key_wrap/key_unwrap", "pycose/algorithms.py")],
  ["EncMessage.encrypt/decrypt", "MacMessage.compute_tag", "recipient.encrypt/decrypt/compute_cek"])
p("C15", "Key agreement derives the key from the exact RFC 8152 COSE_KDF_Context",
  "Key agreement derives the key by HKDF with the hash of the algorithm, no salt, and the ECDH shared secret of the own private key and the peer's public key, with as info exactly the CBOR encoding of COSE_KDF_Context: the target algorithm, PartyU and PartyV identity, nonce and other from the recipient's headers (nil when absent), the derived key length in bits, the recipient's protected header bytes as transmitted (zero-length when empty), and the supplementary public and private information when not empty. "
  "Both parties therefore derive the same key exactly when these inputs agree.",
  ["inputs"], "all headers, party data, supplementary data, target algorithms, curves and key pairs",
  "Vectors cover a few algorithm and header combinations; party fields in other buckets, supplementary data and empty protected headers are not sampled.",
  [M + "context.py", M + "recipient.py", "pycose/algorithms.py"],
  [("CoseRecipient.get_kdf_context", M + "recipient.py"), ("CoseKDFContext/SuppPubInfo/PartyInfo.encode", M + "context.py"), ("_EcdhHkdf.derive_kek/_ecdh", "pycose/algorithms.py")],
  ["get_kdf_context(...).encode()", "derive_kek", "recipient compute_cek/encrypt/decrypt"])
p("C16", "COSE keys survive encode then decode",
  "Encoding a COSE key gives the CBOR map of its parameters with the registered integer labels and values, and decoding that map, or building a key from the equivalent dictionary with parameters named by class, integer label or full name, gives a key of the same type with equal parameters, including unknown ones. (An empty list of key operations counts as none, and public coordinates of an EC2 key that are not given are computed.) "
  "A map without a known key type, or with a key type, curve, operation or algorithm that is not registered, is an exception.",
  ["inputs"], "all key types, all parameter values, all spellings of the labels, any extra parameters",
  "Tests check single parameters in isolation on a few keys; combinations of optional and unknown parameters and the three spellings are not covered.",
  [K + "cosekey.py", K + "symmetric.py", K + "ec2.py", K + "okp.py", K + "rsa.py", K + "keyparam.py"],
  [("CoseKey.encode/decode/from_dict", K + "cosekey.py"), ("from_dict and __init__ of the key classes", K)],
  ["key.encode", "CoseKey.decode", "CoseKey.from_dict"])
p("C17", "A COSE key object stays a valid key through every operation",
  "Constructing a key succeeds only with the mandatory parameters of its type, of the right types: a symmetric key of 16, 24 or 32 bytes; a curve of the key's type with a public or private value, where an EC2 key with private value has the matching public point; an RSA key that is public, two-prime or multi-prime with all its parameters. "
  "Assigning an attribute stores exactly the (registered) value assigned or raises and changes nothing, and deleting a parameter removes it or, where the key would become invalid, raises and changes nothing; neither alters any other parameter, except that deleting a public coordinate of an EC2 key with a private value deletes both.",
  ["inputs", "histories"], "all constructor arguments and every sequence of attribute assignments and deletions",
  "Tests try single assignments and deletions on fresh keys; sequences, partial failures and untouched parameters are not observed.",
  [K + "cosekey.py", K + "symmetric.py", K + "ec2.py", K + "okp.py", K + "rsa.py"],
  [("__init__, setters and __delitem__ of the key classes", K)],
  ["key constructors", "attribute setters", "del key[...]"],
  [("CoseKey.store", "parameters of the key", K + "cosekey.py")])
p("C18", "Registered attributes: id, name and class identify each other uniquely",
  "For header parameters, algorithms, key types, key operations, curves and key parameters of every key type, looking up the integer id, the full name in any letter case, or a class carrying that id gives the one class that the IANA registry assigns to it, and looking up a list gives the list of the results. "
  "Anything else is returned unchanged where unknown attributes are allowed and is an exception elsewhere, and no lookup or use of the library changes what is registered.",
  ["inputs"], "all registered attributes and every other value of any type",
  "Tests look up some names and ids; that all are consistent and everything else falls through is quantified over all values.",
  ["pycose/utils.py", "pycose/headers.py", "pycose/algorithms.py", K + "keyparam.py", K + "keytype.py", K + "keyops.py", K + "curves.py"],
  [("_CoseAttribute.from_id/register_attribute", "pycose/utils.py"), ("registered classes", "pycose")],
  ["from_id of each registry", "get_registered_classes"])
p("C19", "Every algorithm has the parameters its registration prescribes",
  "Each registered algorithm performs its operation with the parameters of its IANA registration: key length and tag length in bytes for the AES algorithms, digest length and hash for the MACs, hash, padding and curve for the signatures, hash and key wrap algorithm for key agreement, hash and truncation for the hash algorithms, and each curve has its registered key type and coordinate length. "
  "A key wrap with a key of another length than prescribed is an exception.",
  ["configurations", "inputs"], "all registered algorithms and curves",
  "The vectors exercise some of the algorithms; a wrong parameter of another one shows up only against the registry.",
  ["pycose/algorithms.py", K + "curves.py"],
  [("get_key_length, get_tag_length, get_digest_length, get_hash_func, get_curve, get_key_wrap_func, compute_hash", "pycose/algorithms.py"), ("curve_obj, key_type, size", K + "curves.py")],
  ["the algorithm classes", "the curve classes"])
p("C20", "Certificate thumbprints match exactly their certificate; containers are exact",
  "A certificate thumbprint made for a certificate is the named hash of the certificate's bytes, survives encoding and decoding with its algorithm, and matches a certificate if and only if the hash of that certificate equals the thumbprint. "
  "A certificate bag or chain encodes to the single certificate when it holds one and to the list of certificates in order otherwise, and chain verification validates the first certificate as end entity with the others as intermediates.",
  ["inputs"], "all certificates (raw or CBOR-wrapped), hash algorithms, thumbprints and chains of any length",
  "Tests use one certificate per class.",
  ["pycose/extensions/x509.py", "pycose/algorithms.py"],
  [("X5T.from_certificate/decode/encode/matches", "pycose/extensions/x509.py"), ("X5Bag, X5Chain, X5U", "pycose/extensions/x509.py"), ("_HashAlg.compute_hash", "pycose/algorithms.py")],
  ["X5T", "X5Bag", "X5Chain", "X5U"])
p("C21", "Imported and generated keys carry exactly the external key's values",
  "A COSE key made from a PEM key, or generated, has the type and curve of the underlying key; its EC coordinates and private value are the key's numbers as big-endian byte strings of the full coordinate length of the curve, its OKP values are the raw key bytes, and its RSA parameters are the key's numbers as minimal big-endian byte strings; a public key has no private parameter, and optional parameters given are included without replacing any of the key's own values. "
  "A key type or curve without COSE counterpart is an exception.",
  ["inputs"], "all keys of all supported types and curves (in particular values with leading zero bytes) and all optional parameters",
  "Random test keys have a leading zero byte once in 256, and no test looks at it.",
  [K + "cosekey.py", K + "ec2.py", K + "okp.py", K + "rsa.py", K + "symmetric.py"],
  [("_from_cryptography_key, generate_key", K), ("CoseKey.from_pem_private_key/from_pem_public_key", K + "cosekey.py"), ("to_bstr", K + "rsa.py")],
  ["from_pem_private_key", "from_pem_public_key", "generate_key"])
p("C22", "Header parameters and arguments of the wrong type are rejected, good ones kept",
  "Building or decoding a message translates every header label that is registered (given as class, id or name) to its class and keeps unregistered labels and all values as they are, except that algorithm values and key values become the algorithm or key they name. "
  "It is an exception if a key ID, IV, partial IV, countersignature0 or KID context is not a byte string, a critical header not a non-empty list of integers and strings, a content type not an unsigned integer or string, an algorithm not registered, a payload not bytes or nil, external data not bytes, a header bucket not a map, or a key not a COSE key; likewise an unknown label when unknown attributes are disallowed.",
  ["inputs"], "all header maps (labels and values of every type) and all constructor arguments and assignments",
  "Tests try single wrong values of some parameters.",
  ["pycose/headers.py", M + "cosebase.py", M + "cosemessage.py", "pycose/utils.py"],
  [("value parsers", "pycose/headers.py"), ("CoseBase.__init__/_parse_header", M + "cosebase.py"), ("payload, external_aad, key setters", M + "cosemessage.py")],
  ["message constructors", "decode", "payload/external_aad/key assignment"])
p("C23", "Using a message or key has no side effects on inputs or later results",
  "Constructing, encoding, signing, verifying, computing or checking tags, decrypting and looking things up modify neither the dictionaries, lists and keys handed in by the caller, nor a message's headers, payload and key beyond what the operation is documented to set. "
  "Repeating a deterministic operation on an unchanged message gives the same result, and operations on one message or key never change the result of an operation on another.",
  ["inputs", "histories"], "all inputs and all interleavings of operations on several messages and keys",
  "Each test builds a fresh message, uses it once and does not look at its inputs afterwards.",
  [M + "cosebase.py", M + "cosemessage.py", M + "maccommon.py", M + "enccommon.py", M + "signcommon.py", K + "cosekey.py"],
  [("frame conditions of the operations", M), ("copying of optional_params and headers", K)],
  ["all public operations of messages and keys"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
