#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so the text stays editable)."""
import json, os
PM='lib/python-proofmarshal/proofmarshal/'
BL='lib/python-bitcoinlib/bitcoin/'
PC='proofchains/core/'
OUT=[]
def P(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    OUT.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None)))

P('C01','proofmarshal primitive values round-trip and enforce their ranges',
 'Serialising any in-range boolean, 8/16/32/64-bit unsigned integer, fixed-length or length-bounded byte string and deserialising the result gives back an equal value. Values of the wrong type, or integers and byte strings outside the declared range, are refused with the serializer type or value error by the instance check that proof construction applies to every attribute.',
 ['inputs'],'every bool, every integer (in and out of range), every byte string and declared length bound',
 'Tests serialise a handful of constants (0, 1, 127, 128, ...); range boundaries and 7-bit-group boundaries of the varuint coding over the whole 64-bit range are not sampled.',
 [PM+'serialize.py'],[('stream contexts write_bool/write_varuint/write_bytes and readers',PM+'serialize.py:139'),('range checks',PM+'serialize.py:284')])
P('C02','Decoding untrusted bytes succeeds or raises a deserialization error',
 'Given any byte string, decoding a primitive value, a bit string, a proof structure, a proof variant or a proof union either yields a value within the declared range of that type, or raises a deserialization error; no other exception escapes. A strict prefix of a valid encoding is never accepted, and reading past the end is reported as truncation.',
 ['inputs'],'every byte string up to the stated length, for every serializable type',
 'Tests feed a few hand-written corrupt strings; the claim is over all byte strings, where one unchecked branch (an unknown variant number, a byte other than 00/ff) escapes.',
 [PM+'serialize.py',PM+'proof.py',PM+'bits.py'],[('truncation check',PM+'serialize.py:183'),('range checks on read',PM+'serialize.py:376'),('union number check',PM+'proof.py:281'),('bit-tail padding check',PM+'bits.py:309')])
P('C03','Bit strings behave as immutable sequences of bits',
 'A bit string built from any iterable of bits or from bytes with a length is an immutable sequence: length, iteration, indexing (negative too), slicing, concatenation, inversion and prefix tests give exactly what the same operation gives on the equivalent list of bits, and out-of-range indices raise IndexError. Unused bits in the last byte of the source bytes never influence any of these results.',
 ['inputs'],'all bit contents and lengths, all indices, slice bounds and operand pairs (within the stated lengths)',
 'Tests check listed examples; byte-boundary interactions between offset, length and garbage tail bits are combinatorial.',
 [PM+'bits.py'],[('Bits',PM+'bits.py:20'),('tail bit masking',PM+'bits.py:105')])
P('C04','Bit string equality and ordering are consistent with bit-sequence comparison',
 'Two bit strings are equal exactly when they have the same length and the same bits, whatever unused bits their storage holds. Ordering them is a strict total order (irreflexive, asymmetric, transitive, and total on unequal values) that is lexicographic on the bits, and the common prefix of two bit strings is the longest bit string both start with.',
 ['inputs'],'all pairs (and for transitivity triples) of bit strings up to the stated length',
 'A total-order law quantifies over all pairs and triples; the tests compare a few pairs.',
 [PM+'bits.py'],[('__lt__',PM+'bits.py:128'),('__eq__',PM+'bits.py:114'),('common_prefix',PM+'bits.py:247')])
P('C05','Bit string serialization is canonical and round-trips',
 'Serialising a bit string of any length (including empty and byte-aligned ones) and deserialising it gives back an equal bit string, equal bit strings serialise to identical bytes, and different ones to different bytes. Encodings with non-zero padding bits or missing bytes are rejected with a deserialization error.',
 ['inputs'],'all bit strings up to the stated length and all input bytes',
 'Length modulo eight and the padding value interact; tests use few lengths.',
 [PM+'bits.py'],[('BitsSerializer',PM+'bits.py:295')])
P('C06','Proof structures round-trip through serialization',
 'For every proof structure (plain, nested, with variants, or holding a union of proof types), serialising it and deserialising the bytes with the declaring type yields an equal structure with the same concrete type, the same attribute values and the same hash. Creating one with a missing or ill-typed attribute is refused.',
 ['inputs','configurations'],'all attribute values and all combinations of concrete variants and union members, nested up to the stated depth',
 'Tests round-trip a few fixed instances.',
 [PM+'proof.py'],[('Proof serialization',PM+'proof.py:182'),('VarProof union numbers',PM+'proof.py:269'),('ProofUnion',PM+'proof.py:292')])
P('C07','A proof hash commits to its type and to every attribute',
 'Assuming an ideal (collision-free) hash function, two proof structures have equal hashes only if they are of the same concrete type and all their attributes are equal, and equality of proofs coincides with equality of hashes. The hash does not depend on whether or which sub-structures have been pruned, nor on how the structure was obtained (constructed, deserialised, or pruned).',
 ['inputs','configurations'],'all pairs of structures with arbitrary attribute contents, all pruning states',
 'Commitment is a universally quantified injectivity claim; tests compare specific digests.',
 [PM+'proof.py',PM+'serialize.py'],[('calc_data_hash/calc_hash',PM+'proof.py:151'),('HashTag keyed hashing',PM+'serialize.py:439')])
P('C08','Pruned proofs keep their hash and disclose exactly what was accessed',
 'Pruning any proof gives a copy with the same hash in which every attribute that is then accessed has its original value. After serialising and deserialising such a copy, the hash is unchanged and every accessed value is still available; a structure of which some attribute was accessed discloses its plain attributes, its sub-proofs only as far as they were accessed themselves, and using an attribute of a structure that was never entered raises the pruned error. A received proof is reported as pruned exactly when it or anything below it is. The original is never affected.',
 ['inputs','histories'],'all structures, all access patterns over a pruned copy (every subset of paths), all attribute contents',
 'The number of access patterns is exponential in structure size; tests exercise two or three.',
 [PM+'proof.py'],[('prune',PM+'proof.py:91'),('__getattr__ un-pruning',PM+'proof.py:108'),('pruned serialization',PM+'proof.py:187')])
P('C09','Proof structures cannot be changed after construction',
 'Assigning or deleting any attribute of a proof structure, or assigning or deleting an element of a Merkle list, raises a type error and leaves value, hash and serialization unchanged. Mutating operations such as append, put and remove return new structures and never change the structure they were called on.',
 ['inputs','histories'],'all structures, attribute names and operation sequences within the bound',
 'Tests try one attribute; history dependence (cached hash against later operations) is not sampled.',
 [PM+'proof.py',PM+'mmr.py',PM+'merbinnertree.py'],[('__setattr__/__delattr__',PM+'proof.py:85'),('MMR __setitem__/__delitem__',PM+'mmr.py:230')])
P('C10','A Merkle mountain range behaves as an append-only list',
 'After any sequence of construction, append and extend operations, length, iteration, reversed iteration, integer indexing (including negative) and slicing with any start and stop give exactly what the same operation gives on the plain list of values. Out-of-range indices raise IndexError; slice steps other than one are refused.',
 ['inputs','histories'],'all sizes up to the bound, all values, all indices and slice bounds',
 'Slice arithmetic splits recursively at sub-tree boundaries: the failing combinations of size, start and stop are a small part of a cubic space.',
 [PM+'mmr.py'],[('inner node __getitem__',PM+'mmr.py:397'),('leaf __getitem__',PM+'mmr.py:336'),('append merging',PM+'mmr.py:457')])
P('C11','Merkle mountain ranges have one canonical shape and commit to their list',
 'The tree built for n values depends only on the sequence of values, not on how it was split between construction, append and extend, and has the documented shape (perfect sub-trees from largest to smallest). With an ideal hash function, two ranges have equal hashes only if they have the same length and the same values, also for different lengths.',
 ['inputs','histories'],'all values, all sizes up to the bound, all build histories',
 'History independence and commitment quantify over all pairs of build histories and value sequences.',
 [PM+'mmr.py'],[('append/_merge_trees',PM+'mmr.py:457'),('extend',PM+'mmr.py:245'),('length in the hashed inner node',PM+'mmr.py:381')])
P('C12','A merbinner tree behaves as an immutable map',
 'After any sequence of put and remove operations, lookup, membership, length, keys, values and items agree with those of a plain dictionary with the same history: a put on an existing key replaces its value, a remove of a missing key or a lookup of one raises KeyError. Keys have distinct prefixes, none of which is the beginning of another; a put that would break this is refused and changes nothing. Earlier versions of the tree stay valid and unchanged.',
 ['inputs','histories'],'all operation sequences up to the bound with arbitrary keys and values',
 'Which keys share a prefix determines the tree shape; tests use a few fixed keys.',
 [PM+'merbinnertree.py'],[('put',PM+'merbinnertree.py:140'),('remove',PM+'merbinnertree.py:165'),('descend',PM+'merbinnertree.py:191')])
P('C13','Merbinner trees are history independent, commit to the map, and compare as sets',
 'Two merbinner trees holding the same key/value pairs have the same hash whatever order of puts and removes produced them, and with an ideal hash function different maps have different hashes. The subset test holds exactly when every key/value pair of one tree is in the other.',
 ['inputs','histories'],'all key/value sets up to the bound, all insertion/removal orders',
 'Independence quantifies over all permutations and interleavings of operations for all keys.',
 [PM+'merbinnertree.py'],[('inner node creation',PM+'merbinnertree.py:311'),('issubset',PM+'merbinnertree.py:200')])
P('C14','Merkle containers survive serialization and partial disclosure',
 'Serialising a Merkle mountain range or merbinner tree and deserialising it gives an equal container with the same contents and hash. A pruned copy on which some elements were looked up, serialised and deserialised, still gives those elements and the same hash, and never gives a wrong element: anything not disclosed raises the pruned error.',
 ['inputs','histories'],'all contents, all looked-up subsets, sizes within the bound',
 'The set of disclosure patterns is exponential and tests cover none for containers.',
 [PM+'mmr.py',PM+'merbinnertree.py',PM+'proof.py'],[('container serialization',PM+'proof.py:269'),('pruned descent',PM+'proof.py:108')])
P('C15','Tagged hashes are domain separated',
 'Hashing under a hash tag is the keyed hash of the message under that tag: with an ideal hash, different tags or different messages never give the same digest, tags derived from different parents or with different sub-tags differ, and tags must have the documented size. The declared proof types of this library all use different tags.',
 ['inputs'],'all tags, sub-tags and messages of the stated lengths, all pairs',
 'A pairwise non-collision claim cannot be tested by examples.',
 [PM+'serialize.py'],[('HashTag',PM+'serialize.py:439')])

P('C16','A Bitcoin seal witness verifies exactly when it closes the seal over the digest',
 'Verification of a Bitcoin single-use seal witness for a digest (verify() and verify_hash() together) succeeds if and only if the witness transaction output proof and the input proof belong to the same transaction, that transaction spends exactly the seal outpoint at the stated input, and the stated output carries the digest in one of the three supported output forms; it fails by an assertion or index error. A witness for one digest never verifies for a different digest, seal or transaction.',
 ['inputs'],'all seals, transactions (within the stated shape bound), input/output indices and digests',
 'Soundness quantifies over all forged witnesses; tests build one valid witness and perturb it once or twice.',
 [PC+'uniquebits/singleuseseal.py',PC+'bitcoin.py'],[('BitcoinSealWitness.verify/verify_hash',PC+'uniquebits/singleuseseal.py:91'),('TxIn/TxOut proofs',PC+'bitcoin.py:99')])
P('C20','Disclosures of one Merkle commitment never contradict each other',
 'Given any two Merkle mountain ranges, or any two merbinner trees, received as bytes, pruned in any way and possibly forged, that have the same hash: the values they give for an index or key are equal, one does not give a value where the other denies that there is one, and their lengths agree. Where they cannot tell, they raise the pruned error (or refuse the forged structure).',
 ['inputs'],'all pairs of received structures up to the stated depth, with arbitrary digests, lengths, prefixes, keys and values in the forged nodes',
 'Non-contradiction is the security claim of the module documentation and quantifies over forged proofs; the tests never build one.',
 [PM+'mmr.py',PM+'merbinnertree.py'],[('length and children in the inner node hash',PM+'mmr.py:381'),('descend by prefix',PM+'merbinnertree.py:356')])
P('C18','Transaction proofs commit to the transaction and expose its hash',
 'For every transaction, its proof reports the real Bitcoin transaction id, also when pruned, and serialises and deserialises to an equal proof; transactions and outpoints embedded in proofs round-trip and anything that is not one is refused with the serializer type error. Input and output proofs return exactly the indexed input or output, and verify only for indices that exist.',
 ['inputs','configurations'],'all transactions within the shape bound, all indices, pruned and unpruned',
 'Tests use one transaction.',
 [PC+'bitcoin.py'],[('TxProof',PC+'bitcoin.py:62'),('CTransactionSerializer',PC+'bitcoin.py:20'),('COutPointSerializer',PC+'bitcoin.py:41')])
P('C19','A unique-map entry verifies exactly when its witness commits to its contents',
 'A used map entry verifies if and only if its witness commits to the digest of its key and value (for a split prefix: of the seals of its two children), under a digest specific to the map type and the kind of entry. Building an entry from an unused prefix with an honest witness, or from two children, always gives one that verifies, and replacing key, value or a child by one with different contents makes verification fail; the reported prefix and seal are those of the contents.',
 ['inputs'],'all prefixes up to the bound, keys, values, seals and witness digests',
 'Soundness is over all mismatching contents and witnesses; tests try one or two.',
 [PC+'uniquebits/gumap.py'],[('LeafPrefix.verify',PC+'uniquebits/gumap.py:101'),('InnerPrefix.verify',PC+'uniquebits/gumap.py:153')])

P('C21','Compact sizes, byte strings and vectors round-trip with the Bitcoin encoding',
 'Every integer from 0 to 2^64-1 is encoded as the Bitcoin compact-size form of minimal length and decodes to itself; length-prefixed byte strings, vectors and 256-bit integer vectors round-trip. Negative values are refused, truncated input raises the truncation error and no partial value is returned.',
 ['inputs'],'all 64-bit integers, all byte strings and vectors up to the stated sizes (including those around the 253 and 65536 boundaries), all truncation points',
 'Tests sample a few integers; the boundaries between forms and all truncation points are universally quantified.',
 [BL+'core/serialize.py'],[('VarIntSerializer',BL+'core/serialize.py:190'),('BytesSerializer',BL+'core/serialize.py:221'),('VectorSerializer',BL+'core/serialize.py:234')])
P('C22','Transactions, headers and blocks round-trip in the Bitcoin wire format',
 'Every outpoint, input, output, transaction, block header and block serialises to exactly the Bitcoin wire format (field order, widths, signedness, endianness), and deserialising that gives an equal object. Any strict prefix of an encoding raises a serialization error, and surplus bytes after an object are reported as extra data with the object and the surplus available.',
 ['inputs'],'all field values over their full ranges, all shapes within the bound, all truncation points',
 'Tests compare a few known transactions; field ranges and truncation points are not covered.',
 [BL+'core/__init__.py',BL+'core/serialize.py'],[('stream_serialize/stream_deserialize of the core types',BL+'core/__init__.py:121'),('deserialize with padding check',BL+'core/serialize.py:106')])
P('C23','Immutable and mutable forms convert without loss and hashes never go stale',
 'Converting a transaction, input, output or outpoint between its immutable and mutable form gives an object with equal fields, serialization and hash, and later changes to a mutable one never show in an immutable one made from it (and conversely). Immutable objects refuse assignment and deletion of attributes, and the hash reported by any object always equals the double-SHA256 of its current serialization (of its header, for a block).',
 ['inputs','histories'],'all field contents, all orders of conversion, mutation and hash queries within the bound',
 'Aliasing and cache staleness depend on the order of operations; tests try few.',
 [BL+'core/__init__.py',BL+'core/serialize.py'],[('from_tx/from_txin/from_txout/from_outpoint',BL+'core/__init__.py:154'),('cached GetHash',BL+'core/serialize.py:139'),('__make_mutable',BL+'core/__init__.py:110')])
P('C24','Block Merkle roots follow the Bitcoin construction',
 'The Merkle root of a block with any number of transactions equals the Bitcoin definition (pairwise double-SHA256, duplicating the last node of an odd level), and a block constructed with transactions accepts exactly that root. With an ideal hash, changing any transaction id changes the root.',
 ['inputs'],'all transaction id contents, all counts within the bound',
 'Tests check known blocks; odd-level duplication at inner levels needs specific counts.',
 [BL+'core/__init__.py'],[('build_merkle_tree_from_txids',BL+'core/__init__.py:444')])
P('C25','Context-free transaction checks accept exactly the valid transactions',
 'The transaction check raises its error if and only if the transaction has no inputs, no outputs, is larger than the block size limit, has an output value negative or above the money limit, has outputs whose running total leaves the money range, spends the same outpoint twice, is a coinbase with a script outside 2 to 100 bytes, or is not a coinbase yet has a null previous output. No other exception escapes.',
 ['inputs'],'all transactions within the shape bound with arbitrary 64-bit values, outpoints and script lengths',
 'Boundary values for eight separate rules and their combinations; tests hold a list of examples.',
 [BL+'core/__init__.py'],[('CheckTransaction',BL+'core/__init__.py:584')])
P('C26','Block and header checks accept exactly the valid blocks',
 'The header check rejects exactly headers failing proof of work or more than two hours in the future; the block check additionally rejects exactly blocks that are empty, oversized, lack a coinbase in first place or have one elsewhere, contain a transaction failing the transaction check, a repeated transaction, too many signature operations, or a wrong Merkle root. Rejection is always by the validation error type.',
 ['inputs'],'all header field values, times and targets; block shapes within the bound',
 'Rule boundaries and combinations over all inputs; tests have a handful of JSON blocks.',
 [BL+'core/__init__.py'],[('CheckBlockHeader',BL+'core/__init__.py:653'),('CheckBlock',BL+'core/__init__.py:685')])
P('C27','Compact targets decode correctly and proof of work is compared exactly',
 'Every 32-bit compact target decodes to the integer Bitcoin defines (mantissa scaled by the exponent, truncating for small exponents), and the proof-of-work check passes exactly when the target is positive, not above the network limit, and the block hash taken as a little-endian number is not above the target. Other compact values are refused with the proof-of-work error.',
 ['inputs'],'all 2^32 compact values and all 256-bit hashes, every network',
 'Quantifies over 2^32 x 2^256 inputs; tests have two.',
 [BL+'core/serialize.py',BL+'core/__init__.py'],[('uint256_from_compact',BL+'core/serialize.py:308'),('CheckProofOfWork',BL+'core/__init__.py:636')])
P('C28','Scripts built from data and opcodes parse back to the same elements',
 'A script built from any sequence of byte strings, integers and opcodes iterates back to the equivalent elements, using the push form Bitcoin prescribes for each length, and raw iteration of any byte string yields consecutive operations that exactly tile it or raises the invalid-script error (truncated push, with the partial data). Adding an element to a script equals building the script with that element appended (any byte string, also a script, becomes a push); joining is refused.',
 ['inputs'],'all data contents and lengths at and around every push-form boundary, all integers, all opcodes, arbitrary raw scripts up to the bound',
 'Tests use listed scripts; boundaries 75/76/255/256/65535/65536 and truncation at each length byte are universally quantified.',
 [BL+'core/script.py'],[('encode_op_pushdata',BL+'core/script.py:46'),('raw_iter',BL+'core/script.py:555'),('__coerce_instance',BL+'core/script.py:514')])
P('C29','Script classification and signature-operation counting match the Bitcoin rules',
 'For every byte string taken as a script, the pay-to-script-hash, push-only, canonical-push, unspendable and validity tests answer exactly as the Bitcoin rules define, never raising for malformed scripts, and the signature operation count (simple and accurate) equals the count over the operations before the first malformed one. The pay-to-script-hash form of a script is recognised as such and contains its hash.',
 ['inputs'],'all raw scripts up to the bound',
 'Malformed tails and opcode adjacency give a huge input space; tests list examples.',
 [BL+'core/script.py'],[('is_p2sh etc.',BL+'core/script.py:661'),('GetSigOpCount',BL+'core/script.py:752')])
P('C30','Script numbers encode minimally and round-trip',
 'Every integer encodes to the minimal little-endian sign-and-magnitude byte string of Bitcoin script numbers and decodes back to itself; decoding any byte string gives the number the Bitcoin rules define, including non-minimal forms and negative zero.',
 ['inputs'],'all integers and byte strings within the bound (beyond the 4-byte operand range)',
 'Sign bit spilling at each byte boundary over the whole range; tests use few values.',
 [BL+'core/_bignum.py'],[('bn2vch/vch2bn',BL+'core/_bignum.py:95')])
P('C31','Every script opcode transforms the stack as Bitcoin defines',
 'Evaluating each opcode on any stack either leaves exactly the stack the Bitcoin reference rules define, or fails exactly when those rules fail: missing operands, oversized numbers, failed verify, disabled or unknown opcodes. Conditional branches execute exactly the branch selected, with disabled opcodes failing even when not executed.',
 ['inputs','programs'],'all opcodes, all stack contents with elements up to the bound, short opcode sequences',
 'The reference JSON vectors sample each opcode with a few operands; operand encodings (negative zero, non-minimal, 5-byte) are universally quantified.',
 [BL+'core/scripteval.py'],[('_EvalScript',BL+'core/scripteval.py:340'),('_UnaryOp/_BinOp',BL+'core/scripteval.py:215')])
P('C32','Script evaluation enforces the resource limits exactly',
 'Evaluation fails if and only if, among limits, the script exceeds 10,000 bytes, a pushed element exceeds 520 bytes, more than 201 non-push operations are executed (counting public keys in multi-signature checks), or the main and alternate stacks together exceed 1,000 elements after any operation. Scripts just inside each limit are accepted.',
 ['inputs','programs'],'script families parameterised by symbolic sizes, operation and element counts around each limit',
 'Off-by-one at limits, and limits reached only via pushes, are not in the vectors.',
 [BL+'core/scripteval.py'],[('limit checks',BL+'core/scripteval.py:340')])
P('C33','Script evaluation fails only with validation errors',
 'Evaluating any byte string as a script, on any stack, terminates and either succeeds or raises the script-evaluation error (or the invalid-script error for undecodable scripts wrapped likewise); no index, type, value or overflow error escapes. The error carries the script, the failing operation and its position.',
 ['inputs','programs'],'all scripts up to the bound on all stacks within the bound',
 'Robustness against arbitrary input; vectors are mostly well-formed.',
 [BL+'core/scripteval.py'],[('EvalScript wrapper',BL+'core/scripteval.py:679'),('err_raiser',BL+'core/scripteval.py:360')])
P('C34','Script verification combines the two scripts as Bitcoin does',
 'Verification succeeds exactly when the signature script and then the output script evaluate without error leaving a true top element and, if pay-to-script-hash evaluation is requested and the output has that form, the signature script only pushes data and the serialised script it provides also evaluates to true on the remaining stack. Verifying a transaction input checks the referenced output and outpoint, and failure is always reported by a validation error.',
 ['inputs','programs','configurations'],'all short signature scripts / output scripts / redeem scripts, flags on and off',
 'Combination of three script evaluations with shared stack; vectors contain few P2SH cases.',
 [BL+'core/scripteval.py'],[('VerifyScript',BL+'core/scripteval.py:702'),('VerifySignature',BL+'core/scripteval.py:746')])
P('C35','Signature hashes cover exactly what the hash type prescribes',
 'For every transaction, input index, script and 32-bit hash type, the signature hash equals that of the Bitcoin reference algorithm, including none/single/anyone-can-pay combinations, code separators, removal of the signature from the script and the out-of-range single case. The transaction being signed is never modified.',
 ['inputs'],'all hash-type values, input indices, field contents; transactions and scripts within the shape bound',
 'Which fields are blanked depends on the combination of type bits, index and counts; the vectors only test via real signatures.',
 [BL+'core/script.py'],[('RawSignatureHash',BL+'core/script.py:801'),('FindAndDelete',BL+'core/script.py:783')])
P('C36','Multi-signature and signature checks accept exactly the right signatures',
 'For any relation of which signature is valid for which public key, a multi-signature check succeeds exactly when the signatures, in order, can be matched to distinct public keys in order, for any counts of keys and signatures, and fails for counts outside the limits. Single and multi signature checks use the last signature byte as hash type, treat an empty signature as a failed check, and verify against the signature hash of the current script code.',
 ['inputs'],'all validity relations between up to N keys and M signatures, all counts encodings, symbolic signature bytes',
 'Matching over all validity matrices is exponential; vectors have a few with real keys.',
 [BL+'core/scripteval.py'],[('_CheckMultiSig',BL+'core/scripteval.py:137'),('_CheckSig',BL+'core/scripteval.py:116')])
P('C37','Base58 and Base58Check round-trip and detect corruption',
 'Encoding any byte string to base58 and decoding it gives it back, leading zero bytes included; decoding any text over the alphabet and re-encoding gives the same text, and other characters are refused. Checked data round-trips with its version byte, and any text whose checksum does not match its payload, or which is too short, is refused with the base58 errors.',
 ['inputs'],'all byte strings and texts within the length bound',
 'Tests have a dozen vectors; leading-zero handling and all-payload round trip are universal.',
 [BL+'base58.py'],[('encode/decode',BL+'base58.py:41'),('CBase58Data',BL+'base58.py:99')])
P('C38','Addresses and output scripts correspond one to one per network',
 'Every 20-byte hash with the selected network\'s key-hash or script-hash prefix is an address whose output script converts back to the same address; the standard output script forms give the address of the right kind and hash, every other script is refused, and addresses of another network are refused. A private key in wallet format round-trips with its compression flag.',
 ['inputs','configurations'],'all 20-byte hashes, all scripts of the candidate lengths, all version bytes, each network',
 'Script-recognition is over all byte strings of a given length and each network.',
 [BL+'wallet.py'],[('from_scriptPubKey/to_scriptPubKey',BL+'wallet.py:34'),('from_bytes network check',BL+'wallet.py:38'),('CBitcoinSecret',BL+'wallet.py:228')])
P('C39','P2P messages round-trip and corrupt frames are refused',
 'Every protocol message with any field values frames as network magic, padded command, length and checksum, and parsing the frame gives back the same message type and fields; consecutive frames in a stream parse one after another. A frame with the wrong magic, a wrong checksum or insufficient bytes is refused with an error and never yields a message.',
 ['inputs','configurations'],'all message types, all field values, all single-frame corruptions, truncation at every point, each network',
 'Tests round-trip default-constructed messages only.',
 [BL+'messages.py',BL+'net.py'],[('to_bytes/stream_deserialize',BL+'messages.py:54'),('per-message msg_ser/msg_deser',BL+'messages.py:113'),('net structures',BL+'net.py:28')])
P('C40','Bloom filters never give false negatives and match the Bitcoin definition',
 'Every element inserted into a bloom filter is afterwards reported as contained, whatever else is inserted before or after; the bits set are exactly those of the Bitcoin definition (MurmurHash3 with the tweaked seed), inserting an element already covered changes nothing, a filter without data matches everything, and a serialised filter has the Bitcoin wire format and deserialises to an equal filter. A new filter has, up to rounding, the size and number of hash functions that are optimal for its number of elements and false positive rate, within the protocol limits of 36000 bytes and 50 functions.',
 ['inputs','histories'],'all elements up to the bound, all filter parameters within the stated set, all tweaks',
 'No-false-negative is universal over elements and histories; tests insert three.',
 [BL+'bloom.py'],[('MurmurHash3',BL+'bloom.py:27'),('insert/contains',BL+'bloom.py:126')])
P('C41','Amounts print exactly and hex conversions invert each other',
 'Formatting any valid money amount gives the exact decimal value in coins, with at least one decimal and no superfluous zeros. Converting bytes to hex text and back, in either byte order, gives the original bytes, and the money range test holds exactly from zero to the limit.',
 ['inputs'],'all amounts 0..21e14, all byte strings within the bound',
 'Trailing-zero trimming is data dependent over 2.1e15 values.',
 [BL+'core/__init__.py'],[('str_money_value',BL+'core/__init__.py:94'),('x/b2x/lx/b2lx',BL+'core/__init__.py:34')])
P('C42','The single-use-seal command line tool verifies what it makes and nothing else',
 'A seal, closing transaction and witness made with the tool always pass its verification command for the digest they were made for, and verification fails for any other digest or, when a seal is given, any other seal. The textual outpoint and digest arguments are parsed to exactly the value written or refused.',
 ['inputs'],'all outpoints, digests and argument texts within the length bound, transaction shapes within the bound',
 'There are no tests of the tool at all.',
 ['sus-tool.py'],[('argument parsing',
 'sus-tool.py:28'),('mkseal/mkwitness/verifywitness','sus-tool.py:90')])
P('C43','Elliptic-curve keys sign, verify and agree consistently',
 'With the elliptic-curve library behaving as documented: the public key of a private key is the one the library derives from exactly the 32 bytes of the secret, in the requested form (compressed or not); a signature over a 32-byte digest is returned in full and verifies under the corresponding public key for that digest and no other digest or key; verification is true exactly when the library reports the signature valid, never on its error result or for a public key that is not fully valid; a public key is reported fully valid exactly when the library accepts its bytes. Secrets and digests of any other length, and failures of the library, are refused with an error. Two parties agree on the same ECDH secret, and a stored private key gives back the same key. Every pointer handed to the library is one it returned, wherever in memory it placed the object, and it is never made to read or write beyond a buffer.',
 ['inputs','faults'],'all secrets, digests, public key encodings of the lengths within the bound, results of the library, and addresses of its objects',
 'Tests use a few keys, run where the allocator happens to give small addresses, and never see the library fail.',
 [BL+'core/key.py',BL+'wallet.py'],[('CECKey over OpenSSL',BL+'core/key.py:39'),('CPubKey',BL+'core/key.py:145'),('CKey',BL+'wallet.py:201')])
P('C44','Block difficulty is computed from the compact target',
 'The difficulty computed from a compact target, and reported by a header, is the ratio of the difficulty-1 target to that target, up to floating-point rounding, for every positive mantissa and every exponent up to 34.',
 ['inputs'],'all compact targets',
 'Tests use a few targets.',
 [BL+'core/__init__.py'],[('calc_difficulty',BL+'core/__init__.py:421')])
P('C45','RPC proxy calls map to the JSON-RPC wire protocol',
 'Each call on the RPC proxy sends exactly one request, to the configured service with the configured credentials, holding the documented method and parameters and a fresh id: hashes in display byte order, transactions and blocks as the hex of their serialization, addresses as text, amounts in coins. The reply is converted back: hashes to internal byte order, amounts to satoshis exactly (up to all 21 million coins, negative balances included), hex to transactions, blocks, scripts and keys equal to the ones serialized, address texts to addresses. An error reply raises the JSON-RPC error with its code, or IndexError for an unknown block, height, transaction or output; a missing response or result is an error too; later calls are not affected by earlier failures. Host, port, path, scheme, user and password come from the service address or, exactly as written there, from bitcoin.conf, with the port of the selected chain as default; an unknown rpcssl value is refused.',
 ['inputs','fault_sequences'],'all amounts, hashes, indices and serialized objects in requests and replies, error codes, call sequences',
 'Needs a node; no test of the proxy exists, and conversions must be exact for every amount and byte order.',
 [BL+'rpc.py'],[('RawProxy._call',BL+'rpc.py:132'),('Proxy',BL+'rpc.py:190')])
P('C17','A closing transaction template closes exactly the given seals',
 'For any digest and any list of seals, the template has one input per seal spending its outpoint, in order, and one output committing to the digest by the chosen method; witnesses built from it verify for every one of those seals and that digest, for each of the three methods. It never verifies for a different digest or for a seal not in the list.',
 ['inputs','configurations'],'all digests, outpoints, nonces, numbers of seals within the bound, all three methods',
 'Completeness over all seals and methods and soundness against all other digests; no test covers it.',
 ['proofchains/uniquebits/singleuseseal.py',PC+'uniquebits/singleuseseal.py'],[('make_close_seal_tx_template','proofchains/uniquebits/singleuseseal.py:17'),('verify_hash accepted scripts',PC+'uniquebits/singleuseseal.py:95')])
OUT.sort(key=lambda d:d['id'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(d)+'\n' for d in OUT))
print(len(OUT))
