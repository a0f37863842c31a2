#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=None)))
M='src/app/channel/msg/'
MSGS=[M+x for x in ('announce.rs','change_key.rs','keyload.rs','signed_packet.rs','tagged_packet.rs','subscribe.rs','unsubscribe.rs')]+['src/app/core/msg/header.rs']
PB=['src/pb3/cmd/absorb.rs','src/pb3/cmd/mask.rs','src/pb3/cmd/join.rs','src/pb3/cmd/mac.rs','src/pb3/cmd/mssig.rs','src/pb3/cmd/ntrukem.rs','src/pb3/typ/trytes.rs','src/pb3/typ/trint.rs','src/pb3/typ/msspk.rs','src/pb3/typ/ntrupk.rs']

prop('C01','Every message reader is the mirror image of its writer',
 'Unwrapping the trits that wrap produced, starting from the same sponge state and with the matching keys and links, succeeds, returns exactly the fields that were wrapped, consumes exactly the trits that were written and leaves the sponge in the same state the writer was left in. This holds for the header, for each of the seven channel messages and for every PB3 field type, for all field values and payload sizes.',
 ['inputs'],'all field values, payload sizes, optional parts, numbers of recipients and starting sponge states',
 'The tests wrap and unwrap one or two fixed messages per type (one PSK, five NTRU keys, short payloads); the property is over all values and sizes, and the tests never compare the final sponge states of messages.',
 MSGS+PB,[('wrap / unwrap pairs',M+'*.rs'),('Absorb / Mask traits','src/pb3/cmd/absorb.rs, src/pb3/cmd/mask.rs')],
 observe=['wrap','unwrap','unwrap_recover','unwrap_verify'])
prop('C02','Messages follow the documented PB3 transcript',
 'For every message, the sequence of sponge operations (absorb, mask, skip, join, fork, commit, squeeze, sign, encapsulate) and the encoded fields, in order and extent, is the one in the documented PB3 description, in the writer and in the reader: every documented field is bound into the sponge state, and the application instance, the message id, the linked message, the session keys and the public keys are absorbed where documented.',
 ['inputs'],'all field values, payload sizes, optional parts and numbers of recipients',
 'A writer and a reader changed together (a field no longer absorbed, a commit dropped, a field unmasked) still round-trip, so every existing test passes while the protocol no longer binds or hides the field.',
 MSGS+PB,[('PB3 message descriptions in the module documentation',M+'*.rs'),('wrap and unwrap',M+'*.rs')],observe=['wrap','unwrap'])
prop('C03','sizeof equals the number of trits written',
 'For every message and every PB3 type, the sizeof function returns exactly the number of trits the corresponding wrap writes for the same arguments.',
 ['inputs'],'all payload sizes, tree heights, optional parts and recipient counts',
 'Tests compare the two for one or two argument tuples per message.',
 MSGS+['src/pb3/typ/size.rs','src/pb3/typ/trytes.rs','src/mss/mss.rs'],[('sizeof functions',M+'*.rs, src/pb3/typ/*.rs')],observe=['sizeof','wrap'])
prop('C04','No Ok without successful verification',
 'An unwrap that returns Ok has checked, over everything unwrapped before it, the MAC, signature or key-encapsulation check its message defines, and that check succeeded: both signatures of ChangeKey, the signature of Announce and of the verifying SignedPacket reader, the MACs of TaggedPacket, Subscribe and Unsubscribe, the encapsulation check of Subscribe and of an NTRU Keyload recipient. A failed check always yields an error, and verify functions return true only when the recovered key equals the given key in full and the signature has exactly the expected size.',
 ['inputs'],'all wire contents, keys and links',
 'Tests only unwrap well-formed messages; no test corrupts a tag or a signature.',
 MSGS+['src/pb3/cmd/mac.rs','src/pb3/cmd/mssig.rs','src/pb3/cmd/ntrukem.rs','src/mss/mss.rs','src/wots.rs','src/ntru.rs'],
 [('guard(...)?','src/pb3/err.rs'),('unwrap_mac','src/pb3/cmd/mac.rs'),('unwrap_mssig_verify','src/pb3/cmd/mssig.rs'),('verify','src/mss/mss.rs')],observe=['unwrap'])
prop('C05','Unwrapping hostile input returns an error, never panics',
 'For every input buffer, of any length and content, unwrapping a header, a channel message or a PB3 field either succeeds or returns an error: it does not panic, overflow, read outside the buffer, or allocate more than the buffer length warrants.',
 ['inputs'],'all buffers of all lengths and contents',
 'Tests only feed buffers produced by wrap, which are never truncated and never carry an inconsistent size or count.',
 MSGS+PB+['src/pb3/typ/size.rs','src/mss/mss.rs','src/wots.rs','src/ntru.rs'],
 [('guard(n <= b.size(), Err::Eof)','src/pb3/**')],observe=['unwrap'])
prop('C06','Saved sponge state is the inner state of a committed sponge',
 'Saving a sponge state is refused unless the sponge is committed; saving and restoring use the same capacity part of the state, every trit of it and nothing else, and a restored sponge starts with an empty outer part at position zero. Forking copies the complete state, and later operations on either copy do not affect the other.',
 ['inputs','histories'],'all sponge states',
 'Tests save and restore one state, and fork one state, only along one fixed sequence of operations.',
 ['src/spongos.rs'],[('to_inner / from_inner','src/spongos.rs'),('fork / fork_at','src/spongos.rs')],observe=['to_inner','from_inner','fork'])
prop('C07','Sponge data is a stream: chunking does not matter',
 'Absorb, squeeze, squeeze-and-compare, encrypt and decrypt process their argument trit by trit in order against consecutive positions of the outer state, every trit exactly once, and apply the permutation exactly when the outer part becomes full (or on commit of a non-empty outer part); squeezing zeroes the outer trits it returns. Hence cutting the data differently over calls gives the same result, for all lengths.',
 ['inputs','histories'],'all lengths and all positions in the outer state',
 'Tests use a handful of lengths on a few fixed states and mostly from a freshly committed state; an error at a chunk boundary that both directions share round-trips.',
 ['src/spongos.rs'],[('absorb, squeeze, squeeze_eq, encr, decr, update, commit','src/spongos.rs')],
 state=[('position','number of outer trits used, always below the rate between calls','src/spongos.rs')],observe=['absorb','squeeze','encr','decr'])
prop('C08','Decryption inverts encryption, in place or not',
 'For every state and data, decrypting what encrypt produced from the same state gives the data back and leaves the same state; the in-place form and the copying form produce the same output and the same state, and the in-place form is used only when input and output are the same location.',
 ['inputs'],'all trit values, lengths, offsets and buffer layouts',
 'Tests use separate buffers or exactly coinciding ones at offset zero; sub-slices of one buffer at different offsets are never tried.',
 ['src/trits/b1t1.rs','src/trits/slice.rs','src/spongos.rs'],[('swap_add/swap_sub/copy_add/copy_sub','src/trits/b1t1.rs'),('is_same','src/trits/slice.rs')],observe=['encr','decr'])
prop('C09','Derived outputs are squeezed from a committed state',
 'Every hash value, MAC tag, to-be-signed hash, random string, WOTS public key and Merkle node is squeezed from a state that was committed after the last trit of its input was absorbed.',
 ['inputs'],'all inputs and lengths',
 'Dropping a commit on both sides keeps every round-trip test passing and exposes input trits in the output.',
 ['src/spongos.rs','src/prng.rs','src/wots.rs','src/mss/mss.rs','src/pb3/cmd/mac.rs','src/pb3/cmd/mssig.rs','src/ntru.rs'],[('commit','src/spongos.rs')],observe=['hash_data','hash_datas','gen','calc_pk','wrap_mac'])
prop('C10','Integer and character codecs are exact',
 'For each of the 1, 3, 6, 9 and 18 trit integers, every value of the balanced range written at any position is read back unchanged and only those trits change; the unsigned tryte codec is exact on 0..27, the balanced division helpers return the unique balanced remainder and quotient, and the tryte/character conversions are mutually inverse on all 27 values and reject other characters.',
 ['inputs'],'all values of the ranges, all positions',
 'The tests check 0 and the extreme values and a range of small integers; 18-trit values number 387 million.',
 ['src/trits/b1t1.rs','src/trits/util.rs','src/trits/slice.rs'],[('put*/get*','src/trits/b1t1.rs'),('mods*','src/trits/util.rs')],observe=['put18','get18','to_str','from_str'])
prop('C11','size_t codec is bijective on its range and rejects everything else',
 'Every size up to the maximum is encoded as a leading count of at most 13 followed by exactly that many trytes, least significant first, whose last tryte is positive; decoding returns the same value without overflow, rejects counts outside 0..13 and non-positive leading trytes, and never reads beyond the input.',
 ['inputs'],'all sizes and all encodings',
 'Tests try some dozens of values; the boundary where the count grows depends on powers of 27 up to 27^12.',
 ['src/pb3/typ/size.rs'],[('Size::wrap / Size::unwrap','src/pb3/typ/size.rs')],observe=['wrap_absorb','unwrap_absorb_sized'])
prop('C12','Only trits 0, 1 and 2 are ever stored',
 'Starting from containers that hold only values 0, 1 and 2, every operation of the library that writes trits (codecs, cipher operations, squeezing, polynomial encoding, copying, incrementing) writes only values 0, 1 and 2.',
 ['inputs','histories'],'all values and operation sequences',
 'Tests never inspect the stored representation outside a few vectors; a stray 3 compares unequal and corrupts the permutation only for particular values.',
 ['src/trits/b1t1.rs','src/trits/slice.rs','src/troika.rs','src/spongos.rs'],[('TritWord for u8','src/trits/b1t1.rs')],observe=['slice reads'])
prop('C13','Trit slices never reach outside their range',
 'Every read or write made through a trit slice stays inside the range the slice denotes: sub-slicing operations yield ranges inside the original one and partition it as documented, and an operation asked for more trits than available panics in builds with debug assertions instead of touching memory outside; the size-limited variants never exceed the smaller operand.',
 ['inputs'],'all slice ranges and sizes',
 'Memory safety over raw pointers for all (size, offset) pairs; tests use a few sizes from offset zero and an overrun inside one allocation goes unnoticed.',
 ['src/trits/slice.rs','src/trits/b1t1.rs','src/trits/trits.rs'],[('SliceRange','src/trits/slice.rs')],observe=['take','drop','advance','copy_min'])
prop('C14','WOTS signing and recovery complete the same hash chains',
 'For every signed hash and each of the 81 parts, the number of hash applications when signing plus the number when recovering is the number used for the public key, all three walk the parts in the same order with the same part size, the last three parts encode the negated sum of all preceding digits, and signing and recovery derive the same digits from the same hash trits.',
 ['inputs'],'all hash values and keys',
 'One hash is signed and verified in the tests; digit and checksum values vary with the hash.',
 ['src/wots.rs'],[('sign / recover / calc_pk','src/wots.rs')],observe=['sign','recover','verify'])
prop('C15','MSS signature layout agrees between signer and verifier',
 'A signature of a tree of height d is height (4 trits), key number (14 trits), WOTS signature, and d authentication nodes from leaf to root; the reported size, the signer and the parser agree on every extent, the height and key number of every permitted tree survive encoding, and a signature whose height or key number is negative, whose key number does not exist in the tree, or that is too short, is rejected.',
 ['inputs'],'all heights, key numbers and signature buffers',
 'Tests reach heights up to 5; the permitted maximum is 20 and the parsed fields range over all 18-trit strings.',
 ['src/mss/mss.rs'],[('sign, encode_skn, parse_skn, recover, sig_size','src/mss/mss.rs')],observe=['sign','recover','sig_size'])
prop('C16','One-time keys: the key number only moves forward by one',
 'The current key number starts at zero, changes only by advancing to the next key (by exactly one, never past the number of leaves) or by loading a saved state, the encoded key number is the one whose leaf key signs, distinct leaves use distinct generator nonces, and signing with an exhausted key is refused.',
 ['histories','inputs'],'all sequences of sign, next, store and load',
 'Tests walk trees of small height once from start to end; they do not look at which leaf key signs.',
 ['src/mss/mss.rs','src/mss/mtcomplete.rs','src/mss/mttraversal.rs'],[('next, skn, sign','src/mss/*.rs')],state=[('skn','current key number','src/mss/mtcomplete.rs, src/mss/mttraversal.rs')],observe=['sign','next','skn_left'])
prop('C17','The public key of a private key never changes',
 'The Merkle root, hence the public key and the height of a signing key, is available and the same during its whole lifetime, including after the last key was used and across store and load.',
 ['histories'],'all sequences of next, sign, store, load and public_key',
 'Tests read the public key once at the beginning; no test asks for it after exhaustion.',
 ['src/mss/mss.rs','src/mss/mtcomplete.rs','src/mss/mttraversal.rs'],[('root','src/mss/mt.rs'),('public_key','src/mss/mss.rs')],observe=['public_key','root'])
prop('C18','Polynomial coefficients stay reduced',
 'Every polynomial operation keeps every coefficient in 0..Q, computes without integer overflow, and decoding rejects a coefficient outside the balanced range; equality of polynomials therefore is equality of residues.',
 ['inputs'],'all coefficient values',
 'An unreduced coefficient appears only for particular residues out of 12289 and often cancels in later operations.',
 ['src/poly.rs'],[('coeff_*','src/poly.rs')],observe=['Poly operations','to_trits','from_trits'])
prop('C19','An NTRU public key object always holds a validated key',
 'An NTRU public key object can only come from key generation or from decoding that checked the size and the invertibility of the polynomial, its precomputed transform always belongs to its trits, and a decoding that fails never leaves a changed key behind.',
 ['inputs','histories'],'all key encodings and all ways to obtain a key object',
 'Tests never decode an invalid key.',
 ['src/ntru.rs','src/pb3/typ/ntrupk.rs'],[('from_trits, from_slice, validate','src/ntru.rs'),('unwrap_absorb/unwrap_mask','src/pb3/typ/ntrupk.rs')],observe=['from_trits','unwrap_absorb'])
prop('C20','NTRU encapsulation and decapsulation run the same transcript',
 'Encapsulation and decapsulation feed the sponge the same sequence: the masking polynomial, a commit, the encrypted session key and a squeezed check value covering all remaining randomness trits; decapsulation reports failure whenever the polynomial does not decode or the check value differs, and derives its private polynomial exactly as key generation does.',
 ['inputs'],'all keys, session keys and capsules',
 'Tests decapsulate only good capsules; a check that compares fewer trits or ignores a failure passes them.',
 ['src/ntru.rs','src/poly.rs','src/pb3/cmd/ntrukem.rs'],[('encr_fo/encr_r, decr_fo/decr_r','src/ntru.rs')],observe=['encr_with_s','decr_with_s'])
prop('C21','All randomness binds the secret key and every nonce',
 'Every generator output is squeezed from a fresh sponge that absorbed the complete secret key, then every given nonce completely and in order, and committed; the key size is enforced, and all entry points give the same output for the same concatenated nonces.',
 ['inputs'],'all keys, nonces and output lengths',
 'Tests check that outputs are produced, not that each nonce influences them.',
 ['src/prng.rs'],[('gen, gens, genss','src/prng.rs')],observe=['gen','gens','genss'])
prop('C22','Secret key material is not exposed by the API',
 'Types holding secret keys cannot be printed, hashed or compared through standard traits and their secret fields are neither public nor returned by public functions; the fields are read only by the operations that need them.',
 ['programs'],'all client programs',
 'A property of which programs compile; tests only contain programs that do.',
 ['src/prng.rs','src/wots.rs','src/mss/mss.rs','src/ntru.rs'],[('PRNG, wots::PrivateKey, mss::PrivateKeyT, ntru::PrivateKey','src/*.rs')],observe=['public API'])
prop('C23','Tag comparison does not depend on where the tags differ',
 'Comparing trit sequences visits all trits whatever their values: neither the number of iterations nor the memory accesses of the comparison underlying MAC, key and signature checks depend on the compared contents, and no branch or memory index of the sponge permutation depends on the state.',
 ['inputs'],'all pairs of equal-size sequences and all states',
 'Timing behaviour is invisible to functional tests.',
 ['src/trits/b1t1.rs','src/trits/slice.rs','src/spongos.rs','src/troika.rs'],[('unsafe_eq','src/trits/b1t1.rs'),('squeeze_eq','src/spongos.rs')],observe=['squeeze_eq','unwrap_mac'])
prop('C24','Left and right Merkle nodes are treated alike everywhere',
 'The tree builder, the authentication path and the two path-folding functions agree: an even index is the left operand of the merge, an odd index the right one, the index halves per level, path nodes go from leaf to root, and the sibling of an index is the index with the lowest bit flipped.',
 ['inputs'],'all heights and leaf numbers',
 'Tests fold paths of trees up to height 5 in one implementation; a slip that depends on index bits above that is not reached.',
 ['src/mss/mt.rs','src/mss/mtcomplete.rs','src/mss/mss.rs'],[('fold_mut, fold_apath, apath, gen_mt','src/mss/*.rs')],observe=['apath','fold','recover'])
prop('C25','Equality of trit strings is full equality',
 'Two trit containers or slices are equal exactly when they have the same size and the same trits at every position; hashing a container uses nothing that equality ignores; equality of public keys, identifiers, integers, authentication paths and Merkle trees compares the complete value.',
 ['inputs'],'all pairs of values',
 'Tests compare values that are equal, or differ in the first trits.',
 ['src/trits/slice.rs','src/trits/trits.rs','src/trits/b1t1.rs','src/ntru.rs','src/mss/mss.rs','src/app/core/mod.rs'],[('PartialEq and Hash impls','src/**')],observe=['==','Hash'])
prop('C26','Bit-sliced trit arithmetic of the permutation is exact in every lane',
 'On every lane, for every encoding of trits, the addition, multiplication, increment and decrement of the permutation compute arithmetic modulo 3 and produce valid encodings; storing a trit and reading it back gives the trit and changes no other lane.',
 ['inputs'],'all trit values in all 27 lanes',
 'Test vectors exercise the composition on three messages, not each lane and operand pair.',
 ['src/troika.rs'],[('T27','src/troika.rs')],observe=['set1','get1','permutation'])
prop('C27','The stand-alone Troika hash is the sponge construction on every input',
 'TroikaSponge absorbs a message trit for trit into blocks of 243 (the rest of a started block is zero), applies the permutation exactly once per full block, pads with a single 1, and squeezes consecutive blocks of output with one permutation between blocks; the result does not depend on how the message or the output is split into calls; a fresh and a reset sponge start from the zero state.',
 ['inputs','histories'],'all messages, all splits of messages and outputs, all states',
 'Tests hash four messages of at most 243 trits with one absorb and one squeeze call.',
 ['src/troika.rs'],[('TroikaSponge','src/troika.rs')],observe=['absorb','finalize','squeeze','reset'])
prop('C28','Slices obey the borrow rules of their storage',
 'Safe code cannot keep a slice (or a slice derived from it, or a borrowed public key) beyond the life of the trits it points into, cannot hold a mutable slice without having borrowed the trits exclusively, cannot write through a read-only slice, and cannot use a slice from another thread: every program that tries is rejected by the compiler. Exempt is only from_raw_ptr, whose caller vouches for the pointer.',
 ['inputs','histories'],'all programs that use the crate from safe code, all functions that hand out a borrow',
 'A test is a program the compiler accepted; that wrong programs are rejected, and that lifetimes in signatures over raw pointers tell the truth, cannot be sampled by tests.',
 ['src/trits/slice.rs','src/trits/trits.rs','src/mss/mss.rs','src/ntru.rs'],[('TritSliceT/TritSliceMutT','src/trits/slice.rs'),('TritsT::slice/slice_mut','src/trits/trits.rs'),('PrivateKeyT::public_key','src/mss/mss.rs')],observe=['slice','slice_mut','as_const','advance','public_key'])
prop('C29','Results depend on the arguments only',
 'Every operation computes its result from its arguments: the same keys, nonces and messages always give the same trits. No clock, environment, address, hash-map order or state left over from an earlier call takes part, and what debug assertions evaluate changes nothing, so that a release build computes the same as the tested build.',
 ['inputs','histories','environments'],'all operations, all call histories, debug and release builds',
 'Tests run in one process, in one build mode, in one environment; a dependence on any of those shows up only elsewhere.',
 ['src'],[('all functions','src/**/*.rs')],observe=['wrap','unwrap','gen','sign','squeeze'])
prop('C30','Both Merkle tree implementations produce the same paths',
 'For every height and every leaf, the traversal-based tree yields the same root and authentication paths as the complete tree, also after store and load.',
 ['inputs','histories'],'all heights up to the maximum and all leaves',
 'Tests compare up to height 5.',
 ['src/mss/mttraversal.rs','src/mss/mtcomplete.rs'],[('TraversableMerkleTree impls','src/mss/*.rs')],observe=['apath','root'])
prop('C31','NTRU decapsulation recovers every encapsulated key',
 'For every key pair, nonce and session key, decapsulating an encapsulated key succeeds and returns that key.',
 ['inputs'],'all keys and randomness','Tests use a few keys.',['src/ntru.rs','src/poly.rs'],[('encr/decr','src/ntru.rs')],observe=['decr'])
prop('C32','The number-theoretic transform is exact',
 'Forward and inverse transforms are mutually inverse on all polynomials and turn pointwise multiplication into multiplication modulo x^N+1.',
 ['inputs'],'all polynomials','Tests use random polynomials.',['src/poly.rs'],[('ntt/intt','src/poly.rs')],observe=['ntt','intt'])
prop('C33','The permutation is Troika',
 'The permutation equals the published Troika permutation on every state.',
 ['inputs'],'all states','Three published vectors.',['src/troika.rs'],[('permutation','src/troika.rs')],observe=['permutation'])
prop('C34','A restored sponge continues exactly like the original',
 'After saving a committed state, every later sequence of operations gives the same outputs on the restored sponge as on the original.',
 ['histories'],'all operation sequences','One sequence is tested.',['src/spongos.rs'],[('to_inner/from_inner','src/spongos.rs')],observe=['from_inner'])
prop('C35','A clone is a complete copy that shares nothing',
 'Cloning (or clone_from) any key, tree, sponge, generator, identifier, integer field or trit container yields a value in which every part equals the corresponding part of the original (position in the block, key number, every node, cached polynomial included), leaves the original unchanged, and shares no storage with it: whatever is done to one does not show in the other.',
 ['inputs','histories'],'all values of all clonable types',
 'Tests clone freshly made or small values; a part forgotten by a hand-written clone shows only after further operations from a particular state.',
 ['src/spongos.rs','src/prng.rs','src/ntru.rs','src/mss','src/trits/trits.rs','src/troika.rs','src/pb3','src/app/core/mod.rs'],[('Clone impls','src/**/*.rs')],observe=['clone','clone_from','fork'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P),'properties')
