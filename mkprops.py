#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("C01","Encrypting and then decrypting returns the original message",
 "Any complex slot vector whose scaled magnitude fits below the ciphertext modulus, encrypted under any party's public key at any level and through any of the encryption entry points, decrypts with that party's secret key to the same vector up to an error that depends only on the parameters (ring degree, scale, error width). A message with fewer entries than the slot count decrypts padded with zeros, and the ciphertext carries exactly the encrypting party (plus any requested extra members), the requested level and the encoding scale. This holds for every later message when encryptors and decryptors are reused, whatever they processed before and at whatever levels.",
 ["inputs","histories"],"all parameter sets (degree, sparse/full slots, modulus chain, special moduli, scale, error width), parties, messages, levels, and all orders of encryptions/decryptions on one encryptor/decryptor",
 "the tests encrypt one random small message per party at the top level with fresh objects; level-dependent buffers, large magnitudes, sparse packing and reuse histories are never sampled",
 ["mkckks/encryptor.go","mkckks/decryptor.go","mkrlwe/encryptor.go","mkrlwe/decryptor.go"],
 [("EncryptMsg/EncryptMsgNew/EncryptMsgNewExpand/EncodeMsgNew/EncryptPtxt","mkckks/encryptor.go"),("Decrypt","mkckks/decryptor.go"),("Encrypt","mkrlwe/encryptor.go")])
p("C02","Distributed decryption needs every member's key and is order independent",
 "A ciphertext involving several parties decrypts to the joint message exactly when every involved party contributes its key: jointly in one call, or one party after another in any order, or any mixture of the two, all giving the same result. After each contribution the ciphertext involves exactly the remaining parties; secret keys of uninvolved parties in the key set change nothing. Joint decryption with a missing key is refused, and it never modifies the ciphertext it is given.",
 ["inputs","histories"],"all subsets of parties, all orders of partial decryption, all splits into partial and joint, all levels, all incomplete key sets",
 "tests decrypt with the complete key set in a single call; orders, mixtures and missing keys are an exponential family",
 ["mkrlwe/decryptor.go","mkckks/decryptor.go"],[("PartialDecrypt","mkrlwe/decryptor.go"),("Decrypt","mkrlwe/decryptor.go"),("PartialDecrypt/Decrypt","mkckks/decryptor.go")])
p("C03","Homomorphic addition and subtraction act slot-wise across any member sets",
 "Adding or subtracting two ciphertexts decrypts to the slot-wise sum or difference for any overlapping, nested or disjoint sets of involved parties, including a ciphertext combined with itself. With equal scales no noise is added at all (the decryption phases add exactly modulo the modulus); when the larger scale is (nearly) an integer multiple of the smaller one the smaller operand is brought to it. The result has the union of the members, the lower of the two levels and the larger of the two scales, and both operands are left untouched.",
 ["inputs"],"all pairs of ciphertexts: member sets, levels, scales with integer ratio, magnitudes, aliasing",
 "tests use equal levels and scales and one or two fixed member sets",
 ["mkckks/evaluator.go"],[("AddNew/SubNew/evaluateInPlace","mkckks/evaluator.go")])
p("C04","Homomorphic multiplication with relinearisation is slot-wise multiplication",
 "Multiplying any two ciphertexts (any member sets, any two levels, a ciphertext with itself) with the parties' relinearisation keys decrypts to the slot-wise product up to a noise bound depending only on parameters, and the result involves exactly the union of the members and no degree-two part. The result has the product scale divided by the moduli removed while the scale stays at least half the default scale, and its level is the lower operand level minus the number of moduli removed. It does not depend on earlier operations of the same evaluator or key set, on additional keys present in the set, or on order of the operands, and it leaves the operands untouched.",
 ["inputs","histories"],"all parameter sets (including more special moduli than two), operand pairs, level pairs, member sets, and evaluator histories",
 "tests multiply fresh top-level ciphertexts under three shipped parameter sets; digit counts per level, level mismatches and pool reuse are not sampled",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/keygen.go"],
 [("MulRelinNew","mkckks/evaluator.go"),("MulAndRelin","mkrlwe/keyswitch.go"),("MulAndRelinHoisted","mkrlwe/keyswitch_hoisted.go"),("GenRelinearizationKey","mkrlwe/keygen.go")])
p("C05","Rotation by any integer amount cyclically shifts the slots",
 "Rotating a ciphertext by any integer k, positive, negative or larger than the slot count, decrypts to the message cyclically shifted left by k, at every level, for every member set and for sparse packing, with unchanged scale, level and members. It works with only the power-of-two keys that every party has by default, and also through a dedicated key when the index was registered as common reference string, even after the evaluator was created. A party lacking the required key makes the operation fail rather than return a wrong result, and the operand is untouched.",
 ["inputs"],"all rotation amounts, levels, member sets, parameter sets, registered index sets",
 "tests rotate by random amounts only for full slots at the top level with both keys of one shipped set",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keygen.go","mkrlwe/params.go"],
 [("RotateNew/rotate","mkckks/evaluator.go"),("Rotate","mkrlwe/keyswitch.go"),("GenRotationKey/GenDefaultRotationKeys","mkrlwe/keygen.go"),("AddCRS","mkrlwe/params.go")])
p("C06","Homomorphic conjugation conjugates every slot at every level",
 "Conjugating a ciphertext with the parties' conjugation keys decrypts to the complex conjugate of every slot for every level and member set, with unchanged scale, level and members and the operand untouched. Conjugating twice gives back the original message.",
 ["inputs"],"all ciphertexts (levels, members, packings), parameter sets",
 "tests conjugate top-level ciphertexts only",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keygen.go"],
 [("ConjugateNew","mkckks/evaluator.go"),("Conjugate","mkrlwe/keyswitch.go"),("GenConjugationKey","mkrlwe/keygen.go")])
p("C07","Hoisted multiplication and rotation agree with the plain operations",
 "Using a precomputed hoisted form of a ciphertext for multiplication or rotation yields the same message, members, level and scale as the non-hoisted operation, for either, both or neither operand hoisted. One hoisted form can be reused for any number of operations and partners at lower levels without being modified. A hoisted rotation by an index with no registered common reference string is refused instead of returning a wrong result.",
 ["inputs","histories"],"all operand pairs, levels, subsets of hoisted operands, rotation amounts, reuse histories of a hoisted form",
 "tests hoist once per ciphertext and use it once",
 ["mkckks/evaluator.go","mkrlwe/keyswitch_hoisted.go"],
 [("HoistedForm/MulRelinHoistedNew/RotateHoistedNew","mkckks/evaluator.go"),("ExternalProductHoisted/MulAndRelinHoisted/RotateHoisted","mkrlwe/keyswitch_hoisted.go")])
p("C08","Multiplication by plaintexts and constants is slot-wise and exact in scale",
 "Multiplying a ciphertext by an encoded message decrypts to the slot-wise product, rescaled as a ciphertext product would be, and leaves the encoded message reusable. Multiplying by an integer, real or complex constant multiplies every slot by it, in place or into another ciphertext of equal or lower level; the scale is unchanged for integral constants and grows by the last modulus otherwise.",
 ["inputs"],"all ciphertexts, encoded messages, constants of every accepted type and sign, levels and member sets",
 "tests multiply by one random plaintext at the top level and never by non-integer or complex constants",
 ["mkckks/evaluator.go","mkckks/utils.go"],
 [("MulPtxtNew/MultByConst/getConstAndScale","mkckks/evaluator.go"),("scaleUpExact","mkckks/utils.go")])
p("C09","Rescaling and level dropping preserve the message",
 "Rescaling divides message and scale together, removing moduli while the scale stays at least half the requested minimum, never going below level zero, so the decrypted message is unchanged up to rounding; when nothing needs to be removed the result is an exact copy. Dropping levels keeps message and scale and lowers the level by exactly the requested amount. Variants that return a new ciphertext leave the operand untouched, and a non-positive minimum scale, a zero scale or a ciphertext at level zero is reported as an error.",
 ["inputs"],"all ciphertexts, scales, minimum scales, levels, numbers of dropped levels",
 "tests only rescale implicitly by one modulus inside multiplications",
 ["mkckks/evaluator.go"],[("Rescale/RescaleNew/DropLevel/DropLevelNew","mkckks/evaluator.go")])
p("C10","Arbitrary circuits evaluate correctly and operations never interfere",
 "For any sequence of encryptions, additions, multiplications, rotations, conjugations, plaintext and constant multiplications, rescalings and level drops on one shared evaluator, every live ciphertext decrypts to the value of the corresponding plaintext computation. No operation that returns a new ciphertext changes any other ciphertext or any key, copies are independent of their originals, and results do not depend on what was computed before.",
 ["histories"],"all operation sequences over a growing pool of ciphertexts and parties",
 "unit tests apply each operation once to fresh inputs; buffer-sharing and stale-state faults need histories",
 ["mkckks/evaluator.go","mkckks/elements.go","mkrlwe/elements.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go"],
 [("Evaluator pools","mkckks/evaluator.go"),("KeySwitcher pools","mkrlwe/keyswitch.go"),("CopyNew","mkrlwe/elements.go")])
p("C11","Parties may join at any time; ciphertext membership is tracked exactly",
 "Parties that generate their keys after computation has started can be combined with existing ciphertexts without regenerating anything, and a ciphertext involves exactly the parties whose data entered it or that it was explicitly extended to. Extending a ciphertext to more parties does not change its message, and afterwards those parties' keys are needed like any other member's. The reserved identifier of the constant component is refused as a party identifier; every other string, including the empty one, is usable.",
 ["histories","inputs"],"all histories of joins, extensions, copies and operations; all identifier strings",
 "tests create all parties up front with regular names",
 ["mkrlwe/elements.go","mkrlwe/idset.go","mkckks/encryptor.go","mkckks/evaluator.go","mkrlwe/keys.go"],
 [("IDSet/PadCiphertext/CopyNew/Copy","mkrlwe/elements.go"),("EncryptMsgNewExpand","mkckks/encryptor.go"),("Add","mkrlwe/idset.go")])
p("C12","Every generated public and evaluation key is a well-formed noisy encryption",
 "Public, relinearisation, rotation, conjugation and switching keys satisfy their defining equation with respect to the party's secret and the common reference string for every digit, with an error that is consistent modulo every ciphertext and special modulus, bounded by six standard deviations, of the configured width, and freshly drawn for each digit and each key. Keys carry the identifier (and rotation amount) of what they were generated for, and generating a key changes neither the secret nor the common reference string.",
 ["inputs","histories"],"all parameter sets, parties, rotation indices, and sequences of key generations on one generator",
 "tests bound the error of keys for three parameter sets loosely or not at all, and never check independence of errors",
 ["mkrlwe/keygen.go","mkrlwe/params.go"],
 [("GenPublicKey/GenRelinearizationKey/GenRotationKey/GenConjugationKey/GenSwitchingKey","mkrlwe/keygen.go"),("NewParameters","mkrlwe/params.go")])
p("C13","Secret keys follow the requested distribution and are fresh",
 "A generated secret has coefficients in {-1,0,1} with the requested probability of zero and balanced signs, exactly the requested number of non-zero coefficients for sparse secrets, or the error distribution for gaussian secrets. The same integer secret is represented modulo every ciphertext and special modulus, and a key pair's public key belongs to its secret key. Distinct calls give independent secrets.",
 ["inputs","histories"],"all parameter sets, probabilities, weights, identifiers, call sequences",
 "tests only check that decryption works with the default distribution",
 ["mkrlwe/keygen.go","mkrlwe/keys.go"],
 [("GenSecretKey/GenSecretKeyWithDistrib/GenSecretKeySparse/GenSecretKeyGaussian/GenKeyPair/GenKeyPairSparse","mkrlwe/keygen.go")])
p("C14","Encryption is freshly randomised and hides the message without the key",
 "Every encryption masks the message with a fresh ternary polynomial and two fresh, independent errors of the configured width, at every level, so that no two encryptions share randomness and the mask is the same one in both components. Without a secret key, with another party's key, or with a strict subset of the members' keys, the decryption phase is spread over the whole modulus. Common reference strings are uniform, pairwise different and different between independently created parameters and registered indices.",
 ["inputs","histories"],"all messages, levels, sequences of encryptions, wrong or incomplete key sets, parameter sets",
 "a scheme with missing noise or reused randomness passes every functional test",
 ["mkrlwe/encryptor.go","mkrlwe/params.go"],
 [("Encrypt","mkrlwe/encryptor.go"),("NewParameters/AddCRS","mkrlwe/params.go")])
p("C15","Gadget decomposition and external product compute scaled products",
 "At every level, for every admissible number of special moduli and digit grouping, the external product of a polynomial with a switching key of a secret is the product of polynomial and secret up to a small bounded error, whether the polynomial is given in coefficient or evaluation form. Decomposing first and multiplying afterwards gives the same result as multiplying directly, and the digits recombine to the polynomial. Inputs are not modified.",
 ["inputs"],"all levels, parameter sets, group sizes, polynomials including extreme coefficients, both domains",
 "tests exercise one parameter family at the top level",
 ["mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/basis_extension.go"],
 [("Decompose/ExternalProduct","mkrlwe/keyswitch.go"),("ExternalProductHoisted","mkrlwe/keyswitch_hoisted.go"),("DecomposeAndSplit","mkrlwe/basis_extension.go")])
p("C16","Basis extension and modulus reduction agree with exact integer arithmetic",
 "Extending residues from one modulus basis to another yields the residues of the same integer for every pair of levels (except, within floating-point precision of a rounding boundary, a representative shifted by one multiple of the source modulus). Dividing by the product of the special moduli, or of the ciphertext moduli, gives the exact quotient up to rounding for every pair of levels, in coefficient or evaluation form. Copies of an extender behave identically and independently.",
 ["inputs"],"all level pairs, modulus chains and residue vectors including boundary values",
 "tests never call the basis extender directly and only reach full special-modulus levels",
 ["mkrlwe/basis_extension.go"],
 [("ModUpQtoP/ModUpPtoQ/ModDownQPtoQ/ModDownQPtoQNTT/ModDownQPtoP/ShallowCopy","mkrlwe/basis_extension.go")])
p("C17","Generic encryption and decryption respect representation flags and levels",
 "For every combination of coefficient or evaluation form of the plaintext, the ciphertext and the decrypted plaintext, and for every combination of their levels, generic decryption after generic encryption returns the plaintext plus a small bounded error, in the form the output plaintext announces and at the lower of the levels involved. Writing into a previously used ciphertext leaves no trace of its old contents, and the plaintext and public key are not modified.",
 ["inputs","histories"],"all form and level combinations, parties, plaintexts, reuse of output objects",
 "the tests use one combination (coefficient form everywhere, top level)",
 ["mkrlwe/encryptor.go","mkrlwe/decryptor.go","mkrlwe/elements.go"],
 [("Encrypt","mkrlwe/encryptor.go"),("Decrypt/PartialDecrypt","mkrlwe/decryptor.go"),("NewCiphertextNTT","mkrlwe/elements.go")])
p("C18","Identifier sets and key sets behave as mathematical sets and maps",
 "Identifier sets obey set algebra (membership, size, union, intersection, removal, independent copies) for any sequence of operations, and operands of union and intersection are unchanged. Key sets return, for each identifier (and rotation amount), exactly the key last added and not deleted since, and refuse a lookup of an absent key. Copies of keys are deep.",
 ["histories"],"all sequences of insertions, deletions, lookups, set operations and copies over all identifiers",
 "no test covers these containers beyond a single union",
 ["mkrlwe/idset.go","mkrlwe/keys.go"],[("IDSet","mkrlwe/idset.go"),("SecretKeySet/PublicKeySet/RotationKeySet/RelinearizationKeySet/ConjugationKeySet","mkrlwe/keys.go")])
p("C19","Encrypted logistic-regression training equals plaintext training",
 "Each of the four training programs, run on any well-formed data set and any number of data owners, prints model weights equal (up to approximation noise) to those of accelerated gradient descent on the same, identically preprocessed data with the programs' cubic sigmoid, and reports the number of correctly classified rows that these weights give. Row and column summation on packed ciphertexts put the sum of each row or column of the packed matrix in every one of its entries. Data files are parsed row by row in order, with the label mapping the programs define.",
 ["inputs"],"all data sets, numbers of companies, batch contents; all packed matrices for the summation helpers",
 "the repository has no test for the programs at all and a full run takes minutes on one fixed data file",
 ["lr/lr.go","lr/lr_toy.go","lr/lr_minibatch.go","lr/lr_minibatch_toy.go"],
 [("main","lr/lr.go"),("main","lr/lr_toy.go"),("main","lr/lr_minibatch.go"),("main","lr/lr_minibatch_toy.go"),("SumRowVec/SumColVec/readData","lr/lr.go")])
p("C20","Numeric helpers match their definitions for every input",
 "The in-place bit-reversal helpers permute the first N entries of a slice by reversing index bits for every power of two N and leave the rest alone, and applying them twice restores the slice. The standard-deviation helper returns the population standard deviation times the scale, and the switching-key rescaling helper returns the Montgomery form of the inverse of the special-modulus product modulo each ciphertext modulus.",
 ["inputs"],"all slices and lengths, all modulus chains",
 "the helpers are not tested",
 ["mkckks/utils.go"],[("SliceBitReverseInPlace*/StandardDeviation/GenSwitchkeysRescalingParams","mkckks/utils.go")])
p("C21","Separate objects can be used at the same time on shared keys and ciphertexts",
 "Encryptors, decryptors, evaluators and key generators share no hidden state: any number of them, over the same or different parameter sets, used at the same time from different goroutines with one user each, give exactly the results they give one after another. Parameters, individual keys, secret, rotation and conjugation key sets, ciphertexts, hoisted forms and encoded messages may be shared by all of them and are only read (a relinearisation key set carries working memory and belongs to one user). Objects used at the same time never draw the same randomness.",
 ["schedules","histories"],"all sets of concurrent users, sequences of operations per user, interleavings, parameter sets",
 "the tests are sequential and use one object of each kind",
 ["mkckks/evaluator.go","mkckks/encryptor.go","mkckks/decryptor.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/basis_extension.go","mkrlwe/keygen.go"],
 [("NewEvaluator","mkckks/evaluator.go"),("NewKeySwitcher","mkrlwe/keyswitch.go"),("NewEncryptor","mkrlwe/encryptor.go"),("NewKeyGenerator","mkrlwe/keygen.go"),("NewFastBasisExtender/NewDecomposer","mkrlwe/basis_extension.go")])
p("C22","A refused call has no effect, and everything keeps working after it",
 "When a call is refused (a rotation, conjugation, product or decryption lacking a member's key, possibly half way through; a hoisted rotation or key generation without reference string; rescaling or level dropping with impossible arguments; a contribution by a non-member; an over-long message; a lookup of an absent key; the reserved identifier), every ciphertext, hoisted form, key and key set given to it is afterwards exactly what it was. The same encryptor, decryptor, evaluator and key generator go on giving correct results, and the same call succeeds, with the right result, once what it lacked has been supplied.",
 ["histories","fault_sequences"],"all sequences of accepted and refused calls on shared objects, all points at which a key is missing, member sets, levels",
 "the tests never let a call be refused and go on",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/decryptor.go","mkrlwe/keys.go","mkrlwe/keygen.go"],
 [("RotateNew/rotate","mkckks/evaluator.go"),("Rescale","mkckks/evaluator.go"),("MulAndRelinHoisted","mkrlwe/keyswitch_hoisted.go"),("Rotate/Conjugate","mkrlwe/keyswitch.go"),("PartialDecrypt/Decrypt","mkrlwe/decryptor.go")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
