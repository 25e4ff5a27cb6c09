"""One entry per property: statement, anchors, and the check that decides it.
tools/gen_meta.py writes properties.jsonl and MANIFEST.json from it."""
LEVEL = "other"
SPECD = "concrete-core/src/specification/engines"

ALL = [
 dict(id="C01", mod="engines", fn="c01",
  title="Checked operations refuse every operand combination documented as an error",
  statement="A checked engine operation performs its work only if none of the error conditions documented for it (dimension, count, polynomial-size, decomposition, index, range, size and precision conditions) holds for the operands it was given. Each condition is evaluated on the quantities its documentation names, for every engine, precision and owned or view variant.",
  over=["inputs", "configurations"], text="all operand dimensions and parameters, all engines, precisions and container variants",
  why="The tests call checked operations with valid operands almost exclusively; the refusal paths are never sampled, let alone for every combination of mismatched dimensions.",
  files=[SPECD, "concrete-core/src/backends"],
  mech=[("generic precondition checks of the error types", SPECD + "/*.rs: perform_generic_checks"), ("engine implementations calling them", "concrete-core/src/backends/*/implementation/engines")],
  tech="path-sensitive dataflow over MIR with calls spliced in; path conditions compared, as formulas, with the documented condition of every error variant",
  note="Every path of every checked engine method and public check function is enumerated (no loop occurs in them); a path that acts must contradict every documented condition. Conditions are compared over unbounded integers. CUDA device-memory checks are set aside. Trusts the MIR facts driver, the analyser and the reviewed table sa/spec/checks.json."),
 dict(id="C02", mod="engines", fn="c02",
  title="An error from a checked operation names a condition that really holds",
  statement="When a checked engine operation reports an error, the documented condition of that very error holds for the operands it was given; valid operands are never refused and one violated condition is never reported under the name of another. Every documented error of a check can actually be reported.",
  over=["inputs", "configurations"], text="all operand dimensions and parameters, all engines, precisions and container variants",
  why="Error paths are not exercised by the tests; which error is returned for which mismatch is quantified over all operand combinations.",
  files=[SPECD, "concrete-core/src/backends"],
  mech=[("generic precondition checks of the error types", SPECD + "/*.rs: perform_generic_checks"), ("engine specific checks", "concrete-core/src/backends/fft/implementation/engines/fft_engine/mod.rs: perform_fft_checks")],
  tech="path-sensitive dataflow over MIR; every error-returning path must imply the documented condition of the error it returns",
  note="As C01, in the other direction: three-valued evaluation of the documented condition under the literals of each error path must give true."),
 dict(id="C03", mod="engines", fn="c03",
  title="A checked operation is its unchecked operation on the same operands",
  statement="When its checks pass, a checked engine operation performs exactly the unchecked operation of the same name on the same operands, each in its own role, and hands back that result unchanged; when a check fails it has had no effect on any operand or on the engine.",
  over=["inputs", "configurations"], text="all operands, all engines, precisions and container variants",
  why="Tests compare checked results statistically on valid operands only; an effect on a refused call, or an exchange of operands that agrees on symmetric test parameters, is not sampled.",
  files=["concrete-core/src/backends"],
  mech=[("checked methods forwarding to their unchecked twin", "concrete-core/src/backends/*/implementation/engines")],
  tech="effect and value-provenance analysis over MIR of every checked engine method",
  note="Per method: no effect on error paths; exactly one effect, the twin call with the method's own parameters, on success paths. Serialization engines are judged by C08/C09 instead."),
 dict(id="C05", mod="ffi", fn="c05",
  title="No panic crosses the C API and its return code tells the truth",
  statement="Every C entry point does all its work inside a barrier that catches panics, so that no Rust panic reaches the C caller. It returns zero exactly when the operation completed, and non-zero whenever a pointer was refused, an operation reported an error or anything panicked.",
  over=["inputs", "fault_sequences"], text="all arguments and all failures of the operations called",
  why="The C test programs call the entry points with valid arguments; failure returns of 198 entry points are not sampled.",
  files=["concrete-core-ffi/src"],
  mech=[("panic barrier", "concrete-core-ffi/src/utils.rs: catch_panic"), ("entry points", "concrete-core-ffi/src/**/*.rs: extern C functions")],
  tech="path enumeration over MIR of every extern C function: effects outside the unwind barrier, returned code against barrier outcome, and Result discriminants tested on every success path",
  note="All extern C functions of the C API crate found in the compiled crate are judged, helpers spliced in. Panics that abort (allocation failure, double panic) are out of scope."),
 dict(id="C06", mod="ffi", fn="c06",
  title="Checked C entry points validate every pointer before using it",
  statement="A checked C entry point uses a pointer received from its caller, directly or inside a structure it was given, only after testing that it is not null and, unless it points to bytes, that it is aligned for what it points to. It performs engine operations only through their checked form.",
  over=["inputs"], text="all pointer values, on every path of every checked entry point",
  why="Null and misaligned pointers are not passed by the C test programs, and one missing test shows only for that argument.",
  files=["concrete-core-ffi/src"],
  mech=[("pointer validation", "concrete-core-ffi/src/utils.rs: check_ptr_is_non_null_and_aligned, get_mut_checked, get_ref_checked"), ("byte views", "concrete-core-ffi/src/buffer.rs")],
  tech="typestate of raw pointers over MIR paths: each dereference, slice or box construction and hand-over of a caller pointer must be dominated by its null and alignment tests",
  note="Uses are recorded at every MIR dereference of a raw pointer and every call taking one, with helpers spliced in; checked means the name lacks `unchecked`."),
 dict(id="C07", mod="ffi", fn="c07",
  title="C entry points forward their arguments by role and hand over ownership safely",
  statement="Each C entry point performs exactly the engine operation it is named after, with each argument in its documented role, and its checked and unchecked forms differ only in the checks. A result pointer is nulled before anything can fail and set only on success; an argument that is consumed is nulled before the consuming operation can fail, so that nothing is freed twice.",
  over=["inputs", "fault_sequences"], text="all arguments, success and failure paths of every entry point",
  why="The C tests call a few entry points with symmetric parameters; exchanged arguments, stale result pointers and double frees on failure paths are not sampled.",
  files=["concrete-core-ffi/src"],
  mech=[("entry points", "concrete-core-ffi/src/backends/*/engines/*.rs"), ("byte buffers handed to C", "concrete-core-ffi/src/buffer.rs")],
  tech="value-provenance summaries over MIR of every entry point, compared with the reviewed table sa/spec/ffi.json and between checked/unchecked twins; ordering rule on writes through result and consumed pointers",
  note="Summaries are sets of effects with arguments traced to parameter positions, independent of names, helpers and statement order."),
 dict(id="C08", mod="serial", fn="c08",
  title="Deserializing a serialized entity gives back that entity",
  statement="For every serializable entity, in owned and view form, the serialization engine writes the whole content of the entity it was given, and the deserialization engine of the same entity reads exactly the layout that was written (same fields, in the same order, with the same widths, each put back where it came from, including the compression seed and Fourier polynomials) and returns it as that entity. The unchecked forms are the checked forms, unwrapped.",
  over=["inputs"], text="all entities of all types, dimensions and contents",
  why="Round trips are tested for a few sizes of some entities; a field dropped, swapped or read back elsewhere can be invisible for the values sampled, and views and Fourier entities are hardly sampled.",
  files=["concrete-core/src/backends/default/implementation/engines/default_serialization_engine", "concrete-core/src/backends/fft/implementation/engines/fft_serialization_engine"],
  mech=[("serialization engines", "concrete-core/src/backends/*/implementation/engines/*_serialization_engine"), ("hand written Fourier list format", "concrete-core/src/backends/fft/private/math/fft/mod.rs: impl Serialize/Deserialize for FourierPolynomialList"), ("seed format", "concrete-core/src/commons/math/random/generator.rs: SeedSerdeDef")],
  tech="wire layouts derived from the MIR of the serde implementations (derived and hand written), compared between writer and reader as trees; value provenance of what is written and returned",
  note="Layouts of std and external crates' types (Vec, integers, aligned boxes) are taken as known, bincode is trusted to write what serde hands it."),
 dict(id="C09", mod="serial", fn="c09",
  title="Deserialization refuses unsupported or malformed bytes with an error",
  statement="The checked deserialization of any byte string either returns an entity or an error: bytes that do not decode give Deserialization, any version tag but the current one gives UnsupportedVersion, and no input makes the reader panic, plan a transform of an invalid size, or reserve memory for an overflowing count.",
  over=["inputs"], text="all byte strings, for every entity",
  why="No test feeds malformed, truncated or future-version bytes.",
  files=["concrete-core/src/backends/default/implementation", "concrete-core/src/backends/fft"],
  mech=[("version enums", "concrete-core/src/backends/*/implementation/entities/*.rs: enum *Version"), ("deserialization engines", "concrete-core/src/backends/*/implementation/engines/*_serialization_engine")],
  tech="path enumeration over MIR of the deserialization engines; version tag maps derived from the visitors; panic reachability over the call graph of all readers, with guard dominance for the size-dependent calls",
  note="Allocation failure for well formed but huge counts is out of scope. External crates (bincode, serde, concrete-fft) are trusted not to panic on the arguments the guards allow."),
 dict(id="C12", mod="csprng", fn="c12",
  title="Generators walk and fork the key stream without skipping or sharing bytes",
  statement="A generator outputs the bytes of its own range of the key stream one after the other, each once and in order, and returns None exactly when the range is used up. A fork that succeeds hands each child the next n_bytes positions, children consecutive and disjoint, moves the parent just past the last child and never beyond its bound; a fork of zero children, of zero bytes or of more bytes than remain (including products that overflow) is refused with the matching error and changes nothing. Sequential and parallel forks cut the stream identically, in every generator implementation. Index arithmetic (increase, decrease, distance, ordering) agrees with the positions it stands for for all indices and shifts.",
  over=["inputs", "histories"], text="all table indices, shifts, child counts and sizes, all interleavings of next and fork, all compiled implementations",
  why="Overlap between two streams silently destroys the security of every ciphertext built on them; the tests sample small forks away from the bounds.",
  files=["concrete-csprng/src/generators"],
  mech=[("index arithmetic", "concrete-csprng/src/generators/aes_ctr/index.rs"), ("state and buffer", "concrete-csprng/src/generators/aes_ctr/states.rs"), ("generators and forks", "concrete-csprng/src/generators/aes_ctr/generic.rs, parallel.rs and implem/*/{generator,parallel}.rs")],
  tech="abstract interpretation over MIR in a domain of key stream positions (linear polynomials, byte index and shift residues enumerated modulo 16)",
  note="Inductive argument over single operations: each operation is judged from an arbitrary state. Positions are unbounded integers: wrapping at the end of the 2^132 byte stream is not judged beyond saturation of distance. The aarch64 implementation is not compiled here and not judged."),
 dict(id="C13", mod="csprng", fn="c13",
  title="All block cipher implementations produce the same stream from the same seed",
  statement="Every generator implementation, started from a seed, uses the seed as its AES key in native byte order and starts at the first position. Block i of a batch is the encryption of (batch counter + i) under that key, in native byte order, computed like every other block and from no other block's intermediate value, and generating a batch leaves the cipher unchanged.",
  over=["inputs", "configurations"], text="all seeds and counters, all eight blocks of a batch, every compiled implementation",
  why="The cipher tests encrypt eight equal blocks, so an exchanged or repeated counter is not visible to them; accelerated and software generators must interoperate for seeded entities.",
  files=["concrete-csprng/src/generators/implem"],
  mech=[("software cipher", "concrete-csprng/src/generators/implem/soft/block_cipher.rs"), ("AES-NI cipher", "concrete-csprng/src/generators/implem/aesni/block_cipher.rs")],
  tech="provenance signatures of every output block over MIR (loop-carried values by their entry and update), compared across blocks and with the counter",
  note="The AES rounds and key schedule themselves are settled by the FIPS vectors in the unit tests and not re-derived. A batch built in a shape other than an array of blocks is reported as undecided in the evidence, not as a violation. aarch64 is not compiled here."),
 dict(id="C14", mod="cpu", fn="c14",
  title="Code for CPU extensions runs only where the extension was detected",
  statement="No safe function reaches an intrinsic or a target-feature function (AES-NI, RDSEED, AVX, AVX2, FMA) unless every feature it needs has been detected on that path, is witnessed by a value whose construction tests it, or is covered by the type's is_available() test.",
  over=["configurations"], text="all CPUs, all call paths to feature-gated code",
  why="The test machine has all the features; a missing or weaker detection shows only as an illegal instruction on another machine.",
  files=["concrete-csprng/src", "concrete-core/src/backends/fft"],
  mech=[("AES-NI construction", "concrete-csprng/src/generators/implem/aesni/block_cipher.rs: AesniBlockCipher::new"), ("FFT dispatch", "concrete-core/src/backends/fft/private/math/fft/x86.rs"), ("external product dispatch", "concrete-core/src/backends/fft/private/crypto/ggsw.rs: update_with_fmadd"), ("RDSEED", "concrete-csprng/src/seeders/implem/rdseed.rs")],
  tech="forward must-analysis of detected CPU features over MIR, needs propagated through the call graph, feature-witness types",
  note="Analysed with no feature assumed beyond SSE2. AVX-512 code (behind a nightly-only cargo feature that no longer compiles) is not judged."),
 dict(id="C23", mod="csprng", fn="c23",
  title="Every seed carries fresh entropy from all sources of its seeder",
  statement="The RDSEED seeder returns a seed only after the instruction reported success for each of its two independent halves, both of which enter the seed in full. The Unix seeder's seed is the xor of the user's secret, a counter advanced by one for each seed, and sixteen bytes fully read from /dev/random; a failed or short read never yields a seed.",
  over=["inputs", "fault_sequences", "histories"], text="all outcomes of the entropy sources, all sequences of seeds",
  why="Failures of the hardware or device and predictable device output cannot be produced in the tests, which only compare a few seeds for inequality.",
  files=["concrete-csprng/src/seeders"],
  mech=[("RDSEED loop", "concrete-csprng/src/seeders/implem/rdseed.rs: rdseed_random_m128"), ("Unix seeder", "concrete-csprng/src/seeders/implem/unix.rs: UnixSeeder::seed")],
  tech="value provenance and path conditions over MIR of every seeder implementation",
  note="The macOS seeder is not compiled here and not judged."),
 dict(id="C18", mod="fft", fn="c18",
  title="FFT bootstraps, external products and wop-PBS follow their documented sequence",
  statement="In the FFT backend every layer does what it documents, for all parameters: the external product decomposes the input with the key's own parameters, multiplies level by level and row by row, clears its Fourier accumulator exactly once and adds the result to the output; the cmux, the blind rotations, the programmable bootstrap, bit extraction, circuit bootstrapping and vertical packing apply their steps to the right operands, in the right order, with the right shifts and constants; and each engine operation hands its operands to the layer in their roles, on an output whose earlier content does not enter the result.",
  over=["inputs", "configurations"], text="all keys, ciphertexts, look-up tables, dimensions, decomposition parameters, counts and precisions",
  why="The test module of the FFT backend is not part of the running tests, and statistical tests with one parameter set cannot see a dropped level, a wrong rotation for some index or a stale accumulator.",
  files=["concrete-core/src/backends/fft"],
  mech=[("external product and cmux", "concrete-core/src/backends/fft/private/crypto/ggsw.rs"), ("bootstrap", "concrete-core/src/backends/fft/private/crypto/bootstrap.rs"), ("wop-PBS", "concrete-core/src/backends/fft/private/crypto/wop_pbs/mod.rs"), ("engines", "concrete-core/src/backends/fft/implementation/engines/{fft_engine,fft_parallel_engine}")],
  tech="symbolic region formulas derived from MIR layer by layer (loops as one generic iteration, loop-carried flags by first and next value), canonicalised and compared with reviewed reference formulas",
  note="Each layer is judged with the layers below it opaque. The transforms' numerics, SIMD kernels and the multiplexer tree (cmux_tree_memory_optimized, whose loop carries a pair of views) are not judged; a layer written through constructs outside the vocabulary of the formulas is counted as undecided in the evidence."),
 dict(id="C21", mod="effects", fn="c21",
  title="Operations have no effects beyond their operands and results",
  statement="No function of the libraries prints, ends or starts a process, reads or changes the environment, the file system, the network or the clock, changes the handling of panics or draws randomness from outside the engines' generators, except the seeders (entropy) and the unwind barriers of the bindings; no state is shared between calls other than the cache of FFT plans and the per-thread engine of the parallel FFT backend.",
  over=["inputs", "histories", "configurations"], text="every call in every body of concrete-core, concrete-csprng, concrete-cpu, concrete-npe and the C and JavaScript bindings, on every path",
  why="A print on a rare path, a clock or a generator of the process used as a source, or a cache shared between engines does not change the result of the calls a test makes.",
  files=["concrete-core/src", "concrete-csprng/src", "concrete-core-ffi/src", "concrete-core-wasm/src", "concrete-cpu/src", "concrete-npe/src"],
  mech=[("seeders", "concrete-csprng/src/seeders"), ("FFT plan cache", "concrete-core/src/backends/fft/private/math/fft/mod.rs: Fft::new"), ("unwind barrier", "concrete-core-ffi/src/utils.rs")],
  tech="effect analysis over MIR: every call of every body classified by the kind of effect of its callee, effects allowed by module",
  note="Effects behind calls into other crates (rayon, concrete-fft, aes, serde, bincode) are not looked into; only standard library effects and known randomness crates are classified. CUDA's own library is foreign code."),
 dict(id="C04", mod="formulas", fn="c04",
  title="Every variant of an operation computes the same formula",
  statement="The 32-bit and 64-bit, owned, view and mutable-view variants of an operation of the default engines compute the same formula of their operands: same terms, same operand roles, same noise and mask use, same dimensions of the result.",
  over=["inputs", "configurations"], text="all operands, all precisions and container variants",
  why="The tests do not exercise all variants with asymmetric operands; a slip in one of the hand-duplicated implementations shows only there.",
  files=["concrete-core/src/backends/default/implementation/engines"],
  mech=[("duplicated 32/64/view implementations", "concrete-core/src/backends/default/implementation/engines/default_engine/*.rs")],
  tech="symbolic region formulas derived from MIR with calls spliced in (loops as one generic iteration), canonicalised and compared between the variants of each operation",
  note="Formulas are over named regions (bodies, masks, rows, polynomials) and do not unroll counts. A variant that is written through constructs outside the vocabulary of the formulas is counted as undecided in the evidence."),
 dict(id="C10", mod="formulas", fn="c10",
  title="Encryption and key generation produce the documented ciphertext formula",
  statement="Every encryption and key generation operation of the default engines writes a fresh mask from the mask generator, a body that is the inner product of that mask with the given secret key plus fresh noise of the given variance plus the message (scaled by the factor documented for its decomposition level where it encrypts a key), trivial encryptions a zero mask and the message as body; every ciphertext of a list, level or row is treated alike and each in its own place.",
  over=["inputs", "configurations"], text="all keys, messages, dimensions, counts, decomposition parameters and precisions",
  why="The statistical tests sample a few parameter sets with tolerance for noise; a term dropped, a key exchanged or noise forgotten for some entry of a list can stay within the tolerance, be hidden by symmetric parameters, or leave decryption correct while the ciphertext is insecure.",
  files=["concrete-core/src/backends/default/implementation/engines", "concrete-core/src/commons/crypto"],
  mech=[("LWE/GLWE/GGSW encryption", "concrete-core/src/commons/crypto/secret/{lwe,glwe}.rs"), ("key switching and bootstrap key generation", "concrete-core/src/commons/crypto/{lwe,ggsw,bootstrap,cbs}"), ("public key encryption", "concrete-core/src/backends/default/implementation/engines/default_engine/*public_key*.rs")],
  tech="symbolic region formulas derived from MIR with calls spliced in, canonicalised and compared with the reviewed formulas sa/spec/formulas.json",
  note="Terms are compared as sets per region, independent of order, temporaries, helper functions and loop shape. Guards on data are part of a term; guards on counts that only skip empty work are not judged. The numeric values of the primitives (inner product, polynomial product, decomposition) are taken at their names here; C24 looks into the plain arithmetic ones."),
 dict(id="C11", mod="formulas", fn="c11",
  title="Masks, noise, keys and seeds are drawn from the generator meant for them",
  statement="Each random quantity an operation of the default engines uses comes from the generator meant for it: secret keys from the secret generator, masks from the mask stream and noise from the noise stream of the encryption generator (of a generator newly seeded with the stored seed for seeded ciphertexts), seeds from the seeder; parallel work draws from its own fork of that generator; and no operation draws randomness it does not need or from ambient sources.",
  over=["inputs", "histories"], text="all operations, all operand values, every draw",
  why="Noise taken from the public mask stream, or a mask generator reused for two ciphertexts, decrypts perfectly: no functional test can notice.",
  files=["concrete-core/src/backends/default/implementation/engines", "concrete-core/src/commons/crypto/secret/generators", "concrete-core/src/commons/math/random"],
  mech=[("encryption generator with two streams", "concrete-core/src/commons/crypto/secret/generators/encryption.rs"), ("engine generators and seeder", "concrete-core/src/backends/default/implementation/engines/default_engine/mod.rs")],
  tech="provenance of every random draw over MIR: kind of draw, generator and fork path, per operation, compared with the reviewed table sa/spec/formulas.json",
  note="Forks are compared by path in the generator, not by the byte budget."),
 dict(id="C15", mod="formulas", fn="c15",
  title="Parallel operations compute what the sequential engine computes",
  statement="Every operation of the parallel default engine writes, for every element, the same formula of its operands as the operation of the same name of the sequential engine, with masks and noise drawn from the child generator forked for that element.",
  over=["inputs", "schedules"], text="all operands, counts and schedules of the parallel loops",
  why="The tests decrypt parallel results with a noise tolerance and do not compare them element by element with the sequential engine.",
  files=["concrete-core/src/backends/default/implementation/engines/default_parallel_engine", "concrete-core/src/commons/crypto"],
  mech=[("parallel encryption twins", "concrete-core/src/commons/crypto/**: par_* functions"), ("engine methods", "concrete-core/src/backends/default/implementation/engines/default_parallel_engine")],
  tech="symbolic region formulas derived from MIR, compared between the sequential and parallel operations up to the fork of the generator",
  note="Data races are excluded by the type system (no unsafe code in these paths); the formula of one generic element is compared."),
 dict(id="C16", mod="formulas", fn="c16",
  title="Expanding a seeded entity regenerates the masks it was encrypted with",
  statement="The expansion of a seeded ciphertext, list or key draws its masks, element by element and fork by fork, from a generator newly seeded with the seed stored in the entity, over the same forks as its encryption did, and copies every stored body to its place.",
  over=["inputs", "configurations"], text="all seeded entities, counts, dimensions and precisions",
  why="An expansion that forks for different counts, or pairs bodies with the wrong masks, agrees with the encryption on the parameter sets where the counts coincide; seeded lists are not tested.",
  files=["concrete-core/src/backends/default/implementation/engines", "concrete-core/src/commons/crypto"],
  mech=[("seeded entities", "concrete-core/src/commons/crypto/**/seeded*.rs: expand_into"), ("transformation engines", "concrete-core/src/backends/default/implementation/engines/default_engine/*seeded*_transformation.rs")],
  tech="symbolic region formulas derived from MIR of the expansions, compared with the reviewed formulas sa/spec/formulas.json",
  note="The formulas name the fork path of the generator each mask is drawn from."),
 dict(id="C17", mod="formulas", fn="c17",
  title="Discarding operations ignore what was in their output",
  statement="A discarding operation of the default engines writes its output from its inputs only: no value it writes depends on the previous contents of the output container.",
  over=["inputs", "histories"], text="all operands and all previous contents of the output",
  why="The tests pass freshly zeroed outputs to most discarding operations, where an accumulation onto old contents is invisible.",
  files=["concrete-core/src/backends/default/implementation/engines", "concrete-core/src/commons/crypto", "concrete-core/src/specification/engines/mod.rs"],
  mech=[("discarding semantics", "concrete-core/src/specification/engines/mod.rs"), ("discard_* methods", "concrete-core/src/backends/default/implementation/engines/default_engine/*discarding*.rs")],
  tech="definite-assignment dataflow over regions of the output container along MIR paths: a region must be assigned before any of its contents is read",
  note="Regions are bodies, masks, rows, polynomials and generic elements; a loop over all elements is taken to cover its container."),
 dict(id="C22", mod="formulas", fn="c22",
  title="Results carry the dimensions and parameters asked for",
  statement="The entity an operation of the default engines returns has the container length and the dimension, size, count, decomposition and distribution parameters that follow from its operands and arguments.",
  over=["inputs", "configurations"], text="all operands and parameters, all creating operations",
  why="Tests use few parameter sets, often with equal dimensions on both sides, where an exchange of two of them is invisible.",
  files=["concrete-core/src/backends/default/implementation/engines"],
  mech=[("creation and conversion engines", "concrete-core/src/backends/default/implementation/engines/default_engine/*.rs"), ("entity containers", "concrete-core/src/commons/crypto")],
  tech="symbolic lengths and metadata fields of returned entities derived from MIR, compared with the reviewed table sa/spec/formulas.json",
  note="Lengths are polynomials over the parameters, compared after normalisation."),
 dict(id="C24", mod="formulas", fn="c24",
  title="Deterministic operations compute the documented combination of their operands",
  statement="Every operation of the default engines that uses no randomness (additions, subtractions, negations, products with cleartexts, affine transforms, key switching, sample extraction, decryption, loading, storing, conversions between entities) writes exactly the documented combination of its operands into every element of its output, each operand in its role and each element in its place.",
  over=["inputs", "configurations"], text="all operand values, dimensions, counts and precisions",
  why="The statistical tests sample few shapes with a noise tolerance; list variants, the last or first element, masks as opposed to bodies, and views are mostly unsampled.",
  files=["concrete-core/src/backends/default/implementation/engines", "concrete-core/src/commons/crypto"],
  mech=[("homomorphic operations on LWE/GLWE", "concrete-core/src/commons/crypto/{lwe,glwe}/*.rs"), ("engines", "concrete-core/src/backends/default/implementation/engines/default_engine/*.rs")],
  tech="symbolic region formulas derived from MIR with calls spliced in, canonicalised and compared with the reviewed formulas sa/spec/formulas.json",
  note="As C10; arithmetic is compared as wrapping polynomial arithmetic over symbolic elements."),
 dict(id="C19", mod="primitives", fn="c19",
  title="The building blocks compute what they are documented to compute",
  statement="Every function the cryptography is built from does what it documents, for all arguments: additions, products and monomial products of polynomials modulo X^N+1, element-wise and scalar operations on tensors, closest representable value, signed decomposition and recomposition digit by digit, encoders, plaintext and cleartext lists, conversions between numeric types, dispersions and parameters, accessors and iterators of the ciphertext containers; the encryption generator draws masks from its mask stream and noise of the given deviation from its noise stream; and forking hands every child as many mask and noise bytes as the ciphertexts it will encrypt need.",
  over=["inputs", "configurations"], text="all operand values, dimensions, bases, levels, counts and precisions",
  why="Unit tests sample some small sizes of some of them; a wrong sign in the wrapped half, a digit that is off for one carry pattern, a fork budget that is short for one shape, or noise taken from the mask stream passes them.",
  files=["concrete-core/src/commons", "concrete-core/src/specification/dispersion.rs", "concrete-core/src/specification/parameters.rs"],
  mech=[("polynomials and tensors", "concrete-core/src/commons/math/{polynomial,tensor}"), ("decomposition", "concrete-core/src/commons/math/decomposition"), ("random and encryption generators", "concrete-core/src/commons/{math/random,crypto/secret/generators}"), ("containers", "concrete-core/src/commons/crypto")],
  tech="symbolic formulas of the results and of every written region derived from MIR per function, canonicalised and compared with the reviewed table sa/spec/blocks.json",
  note="Formulas are symbolic: they say which combination is computed, not how floating point rounds. An equivalent rewriting of bit arithmetic with other operators is outside what the normal form identifies; additions, products, order, temporaries and helper functions are. Karatsuba products are compared through their recursion step. What an adapter closure of a returned iterator does is not part of the formula of the function returning it, but of those consuming it."),
 dict(id="C20", mod="primitives", fn="c20",
  title="Noise estimators compute the documented variance formulas",
  statement="Every estimator of concrete-npe returns, for all parameters and key kinds, the documented variance (or expectation) formula of the operation it stands for, each argument in its role: additions, products, key switches, external products, bootstraps, circuit bootstrap, packing and bit extraction, and the dispersion of key coefficients and of products of keys.",
  over=["inputs", "configurations"], text="all dispersions, dimensions, decomposition parameters, modulus sizes and key kinds",
  why="The estimators are compared with measurements for few parameter sets, with wide tolerance; a term that is negligible there, or two parameters exchanged that are equal there, goes unnoticed.",
  files=["concrete-npe/src"],
  mech=[("operator estimates", "concrete-npe/src/operators.rs"), ("key dispersions", "concrete-npe/src/key_dispersion.rs")],
  tech="symbolic closed formulas derived from MIR (calls spliced in, floating point constants exact, sums and products canonicalised) compared with the reviewed table sa/spec/npe.json",
  note="Real arithmetic: rounding is not modelled. Sums and products are canonicalised, divisions and powers are compared as written, so an algebraic rearrangement of a quotient would be reported."),
]

NOT_APPLICABLE = []

ALL.sort(key=lambda e: e["id"])
PROPS = {e["id"]: (e["mod"], e["fn"]) for e in ALL}
EXPLAIN = {e["id"]: e["tech"] + ". " + e["note"] for e in ALL}
