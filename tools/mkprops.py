#!/usr/bin/env python3
# Writes properties.jsonl; the properties are kept here because they are easier to edit in this form.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
S='src/milo/'; D=S+'primitive/detail/'
p('C01','Hash digests equal FIPS 180-4 for every message on every backend',
  'For SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 and SHA-512/256 the digest of any message is the FIPS 180-4 value, whichever backend (portable or hardware) computes it. This includes the empty message, every length around the padding boundaries, and messages longer than 2^32 bits or 2^32 bytes.',
  ['inputs','configurations'],'every message, every algorithm, every backend that can run on the machine',
  'The tests compare a fixed vector file (NIST style vectors of bounded length); no message above a few kilobytes is ever hashed, lengths are sampled, and the digest of long messages (length counter, multi block loops) is never seen.',
  [S+'primitive/hash/apie.h',D+'hash/sha/sha_1_160.h',D+'hash/sha/sha_2_256.h',D+'hash/sha/sha_2_512.h',D+'hash/sha/sha_2_256_impl_hw_x86_64.asm',D+'hash/sha/sha_1_160_impl_hw_x86_64.asm'],
  [('padding and length encoding',D+'hash/sha/sha_2_256.h finalize'),('compression functions',D+'hash/sha/*_impl_*')],['hash::digest and hash::apie'])
p('C02','Streaming in any partition gives the same result as one call',
  'Splitting a message (hash, MAC), a text (cipher), additional data and text (AEAD) or an output (KDF) into any sequence of pieces, including empty pieces, yields exactly the bytes that a single call on the whole yields. Encrypt and decrypt calls of one cipher object consume one common keystream.',
  ['inputs','histories'],'every input and every partition of it into calls, for every primitive and backend',
  'The tests split each vector in a handful of regular ways; carry-over state between calls (partial blocks, batches of keystream, left over KDF output) depends on the whole history of piece sizes.',
  [S+'internal/update.h',S+'primitive/hash/apie.h',S+'primitive/mac/apie.h',S+'primitive/cipher/apie.h',S+'primitive/aead/apie.h',S+'primitive/kdf/apie.h'],
  [('block buffering',S+'internal/update.h'),('kdf left over buffer',D+'kdf/hkdf.h derive')],['update, encrypt, decrypt, aad, derive'])
p('C03','HMAC equals RFC 2104 for every key and message',
  'For each supported hash, the MAC of any message under any key is the RFC 2104 / FIPS 198-1 value. This covers empty keys, keys shorter than, equal to and longer than the block size of the hash, and empty messages.',
  ['inputs','configurations'],'every key length and content, every message, every hash and backend',
  'Tests hold a fixed list of key/message pairs per hash; key lengths around the block size (where the key is hashed or padded) are sampled, not covered.',
  [D+'mac/hmac/hmac.h',S+'primitive/mac/apie.h'],[('key preparation',D+'mac/hmac/hmac.h initialize')],['mac::digest'])
p('C04','Poly1305 equals RFC 8439 for every one-time key and message',
  'The tag of any message under any 32 byte one-time key is the RFC 8439 value. A shorter key behaves as if padded with zero bytes and the bytes of a longer key past its 32nd have no effect.',
  ['inputs'],'every key and message, in particular those that drive the accumulator next to 2^130-5 and every carry',
  'Limb carries and the final reduction fail only for values no ordinary vector reaches; the tests have a short vector list.',
  [D+'mac/poly/poly_1305.h',D+'mac/poly/poly_1305_impl_sw.h'],[('limb arithmetic and final reduction',D+'mac/poly')],['mac::digest'])
p('C05','HKDF output equals RFC 5869 however it is drawn',
  'For every supported hash, input key material, salt and info, the derived bytes are those of RFC 5869 up to 255 times the hash length. Successive derive calls on one object continue the same output stream.',
  ['inputs','histories'],'every ikm, salt, info and length up to the limit of the RFC, and every sequence of derive calls',
  'Tests derive a fixed length from a few vectors; the block chaining over many blocks and over interleaved request sizes is not covered.',
  [D+'kdf/hkdf.h',S+'primitive/kdf/apie.h'],[('expand chaining',D+'kdf/hkdf.h derive')],['kdf::derive'])
p('C06','PBKDF2 output equals RFC 8018 however it is drawn',
  'For every supported hash, password, salt and iteration count of at least one, the derived bytes are those of PBKDF2 with HMAC from RFC 8018. Successive derive calls on one object continue the same output stream.',
  ['inputs','histories'],'every password, salt, iteration count and length, and every sequence of derive calls',
  'Tests derive fixed lengths from a few vectors; block counters above small values, passwords around the block size and interleaved request sizes are not covered.',
  [D+'kdf/pbkdf_2.h',S+'primitive/kdf/apie.h'],[('block function and counter',D+'kdf/pbkdf_2.h expand')],['kdf::derive'])
p('C07','ChaCha20 equals RFC 8439 on every backend, including counter wrap',
  'The ciphertext and the plaintext of any text under any key and iv (counter and nonce) are those of the RFC 8439 keystream, with the 32 bit block counter counting up modulo 2^32 and never touching the nonce. Decryption inverts encryption, and portable and hardware backends agree byte for byte.',
  ['inputs','configurations'],'every key, iv, text length and backend, with initial counters next to the wrap point',
  'Tests use small counters and lengths; backends that produce several blocks per step wrap and stop differently from the portable one.',
  [D+'cipher/chacha/chacha.h',D+'cipher/chacha/chacha_impl_sw.h',D+'cipher/chacha/chacha_impl_hw_x86_64.asm'],[('multi block keystream and counter',D+'cipher/chacha')],['cipher::encrypt, cipher::decrypt'])
p('C08','AEAD encryption equals ChaCha20-Poly1305 of RFC 8439',
  'For every key, nonce, additional data and plaintext, the ciphertext and tag are those of RFC 8439. This includes empty plaintext, empty additional data, and additional data alone, whether passed at once or in pieces.',
  ['inputs','histories'],'every key, nonce, additional data and plaintext, with every split into calls',
  'Tests hold a fixed vector list; the padding of both parts depends on their lengths modulo 16 and on which calls were made.',
  [D+'aead/chacha/chacha_20_poly_1305.h',S+'primitive/aead/apie.h'],[('tag input layout',D+'aead/chacha/chacha_20_poly_1305.h')],['aead::encrypt'])
p('C09','AEAD decryption accepts exactly the authentic messages',
  'Decryption reports success and yields the original plaintext if and only if key, nonce, additional data, ciphertext and tag all match what encryption produced. Any changed bit, truncated, extended or empty tag, or altered length of any part makes it report a verification failure, by exception or through the error object as the caller chose, and never terminates the program.',
  ['inputs'],'every single bit change and length change of every part, and every authentic message',
  'Tests only decrypt valid vectors; forgeries are never tried.',
  [S+'primitive/aead/apie.h',S+'internal/memory.h'],[('tag comparison',S+'primitive/aead/apie.h verify')],['aead::decrypt, aead::apie::verify'])
p('C10','Base-16 encodes every input and decodes exactly the valid ones',
  'Encoding any bytes gives lower case RFC 4648 base-16 text, and decoding that text, in any letter case, gives the bytes back. Text with any character outside the alphabet is reported as an error, and an odd number of digits is decoded as if a zero digit stood in front.',
  ['inputs'],'every byte sequence; every text, including all 256 byte values in every position',
  'Tests decode valid vectors only; bytes above 127, odd sizes and each invalid position are not covered.',
  [D+'codec/base_16.h',S+'primitive/codec/apie.h'],[('decode table and error path',D+'codec/base_16.h')],['codec::encode, codec::decode'])
p('C11','Base-64 encodes every input and decodes exactly the valid ones',
  'Encoding any bytes gives padded RFC 4648 base-64 text, and decoding that text gives the bytes back. Text of a length that is not a multiple of four, with a character outside the alphabet, or with padding anywhere but in the last one or two places is reported as an error.',
  ['inputs'],'every byte sequence; every text, including all 256 byte values in every position and every padding layout',
  'Tests decode valid vectors only; misplaced padding, bad lengths and bytes above 127 are not covered.',
  [D+'codec/base_64.h',S+'primitive/codec/apie.h'],[('decode table, padding and error path',D+'codec/base_64.h')],['codec::encode, codec::decode'])
p('C12','Backend dispatch never uses instructions the processor lacks',
  'Whatever set of instruction set extensions the processor and operating system report, default primitives only run code whose instructions are among them, and the results are the same as everywhere else. When the extensions for an accelerated backend are all reported, that backend is used.',
  ['configurations'],'every combination of reported processor features, including incomplete and old processors and operating systems that do not enable AVX',
  'Tests run on one processor with everything available, so only one outcome of the selection is ever executed.',
  [S+'internal/arch/x86_64.h',S+'internal/impl.h',D+'hash/impl.h',D+'cipher/impl.h'],[('feature detection',S+'internal/arch/x86_64.h'),('choice of backend',S+'internal/impl.h')],['entries of the assembly routines'])
p('C13','Compile-time evaluation gives the same bytes as run-time evaluation',
  'Every primitive can be evaluated in a constant expression, and there yields exactly the bytes (or the error) that the same call yields at run time. An object that begins its work in a constant expression continues at run time as if it had done all of it there.',
  ['inputs'],'every primitive, call shape and input evaluated in both modes',
  'The constexpr tests repeat the fixed vectors; the two modes run different code paths for memory, endianness and backends.',
  [S+'internal/memory.h',S+'internal/endian.h',S+'internal/impl.h',S+'internal/compiler.h'],[('constant evaluation branches',S+'internal/memory.h')],['constexpr variables of generated programs'])
p('C14','Memory access stays inside the buffers the caller passed',
  'No call reads outside the input ranges it was given or writes outside the output ranges it was given or reported, for any size and any alignment, on any backend. Inputs are never written, and null pointers with size zero are accepted.',
  ['inputs'],'every size, alignment and buffer position, including buffers that end at an unmapped page',
  'Tests use heap vectors; reading or writing a few bytes past the end (vector loads, block rounding) is invisible there.',
  [S+'internal/update.h',S+'internal/memory.h',D+'cipher/chacha/chacha_impl_hw_x86_64.asm',D+'hash/sha/sha_2_256_impl_hw_x86_64.asm'],[('size bookkeeping',S+'internal/update.h')],['guard pages around every buffer'])
p('C15','No undefined behaviour, memory error or use of uninitialised data',
  'No documented use of the library or the application executes undefined behaviour, touches memory it does not own, leaks memory or lets a result or a branch depend on uninitialised memory.',
  ['inputs','histories'],'every documented call sequence and input',
  'The test suite is built without sanitizers, and most violations leave the compared bytes unchanged.',
  [S+'internal/memory.h',S+'internal/endian.h',S+'primitive','app/include/milo/app'],[('memory helpers',S+'internal/memory.h')],['AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, valgrind'])
p('C16','Sensitive data is zeroed when objects go away',
  'When a hash, MAC, KDF, cipher or AEAD object is destroyed, its storage holds none of the key, message, intermediate state or output bytes it worked on; the one-shot functions leave none of their keys, one-time keys or derived key blocks behind in the stack memory they used. This holds in optimised builds.',
  ['inputs','configurations'],'every object in every state of its life, every compiler and optimisation level',
  'Nothing in the tests looks at memory after an object is gone, and an optimiser may remove the erasing stores without any visible effect.',
  [S+'internal/memory.h',D+'mac/hmac/hmac.h',D+'kdf/hkdf.h',D+'kdf/pbkdf_2.h',D+'cipher/chacha/chacha.h',D+'aead/chacha/chacha_20_poly_1305.h'],[('volatile erase in destructors',S+'internal/memory.h memory_erase')],['object storage and stack after use'])
p('C17','All call shapes and container or byte types agree with each other',
  'Every documented call shape (pointer, container, by-value result, object or one-shot) compiles for every supported byte type and container, standard or user defined, and yields the same bytes and sizes as every other shape. Literals equal the run-time conversion of their text.',
  ['inputs','programs'],'every documented overload, byte type and container kind, for every input',
  'Tests go through a few shapes with one or two container types; templates that nobody instantiates are not even compiled.',
  [S+'primitive/codec/apie.h',S+'primitive/hash/apie.h',S+'primitive/mac/apie.h',S+'primitive/kdf/apie.h',S+'primitive/cipher/apie.h',S+'primitive/aead/apie.h',S+'literal.h',S+'meta.h'],[('overload sets',S+'primitive/*/apie.h'),('container resizing',S+'internal/utility.h')],['return values and outputs'])
p('C18','Requested and available output sizes truncate exactly as documented',
  'A digest is the prefix of the full digest with the smaller of the requested size, the available fixed size and the maximum digest size, and the returned size says so; dynamic containers are resized to exactly that. Bytes of a fixed output past the returned size are not changed, and repeated extraction gives the same bytes.',
  ['inputs'],'every requested size and container capacity, below, at and above the maximum',
  'Tests extract full digests of the natural size.',
  [S+'primitive/hash/apie.h',S+'primitive/mac/apie.h',S+'primitive/kdf/apie.h',S+'primitive/aead/apie.h',S+'internal/utility.h'],[('minimum and resize',S+'internal/utility.h resize')],['digest and derive'])
p('C19','Errors are reported the way the caller chose and never lost',
  'Operations that can fail throw milo::error when no error object is passed, and set the passed error object without throwing when one is; success clears the error object. Exceptions raised by containers while growing reach the caller unchanged, and no documented failure terminates the program.',
  ['inputs','fault_sequences'],'every failing input of every operation that can fail, and every failing resize of an output container',
  'Tests only take successful paths.',
  [S+'error.h',S+'primitive/codec/apie.h',S+'primitive/aead/apie.h',S+'internal/utility.h'],[('error selection',S+'primitive/*/apie.h'),('noexcept specifications',S+'primitive/*/apie.h')],['exceptions and error objects'])
p('C20','Independent objects can be used from many threads at once',
  'Threads that use separate objects, or share read-only inputs, never race and get the results a single thread would get, from the very first use of the library in the process.',
  ['schedules'],'every interleaving of operations on distinct objects, including the first use',
  'The tests are single threaded.',
  [S+'internal/impl.h',S+'internal/arch/x86_64.h'],[('one time choice of backend',S+'internal/impl.h')],['ThreadSanitizer reports and results'])
p('C21','Assembly routines keep the calling convention and linking stays safe',
  'Every accelerated routine preserves the callee-saved registers, the stack pointer and the direction flag, leaves the vector unit in a clean state, and writes nothing below or above the stack space it may use. Linking the library does not make the stack of the program executable.',
  ['inputs','configurations'],'every call of every assembly routine with every block count',
  'A clobbered register only matters if the surrounding compiled code happens to keep a live value there.',
  [D+'cipher/chacha/chacha_impl_hw_x86_64.asm',D+'hash/sha/sha_1_160_impl_hw_x86_64.asm',D+'hash/sha/sha_2_256_impl_hw_x86_64.asm',S+'internal/arch/x86_64/cpuid.asm',S+'internal/arch/x86_64/abi.asm'],[('prologues and epilogues',D+'cipher/chacha/chacha_impl_hw_x86_64.asm')],['entry and exit of each routine'])
p('C22','Copies and moves of an object are independent equal values',
  'Copying, moving or assigning an object in any state gives an object that continues exactly as the original would have, for every primitive. Afterwards neither influences the other, and self assignment changes nothing.',
  ['histories'],'every state reachable by a sequence of calls, with a copy, move or assignment at any point',
  'Tests never copy an object in the middle of its work.',
  [S+'primitive/hash/apie.h',S+'primitive/mac/apie.h',S+'primitive/kdf/apie.h',S+'primitive/cipher/apie.h',S+'primitive/aead/apie.h'],[('copy and move members',S+'primitive/*/apie.h, detail')],['results of both objects'])
p('C23','The library works in programs of several files, from start to exit',
  'Every public header compiles on its own and can be included in any number of translation units of one program without duplicate or conflicting definitions. The library gives correct results during static initialisation and destruction of any translation unit, and when used as an installed or embedded CMake package.',
  ['programs','configurations'],'every set of headers, every order of translation units, every moment of the life of the program',
  'Each test is a program of one file that only works inside main.',
  [S+'internal/arch/x86_64.h',S+'internal/impl.h',S+'literal.h','CMakeLists.txt'],[('inline definitions',S+'internal'),('choice of backend on first use',S+'internal/impl.h')],['link results and output of multi file programs'])
p('C24','Execution does not depend on secret values',
  'For inputs of equal sizes, neither the branches taken nor the memory addresses touched by MAC, KDF, cipher and AEAD operations depend on key, password or message bytes. Tag verification takes the same path whichever bytes of the tag differ.',
  ['inputs'],'every pair of secrets of equal size',
  'Results are the same either way; only the path reveals a leak.',
  [S+'primitive/aead/apie.h',S+'internal/memory.h',D+'mac/poly',D+'cipher/chacha',D+'hash/sha'],[('constant time comparison',S+'internal/memory.h'),('masked final reduction',D+'mac/poly/poly_1305.h')],['memcheck with secrets marked undefined; executed instruction traces'])
p('C25','The command line application accepts what it documents and reports truthfully',
  'For every command line the milo application either does what was asked or says why not and exits with a failure status; it never crashes. The benchmark output is valid JSON that holds exactly the primitives the pattern selects, with the parameters the user passed and metrics consistent with each other.',
  ['inputs','configurations'],'every command line: commands, options, values, patterns',
  'The application has no tests.',
  ['app/include/milo/app','doc/benchmarking.md'],[('argument parsing','app/include/milo/app'),('pattern matching','app/include/milo/app'),('json output','app/include/milo/app')],['exit status and output of the process'])
p('C26','Results do not depend on compiler, optimisation or assembly setting',
  'With each supported compiler, at every optimisation level, with or without assembly and with or without exceptions being used, the library compiles without error and gives the same results for the same calls.',
  ['configurations','inputs'],'every build configuration the documentation allows, for every input',
  'Tests are built with one compiler in one configuration.',
  [S+'internal/compiler.h',S+'internal/config.h',S+'internal/endian.h','CMakeLists.txt'],[('configuration macros',S+'internal')],['transcripts of the same workload'])
p('C27','Initialising an object again erases its whole history',
  'After initialisation an object behaves exactly like a freshly made one with the same parameters, whatever it did before: partial input, extracted output, failed verification or use under other parameters.',
  ['histories'],'every sequence of calls before the initialisation, every primitive',
  'Tests use each object once.',
  [S+'primitive/hash/apie.h',S+'primitive/mac/apie.h',S+'primitive/kdf/apie.h',S+'primitive/cipher/apie.h',S+'primitive/aead/apie.h',D],[('initialize members',D)],['results after reuse'])
p('C28','In-place operation gives the result of separate buffers',
  'Encrypting, decrypting or authenticating with the output range equal to the input range gives exactly the bytes that separate ranges give, for every size, split and backend. An output written for one object never changes what another object or a later call sees of its own inputs.',
  ['inputs','histories'],'every size, alignment and split, ciphers and AEAD, both directions',
  'Tests write to separate buffers except for a few vectors.',
  [S+'internal/update.h',S+'internal/memory.h',D+'cipher/chacha/chacha_impl_hw_x86_64.asm',D+'aead/chacha/chacha_20_poly_1305.h'],[('xor helpers and order of authentication',S+'internal/memory.h')],['encrypt and decrypt'])
p('C29','Allocation-free interfaces allocate nothing; others only the result',
  'Calls whose outputs are pointers, fixed containers or views perform no dynamic allocation, on success and on reported failure. Calls with dynamic outputs allocate only through the output container, and release everything when they fail.',
  ['inputs','histories'],'every call shape and size',
  'Tests do not observe the allocator.',
  [S+'primitive',S+'internal/utility.h'],[('resize of dynamic containers only',S+'internal/utility.h')],['global allocator and allocator of the container'])
p('C30','Options choose implementation and digest size as asked, in any order',
  'For hashes, Poly1305 and ChaCha20: an implementation given by option impl_enforce processes every block at run time; one given by impl_runtime does so exactly when the processor and system provide all instruction sets its requirements name, and else the built-in choice does; one given by impl_cpltime is used in constant evaluation and only there. Options for run time never affect constant evaluation and the other way round, impl_enforce takes precedence over impl_runtime, impl_chooser and impl_invoker replace the built-in ones, digest_size combines with all of them, and the order of the options does not matter. Results are correct whichever implementation is chosen.',
  ['inputs','configurations'],'every set and order of options, every requirement, every processor',
  'The tests use impl_runtime with the built-in implementations only, on the one processor they run on, and cannot see which implementation did the work, since all of them give the same digest.',
  [S+'internal/impl.h',S+'internal/option.h',S+'option.h',S+'internal/arch/x86_64.h',D+'hash/impl.h',D+'cipher/impl.h',D+'mac/poly/poly_1305_impl.h'],
  [('selection of implementations',S+'internal/impl.h impl_proxy'),('requirements',S+'internal/arch/x86_64.h check'),('option queries',S+'internal/option.h')],['implementations given by options'])
p('C31','Generated test programs pass exactly when every result of every vector is right',
  'Given a valid configuration (each scheme: hash, mac, hkdf, pbkdf_2, cipher, aead, codec in both directions), tool/codegen makes a program that compiles, that asks every listed implementation for every vector of every group, and that exits with 0 if all results are right. If one implementation gives one wrong result (one bit of a digest, key, text or tag; one byte too few or too many; a valid text rejected), for any vector or any of the generated differential inputs, the program fails. A wrong vector is refused at compile time where compile time tests are asked for. A configuration that tests no implementation, or whose failure could not be told from success (id 0), never gives a program that passes.',
  ['inputs','configurations'],'every valid configuration, every single wrong result of an implementation',
  'The tests are themselves made by this tool: they pass when the tool forgets a vector, an implementation or a comparison.',
  ['tool/codegen/main.py','tool/codegen/src/cpp/milo.py','tool/codegen/src/cpp/lang.py',*[S+'primitive/%s/test.h'%x for x in ['hash','mac','kdf','cipher','aead','codec']]],
  [('program generation','tool/codegen/src'),('vector and differential tests','src/milo/primitive/*/test.h')],['the generator of test programs','the test interfaces of each primitive'])
p('C32','The documented interface: what is accepted, what is refused, what constants say',
  'Every call shape of the documentation accepts every type that meets its documented requirements (contiguous containers of bytes of all three byte types, fixed and resizable, const and not, views and spans, pointers with a size, integral sizes of every type) and does not compile with anything else: containers of wider elements, booleans or enumerations, const outputs, containers of no contiguous storage, missing arguments, and containers of fixed size above the documented limit of the output. Published constants (key, nonce, digest and block sizes, limits) have the documented values, classes are copied and moved without throwing as documented, and each example of the documentation compiles, runs clean under sanitizers and does what the documentation says.',
  ['inputs'],'every documented function and class, every kind of argument',
  'No test can contain a call that must not compile, and the tests use one container type.',
  [S+'meta.h',S+'container.h',S+'error.h']+[S+'primitive/%s/apie.h'%x for x in ['hash','mac','kdf','cipher','aead','codec']]+['doc/reference_%s.md'%x for x in ['hash','mac','kdf','cipher','aead','codec']],
  [('requirements on containers',S+'meta.h container_inputable, container_static, container_dynamic'),('call shapes',S+'primitive/*/apie.h')],['public interface and documentation'])
p('C33','Results do not depend on the byte order of the machine',
  'On a machine of the other byte order every hash, MAC, key derivation, cipher, AEAD and codec gives the same bytes for the same bytes, in every call shape and with elements of every width: what the standards call big-endian or little-endian is so whatever the machine, and pieces, copies, buffers in place and truncated outputs behave as they do here.',
  ['inputs','configurations'],'every input, machines of either byte order',
  'All machines the tests run on are little-endian, where forgetting a conversion of little-endian data changes nothing.',
  [S+'internal/endian.h',S+'internal/memory.h',S+'internal/ring.h',D+'mac/poly/poly_1305_impl.h',D+'cipher/chacha/chacha_impl.h',D+'aead/chacha_poly/chacha_poly_impl.h',D+'hash/sha/sha_1_impl.h'],
  [('byte order conversion',S+'internal/endian.h'),('loads and stores of words',S+'internal/memory.h')],['every primitive on big-endian targets'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
