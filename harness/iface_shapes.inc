// Call shapes with one place of a free type: X(id, lists that have to be accepted and refused, expression over x).
#ifndef RUN_LISTS
#define X(ID, YES, NO, ...) SHAPE(ID, __VA_ARGS__)
#else
#define X(ID, YES, NO, ...) run<sh##ID, ID>(sh##ID::text, YES{}, "A", 1000); run<sh##ID, ID>(sh##ID::text, NO{}, "R", 0); if constexpr (CONFIRM_S == ID) confirm<sh##ID>(NO{});
#endif
X(1, in_yes, no, mp::hash::digest<sha>(x)) X(2, in_yes, no, mp::hash::digest<sha>(x, n)) X(3, in_yes, no, mp::hash::digest<sha>(x, s)) X(4, in_yes, no, H.update(x))
X(5, in_yes, no, mp::mac::digest<hmac>(x, v)) X(6, in_yes, no, mp::mac::digest<hmac>(v, x)) X(7, in_yes, no, mp::mac::digest<poly>(x, v, s)) X(8, in_yes, no, M.update(x)) X(9, in_yes, no, M.initialize(x)) X(10, in_yes, no, (mp::mac::apie<hmac>(x)))
X(11, in_yes, no, mp::kdf::derive<hkdf>(x, v, v, n)) X(12, in_yes, no, mp::kdf::derive<hkdf>(v, x, v, n)) X(13, in_yes, no, mp::kdf::derive<hkdf>(v, v, x, n)) X(14, in_yes, no, K.initialize(x, v, v)) X(15, in_yes, no, K.initialize(v, x, v)) X(16, in_yes, no, K.initialize(v, v, x))
X(17, in_yes, no, mp::kdf::derive<pbkdf>(x, v, it, n)) X(18, in_yes, no, mp::kdf::derive<pbkdf>(v, x, it, s, n)) X(19, in_yes, no, P.initialize(x, v, it)) X(20, in_yes, no, P.initialize(v, x, it))
X(21, in_yes, no, mp::cipher::encrypt<chacha>(x, v, v)) X(22, in_yes, no, mp::cipher::encrypt<chacha>(v, x, v, s)) X(23, in_yes, no, mp::cipher::decrypt<chacha>(v, v, x)) X(24, in_yes, no, C.initialize(x, v)) X(25, in_yes, no, C.initialize(v, x)) X(26, in_yes, no, C.encrypt(x, s)) X(27, in_yes, no, C.decrypt(x, s)) X(28, in_yes, no, C.encrypt_size(x)) X(29, in_yes, no, C.decrypt_size(x))
X(30, in_yes, no, mp::aead::encrypt<aead>(x, v, v, v)) X(31, in_yes, no, mp::aead::encrypt<aead>(v, x, v, v, s, s)) X(32, in_yes, no, mp::aead::encrypt<aead>(v, v, x, v)) X(33, in_yes, no, mp::aead::encrypt<aead>(v, v, v, x)) X(34, in_yes, no, mp::aead::decrypt<aead>(v, v, v, x, v, e)) X(35, in_yes, no, mp::aead::decrypt<aead>(v, v, v, v, x, e)) X(36, in_yes, no, mp::aead::decrypt<aead>(v, v, v, v, x, s))
X(37, in_yes, no, A.aad(x)) X(38, in_yes, no, A.initialize(x, v)) X(39, in_yes, no, A.initialize(v, x)) X(40, in_yes, no, A.verify(x)) X(41, in_yes, no, A.verify(x, e)) X(42, in_yes, no, A.encrypt(x)) X(43, in_yes, no, A.decrypt(x, s)) X(44, in_yes, no, A.encrypt_size(x))
X(45, in_yes, no, mp::codec::encode<b16>(x)) X(46, in_yes, no, mp::codec::encode<b64>(x, s)) X(47, in_yes, no, mp::codec::decode<b16>(x)) X(48, in_yes, no, mp::codec::decode<b64>(x, s, e)) X(49, in_yes, no, mp::codec::apie<b64>::encode(x, s)) X(50, in_yes, no, mp::codec::apie<b16>::decode(x, s)) X(51, in_yes, no, mp::codec::apie<b16>::encode_size(x)) X(52, in_yes, no, mp::codec::apie<b16>::decode_size(x))
// outputs
X(60, out_yes, no_num, mp::hash::digest<sha>(v, x)) X(61, out_yes, no, mp::hash::digest<sha>(v, x, n)) X(62, out_yes, no_num, H.digest(x)) X(63, out_yes, no_num, mp::mac::digest<hmac>(v, v, x)) X(64, out_yes, no_num, M.digest(x)) X(65, out_yes, no, mp::kdf::derive<hkdf>(v, v, v, x, n)) X(66, out_yes, no, mp::kdf::derive<pbkdf>(v, v, it, x, n)) X(67, out_yes, no, K.derive(x, n))
X(68, out_yes, no, mp::cipher::encrypt<chacha>(v, v, v, x)) X(69, out_yes, no, mp::cipher::decrypt<chacha>(v, v, v, x)) X(70, out_yes, no, C.encrypt(v, x)) X(71, out_yes, no, mp::aead::encrypt<aead>(v, v, v, v, x, s)) X(72, out_yes, no, mp::aead::encrypt<aead>(v, v, v, v, s, x)) X(73, out_yes, no, mp::aead::decrypt<aead>(v, v, v, v, v, x, e)) X(74, out_yes, no_num, A.digest(x)) X(75, out_yes, no, mp::codec::encode<b16>(v, x)) X(76, out_yes, no, mp::codec::decode<b64>(v, x)) X(77, out_yes, no, mp::codec::decode<b64>(v, x, e))
// pointers to input
X(80, ptr_yes, ptr_no, mp::hash::digest<sha>(x, n, p)) X(81, ptr_yes, ptr_no, H.update(x, n)) X(82, ptr_yes, ptr_no, h.update(x, n)) X(83, ptr_yes, ptr_no, mp::mac::digest<hmac>(x, n, c, n, p)) X(84, ptr_yes, ptr_no, mp::mac::digest<poly>(c, n, x, n, p, n)) X(85, ptr_yes, ptr_no, m.initialize(x, n)) X(86, ptr_yes, ptr_no, o.update(x, n)) X(87, ptr_yes, ptr_no, mp::kdf::derive<hkdf>(x, n, c, n, c, n, p, n)) X(88, ptr_yes, ptr_no, mp::kdf::derive<hkdf>(c, n, c, n, x, n, p, n)) X(89, ptr_yes, ptr_no, mp::kdf::derive<pbkdf>(c, n, x, n, it, p, n)) X(90, ptr_yes, ptr_no, kd.initialize(c, n, x, n, c, n)) X(91, ptr_yes, ptr_no, pb.initialize(x, n, c, n, it))
X(92, ptr_yes, ptr_no, mp::cipher::encrypt<chacha>(x, n, c, n, c, n, p)) X(93, ptr_yes, ptr_no, mp::cipher::decrypt<chacha>(c, n, x, n, c, n, p)) X(94, ptr_yes, ptr_no, ci.encrypt(x, n, p)) X(95, ptr_yes, ptr_no, ci.initialize(c, n, x, n)) X(96, ptr_yes, ptr_no, mp::aead::encrypt<aead>(c, n, c, n, x, n, c, n, p, p)) X(97, ptr_yes, ptr_no, mp::aead::decrypt<aead>(c, n, c, n, c, n, c, n, x, n, p, e)) X(98, ptr_yes, ptr_no, ae.aad(x, n)) X(99, ptr_yes, ptr_no, ae.decrypt(x, n, p)) X(100, ptr_yes, ptr_no, A.verify(x, n, e)) X(101, ptr_yes, ptr_no, mp::codec::encode<b64>(x, n, p)) X(102, ptr_yes, ptr_no, mp::codec::decode<b16>(x, n, p, e)) X(103, ptr_yes, ptr_no, b16::encode(x, n, p)) X(104, ptr_yes, ptr_no, b64::decode(x, n, p, e)) X(105, ptr_yes, ptr_no, b64::decode_size(x, n))
// pointers to output
X(110, optr_yes, optr_no, mp::hash::digest<sha>(c, n, x)) X(111, optr_yes, optr_no, mp::hash::digest<sha>(c, n, x, n)) X(112, optr_yes, optr_no, H.digest(x, n)) X(113, optr_yes, optr_no, h.digest(x)) X(114, optr_yes, optr_no, mp::mac::digest<hmac>(c, n, c, n, x)) X(115, optr_yes, optr_no, o.digest(x, n)) X(116, optr_yes, optr_no, mp::kdf::derive<hkdf>(c, n, c, n, c, n, x, n)) X(117, optr_yes, optr_no, P.derive(x, n)) X(118, optr_yes, optr_no, pb.derive(x, n)) X(119, optr_yes, optr_no, mp::cipher::encrypt<chacha>(c, n, c, n, c, n, x)) X(120, optr_yes, optr_no, ci.decrypt(c, n, x)) X(121, optr_yes, optr_no, mp::aead::encrypt<aead>(c, n, c, n, c, n, c, n, x, p)) X(122, optr_yes, optr_no, mp::aead::encrypt<aead>(c, n, c, n, c, n, c, n, p, x)) X(123, optr_yes, optr_no, mp::aead::decrypt<aead>(c, n, c, n, c, n, c, n, c, n, x, e)) X(124, optr_yes, optr_no, ae.digest(x, n)) X(125, optr_yes, optr_no, mp::codec::encode<b16>(c, n, x)) X(126, optr_yes, optr_no, mp::codec::decode<b64>(c, n, x, e)) X(127, optr_yes, optr_no, b64::encode(c, n, x))
// the place of the error
X(130, list<E>, err_no, mp::aead::decrypt<aead>(v, v, v, v, v, s, x)) X(131, list<E>, err_no, A.verify(v, x)) X(132, list<E>, err_no, mp::codec::decode<b16>(v, s, x)) X(133, list<E>, err_no, mp::codec::decode<b64>(c, n, p, x)) X(134, list<E>, err_no, b64::decode(c, n, p, x)) X(135, list<E>, err_no, A.verify(c, n, x))
#undef X
