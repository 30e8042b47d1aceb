TECH = "Quint specification (spec/*.qnt) as the oracle: recorded histories of the real crate are trace-validated step by step against the specification's transition relation with Quint's evaluator; the sharing model is model-checked exhaustively with TLC and specification-generated histories are replayed on the crate"
NOTE = "Every event of every generated history is decided by the specification; the histories are a bounded, seeded sample biased to boundaries, so agreement outside them is not proved."
HOOKS = {"guard": "rmath_verif", "enable": "RUSTFLAGS='--cfg rmath_verif'", "source_commits": ["fbd3d80ed533012ccd0ddc27f999d1b1c0f15272"]}
NOTES = "node check.js --replay <file> re-runs a recorded violation. Seeds come from VERIF_SEED."

prop("N01", "Nat +, -, *, /, % are exact natural-number arithmetic",
 "For all naturals a, b (any number of 32-bit limbs) and any u32 k: a+b, a*b are the exact sum and product; a-b is |a-b| and sub_with_sign also reports whether a>=b; a/b and a%b are the floor quotient and remainder (a = (a/b)*b + a%b, 0 <= a%b < b), for the out-of-place operators, the op-assign forms and the forms with a u32 right operand alike. The only panic is division or remainder by zero.",
 ["inputs", "histories"], "all pairs of naturals and all operator forms, in any sequence over shared handles",
 "carry and borrow propagation, quotient-digit correction and trimming depend on limb patterns of which tests sample a handful",
 [NAT, "src/bigint/nat_macro.rs", "src/bigint/nat_generic.rs", "src/bigint/nat_amd64.rs", "src/bigint/arith_generic.rs", "src/bigint/arith_amd64.rs"],
 [("add/sub/mul/div inner", "nat.rs add_inner, sub_inner, mul_inner, div_inner"), ("limb primitives", "arith_*.rs add_vv, sub_vv, mul_add_vww"), ("operator macros", "nat_macro.rs")],
 "limbs of the result through AsRef<[u32]>")
prop("N02", "Nat bitwise operators, shifts and bit queries follow the binary value",
 "For all naturals a, b and shift amounts k: a&b, a|b, a^b, and_not(a,b)=a&!b are bitwise on the binary expansions padded with zeros; !a complements exactly the bits_len(a) low bits; a<<k = a*2^k and a>>k = floor(a/2^k) for every k including multiples of 32 and k beyond the length; bits_len is the binary length (1 for 0); is_set_bit(i) is Some(bit) below bits_len and None from there on; trailling_zeros is the number of low zero bits of a non-zero number. Op-assign forms agree.",
 ["inputs", "histories"], "all pairs of naturals, all shift amounts and bit positions",
 "operands of different limb length, word-multiple shifts and bits spilling into new limbs are corner cases the tests do not enumerate",
 [NAT, "src/bigint/nat_generic.rs", "src/bigint/nat_avx2.rs", "src/bigint/nat_macro.rs"],
 [("bitwise", "nat.rs and_inner/or_inner/xor_inner/and_not"), ("shifts", "nat.rs Shl/Shr, nat_avx2.rs")], "limbs of the result; returned counts")
prop("N03", "A Nat has one canonical representation; equality and order are numeric",
 "Every Nat produced by any public operation has no leading zero limb (0 is the single limb 0, NaN is the empty vector), so ==, !=, <, <=, >, >=, partial_cmp between Nats and against u8..u128/usize agree with the numeric order of the values, however the two values were computed. Comparisons with NaN are all false except !=.",
 ["inputs", "histories"], "all values reached by any history of operations",
 "a single operation that forgets to trim poisons comparisons made much later in the history",
 [NAT, "src/bigint/nat_macro.rs"], [("trim_head_zero_", "nat.rs"), ("PartialOrd/PartialEq", "nat.rs, nat_macro.rs")], "limb count and value of every handle after every call; comparison results")
prop("N04", "Karatsuba, schoolbook and squaring routes give the same exact product",
 "For all naturals a, b of any sizes (balanced, very unbalanced, sizes straddling the algorithm thresholds, runs of zero or all-one limbs), a*b, mul_karatsuba(a,b) and, for a=b, sqr(a) all equal the exact integer product.",
 ["inputs"], "all pairs of operand sizes and limb patterns", "the routes switch at size thresholds and recurse with carries and sign fix-ups; tests check few sizes",
 [NAT, "src/bigint/arith_amd64.rs", "src/bigint/arith_generic.rs"], [("karatsuba", "nat.rs karatsuba, mul_karatsuba, karatsuba_add/sub"), ("sqr", "nat.rs sqr, basic_sqr")], "limbs of the product")
prop("N05", "Nat pow, pow_mod and exp are exact (modular) exponentiation",
 "For all naturals x, e and modulus n: pow(x,e)=x^e with x^0=1; pow_mod(x,e,n) and exp(x,e,n) equal x^e mod n for n>0 (0 when n=1), for odd and even moduli, single- and multi-limb exponents (including powers of two), bases larger than the modulus; for n=0 both give plain x^e.",
 ["inputs"], "all bases, exponents and moduli", "Montgomery, windowed and plain routes are chosen by parity and length of the operands",
 [NAT], [("exp", "nat.rs exp, exp_nn_windowed, exp_nn_mont"), ("montgomery", "nat.rs montgomery"), ("pow", "nat.rs pow, pow_mod")], "limbs of the result")
prop("N06", "sqrt is the floor of the square root",
 "For every natural n, r=sqrt(n) satisfies r*r <= n < (r+1)*(r+1), including perfect squares, their neighbours and powers of two.",
 ["inputs"], "all naturals", "Newton iteration termination and start value matter only near particular values",
 [NAT], [("sqrt", "nat.rs sqrt")], "limbs of the result")
prop("N07", "Nat conversions from and to integers, limbs and bytes preserve the value",
 "From<u8..u128,usize>, From<Vec/slice of u32 limbs>, from_le_bytes, from_be_bytes and From byte slices/vecs build exactly the encoded value for any length and any leading or trailing zero bytes; to_le_bytes, to_be_bytes, copy_to_le, copy_to_be yield the shortest byte string of the value (one zero byte for 0), so decode(encode(x)) = x in both byte orders.",
 ["inputs"], "all values, all byte string lengths", "length mod 4, padding zeros and sign-looking top bytes multiply beyond what tests sample",
 [NAT], [("conversions", "nat.rs From impls, from_le_bytes, from_be_bytes, to_le_bytes, to_be_bytes")], "limbs; returned bytes")
prop("N08", "Nat parsing and formatting are inverse and exact in every radix",
 "Formatting gives the canonical numeral of the value in decimal, binary, octal, lower/upper hex (prefix 0b/0o/0x only with #, Debug = lower hex) with no leading zeros and no lost inner zeros; from_str accepts decimal without leading zeros and 0b/0B, 0o, 0x/0X prefixed numerals (digits of either case), optional surrounding blanks and leading '+', yields exactly that value, and rejects anything with an invalid digit or sign; hence parse(format(x)) = x.",
 ["inputs"], "all values and all strings", "inner zero groups, digit-block boundaries and malformed strings cannot be enumerated by examples",
 [NAT, "src/bigint/nat_err.rs"], [("FromStr", "nat.rs from_str"), ("fmt", "nat.rs Display/Binary/Octal/LowerHex/UpperHex/Debug")], "formatted text; parsed limbs or Err")
prop("N09", "Nat clones share, results are private: aliasing never corrupts a value",
 "Handles obtained by clone show the same number and an op-assign through one is seen through all of them; deep_clone and the result of every out-of-place operation are private: no later op-assign on another handle changes them and op-assign on them changes no operand; every operator gives the right value when its operands share storage (x op x, x op= x.clone()), and no operation modifies an operand other than the op-assign destination.",
 ["histories"], "all interleavings of clone, deep_clone, out-of-place and op-assign calls over any handles", "the defects need a specific history of sharing followed by an in-place update",
 [NAT, "src/bigint/nat_macro.rs"], [("Rc sharing", "nat.rs struct Nat (Rc<Vec<u32>>), as_mut_vec, deep_clone"), ("op-assign macros", "nat_macro.rs")], "all handles after every call")
prop("N10", "NaN propagates through Nat operations; only a zero divisor panics",
 "If any operand of a Nat arithmetic, bitwise, shift, power, root or random operation is NaN the result is NaN (text NaN, no bytes); apart from division/remainder by zero no operation on Nats panics, overflows or fails to terminate.",
 ["inputs", "histories"], "all operations with NaN in any operand position, all edge operands", "every operator has its own NaN path, per operand position and form",
 [NAT, "src/bigint/nat_macro.rs"], [("is_nan guards", "nat.rs, nat_macro.rs")], "status and limbs of the result")
prop("N11", "random() is in range and covers it; primality and generate_prime are right",
 "x.random(rng) lies in [0,x) for every x>0 and every sequence the source produces (including error draws), and every value below a small x is produced; probably_prime_test(n) accepts every prime whatever the source draws and, with at least 20 rounds on a fair source, rejects every composite (Carmichael numbers, strong and Lucas pseudoprimes, squares, products of large primes); generate_prime(bits) returns a prime of exactly that bit length and an error below 2 bits.",
 ["inputs", "schedules"], "all bounds, all candidates, all random sources", "depends on rejection sampling and on rare bases or pseudoprimes",
 [NAT], [("random", "nat.rs random"), ("prime tests", "nat.rs probably_prime_test, prime_validate_by_miller_rabin, prime_validate_by_lucas"), ("generate_prime", "nat.rs")], "returned number / verdict under a scripted source")

BI = "src/bigint/bigint.rs"
BM = "src/bigint/bigint_macro.rs"
prop("B01", "BigInt +, -, *, sign and order are exact signed-integer arithmetic",
 "For all integers a, b: a+b, a-b, a*b, -a, abs, sqr (out-of-place and op-assign) are exact with the right sign; zero is never negative; is_negative/is_positive/is_natural/signnum, ==, !=, <, <=, >, >=, partial_cmp and == u32 agree with the numeric value; From<u8..u128,i8..i128,usize,isize> (including MIN), limb vectors and Nat give that value; NaN propagates and compares false.",
 ["inputs", "histories"], "all pairs of integers, all operator forms, any history", "sign logic has a case per sign combination and per magnitude order, and depends on Nat borrow paths",
 [BI, BM], [("add_inner/sub_inner/mul_inner", BI), ("From", BM), ("PartialOrd", BI)], "magnitude limbs and signnum of every handle")
prop("B02", "BigInt division: truncated / and %, Euclidean div_euclid and rem_euclid",
 "For all integers a and non-zero n: a/n truncates toward zero, a%n has the sign of a, a = (a/n)*n + a%n; rem_euclid is in [0,|n|) and a = div_euclid*n + rem_euclid; a zero quotient or remainder is the ordinary non-negative 0; the assign forms agree; n=0 panics.",
 ["inputs"], "all dividends and divisors of both signs, exact and inexact", "four sign combinations times exact/off-by-one quotients",
 [BI], [("div_inner, rem_inner", BI), ("rem_euclid_inner, div_euclid_inner", BI)], "magnitude limbs and signnum of the result")
prop("B03", "BigInt bitwise operators and shifts are infinite two's complement",
 "For all integers a, b and k: &, |, ^, and_not, ! act on the infinite two's complement expansions of both signs; a<<k = a*2^k; a>>k = floor(a/2^k) (arithmetic shift); is_set_bit(i) is the two's complement bit below bits_len (the length of |a|) and None from there on; op-assign forms agree; NaN gives NaN.",
 ["inputs"], "all pairs of integers of both signs, all shifts", "negative operands are handled by identities on x-1 with different lengths; tests use few operands",
 [BI], [("bitand_inner, bitor_inner, bitxor_inner, and_not_assign", BI), ("shr_inner, shl_inner", BI), ("is_set_bit", BI)], "magnitude limbs and signnum of the result")
prop("B04", "gcd, mod_inverse and linear congruences satisfy their defining equations",
 "For all integers a, b: gcd returns (d,x,y) with d = gcd(|a|,|b|) >= 0 and a*x + b*y = d (zeros and negative arguments included); if gcd(a,n)=1, |n|>1, mod_inverse(a,n) is the unique x in [0,|n|) with a*x = 1 mod n; solve_mod_linear_equation(a,b,n) returns exactly the gcd(a,n) distinct solutions in [0,|n|) of a*x = b mod n, or None iff there is none.",
 ["inputs"], "all integers of both signs", "sign fix-ups and coefficient ranges matter only for particular sign/size combinations",
 [BI], [("gcd, gcd_extend", BI), ("mod_inverse", BI), ("solve_mod_linear_equation", BI)], "returned numbers")
prop("B05", "BigInt exp, Jacobi symbol, modular and integer square roots are right",
 "exp(x,b,n) = x^b mod |n| in [0,|n|) for b>=0, and (x^-1)^|b| mod |n| for b<0 when x is invertible; n=0 gives x^b for b>0 and 1 for b<=0; jacobi(a,b) is the Jacobi symbol for odd b (with the sign rule for negative b) and None for b=0; for an odd prime p mod_sqrt(x,p) is a y in [0,p) with y^2 = x mod p and None iff x is a non-residue; sqrt is the floor root, NaN for negatives.",
 ["inputs"], "all integers; all odd primes of every residue class mod 8", "three mod_sqrt algorithms and several sign paths each see few test inputs",
 [BI, NAT], [("exp", BI), ("jacobi", BI), ("mod_sqrt*", BI), ("sqrt", BI)], "returned numbers")
prop("B06", "mul_range, binomial, sqr and signed random() are exact and in range",
 "mul_range(a,b) is the exact product of all integers in [a,b] (1 if empty, 0 if it contains 0, right sign for negative ranges, all i64 bounds); binomial(n,k) is C(n,k) for n,k>=0 (0 for k>n); sqr is x*x; random is in [0,x) for x>0, (x,0] for x<0 and NaN for 0, for every source.",
 ["inputs", "schedules"], "all i64 ranges, all n,k, all random sources", "overflow and sign at the i64 limits and recursion splitting",
 [BI, NAT], [("mul_range, binomial, random", BI), ("Nat::mul_range", NAT)], "magnitude limbs and signnum of the result")
prop("B07", "BigInt text and byte encodings are exact and inverse",
 "Formatting is '-' for negatives followed by the canonical numeral of |x| in the requested radix (prefix only with #), never '-0'; from_str accepts an optional '-' and a Nat numeral, yields exactly that integer ('-0' is 0) and rejects malformed text; to/from little- and big-endian bytes encode |x| in the shortest form.",
 ["inputs"], "all integers and all strings", "sign/radix/prefix/zero combinations",
 [BI, BM, NAT], [("FromStr", BI), ("bigint_fmt_impl", BM), ("bytes", BI)], "text, bytes, parsed value or Err")
prop("B08", "BigInt clones share the magnitude only; results are private; aliasing is safe",
 "clone shares the magnitude and copies the sign: an op-assign through one handle changes the magnitude all sharing handles show; deep_clone and every out-of-place result are private; operators and op-assign give the right value in their destination when both operands share storage, also with opposite signs (set_negative/set_natural act on one handle only); no operand that is not the destination (or shares with it) changes.",
 ["histories"], "all interleavings of clone, deep_clone, sign changes, out-of-place and op-assign calls", "needs specific sharing histories before the in-place update",
 [BI, BM, NAT], [("op-assign inner functions", BI), ("deep_clone", BI)], "magnitude limbs and signnum of every handle after every call")

RA = "src/bigint/rat.rs"
prop("R01", "Rat is the exact field of rationals, in lowest terms, with a total order",
 "For all rationals: +, -, *, / (out-of-place and op-assign), neg, abs, inv are exact; every result is in lowest terms with positive denominator and 0 is 0/1; comparison operators and partial_cmp are the order of the values; signnum/is_integer agree with the value; from_frac (all isize pairs), from_frac_bigint and From<integers, Nat, BigInt> build that value, a zero denominator is an error, inv of zero an error, division by zero panics; NaN propagates and compares false; no operation on one Rat changes another, clones included.",
 ["inputs", "histories"], "all fractions of any size and sign, any history of clone/deep_clone/operators", "normalisation, cross-multiplication, sign and zero paths combine with Nat/BigInt sharing",
 [RA, BI], [("norm", RA), ("add_inner/sub_inner/mul_inner/div_inner/cmp_inner", RA), ("from_frac, from_frac_bigint, inv", RA)], "numerator and denominator limbs and signs of every handle")
prop("R02", "Rat to f32/f64 rounds correctly with a truthful exact flag; from floats is exact",
 "to_f32/to_f64 return the IEEE value nearest to the rational, ties to even, including denormals, underflow to signed zero and overflow to infinity; the bool is true iff the float equals the rational; From<f32>/From<f64> of any finite float is exactly its value and of infinities/NaN is NaN.",
 ["inputs"], "all rationals and all float bit patterns", "rounding boundaries, denormals and 2^53 thresholds are a vanishing fraction of inputs",
 [RA, "src/bigint/util.rs"], [("quo_to_f32, quo_to_f64", RA), ("from_f64", RA), ("ldexp", "src/bigint/util.rs")], "float bits and flag; numerator and denominator")
prop("R03", "Rat text: a/b formatting and parsing are exact and canonical",
 "Formatting prints numerator/denominator in lowest terms in the requested radix (prefixes only with #); from_str reads 'a', 'a/b' (each part a BigInt numeral, any radix prefix) as exactly that fraction in lowest terms and reads a decimal with a point/exponent as its exact value or the nearest f64; malformed text, NaN and zero denominators are errors; parse(format(x)) = x.",
 ["inputs"], "all rationals and all strings", "sign and reduction combinations and malformed strings",
 [RA, BI, BM], [("FromStr", RA), ("impl_rat_fmt_inner", RA)], "text; numerator and denominator or Err")

FL = "src/bigint/float.rs"
FF = "src/bigint/float_fmt.rs"
DE = "src/bigint/decimal.rs"
prop("F01", "Float +, -, *, / are correctly rounded with a truthful accuracy",
 "For all finite Floats x, y (any sign, exponent, precision 1 and up, any of the six rounding modes): x+y, x-y, x*y, x/y (out-of-place and op-assign, also with aliased operands) equal the exact real result rounded once to x's precision (y's if x has none) in x's rounding mode; the reported accuracy is Exact, Below or Above exactly as the result is equal to, less than or greater than the real result; the operands are not changed.",
 ["inputs", "histories"], "all pairs of finite Floats, precisions and rounding modes", "ties, sticky bits, cancellation and carries into a new binade depend on the mantissa bits around the rounding position for each precision and mode",
 [FL, "src/bigint/float_macro.rs", "src/bigint/float_para.rs", NAT], [("uadd/usub/umul/udiv", FL), ("round", FL), ("add_inner, sub_inner, mul_inner, div_inner", FL)], "form, sign, mantissa, exponent, precision, mode and accuracy of every handle", hook=True)
prop("F02", "Float zeros, infinities and NaN follow IEEE rules; comparison is the real order",
 "With zeros, infinities or NaN as operands the four operators follow IEEE 754: signs of zero and infinite results, Inf-Inf, 0*Inf, 0/0, Inf/Inf are NaN, x/0 is signed infinity, x+-0 is x rounded to the precision; neg/abs change only the sign; ==, !=, <, <=, >, >= and partial_cmp are the order of the extended reals with -0 = +0 and NaN unordered; is_nan/is_infinite/is_finite/is_negative/signnum agree with the value.",
 ["inputs"], "all pairs of special and ordinary values, all modes", "each operator has a branch per pair of forms",
 [FL], [("special cases of add/sub/mul/div_inner", FL), ("cmp_inner, ucmp", FL), ("neg, abs", FL)], "form, sign and accuracy; comparison results", hook=True)
prop("F03", "Float conversions are exact from other types and correctly rounded back",
 "From<integers, f32, f64, Nat, BigInt> is exactly the value (f32/f64 specials and signed zeros preserved) with enough precision to hold it; From<Rat> is the correctly rounded quotient; to_f32/to_f64 are the IEEE value nearest to x (ties to even, denormals, underflow, overflow) and to_u64/to_i64 truncate and saturate, each with a truthful accuracy; is_integer and the minimum precision agree with the value.",
 ["inputs"], "all numbers of each source type; all Floats for the targets", "rounding boundaries, denormals, saturation and type limits are a vanishing fraction of inputs",
 [FL, "src/bigint/float_macro.rs", RA], [("From impls", FL), ("to_f32, to_f64, to_u64, to_i64", FL), ("is_integer, min precision", FL)], "form, sign, mantissa, exponent, precision; returned bits and accuracy", hook=True)
prop("F04", "Float text: decimal and exponent formatting round correctly; from_str is exact",
 "{:.Ne} prints the decimal of n+1 significant digits nearest to x (ties to even), Display/Debug print get_precision() fractional digits likewise, with the right sign, zero padding and at least two exponent digits, Inf and NaN included; from_str reads decimal, exponent and radix-prefixed numerals as the value rounded to its precision and rejects malformed text.",
 ["inputs"], "all Floats, all digit counts, all strings", "decimal ties, digit carries (9.99 -> 10), leading zeros and exponents interact",
 [FF, DE, FL], [("decimal conversion and rounding", DE), ("fmt", FF), ("FromStr", FL)], "text; parsed Float or Err", hook=True)
prop("F05", "set_precision, set_mode, mant_exp and set_mant_exp preserve or round the value",
 "set_precision(p) rounds x once to p bits in its mode (exact when it grows) with a truthful accuracy; set_mode changes no value; mant_exp gives a mantissa in [0.5,1) and exponent with x = mant*2^exp and set_mant_exp inverts it; results whose exponent leaves the representable range become infinity or zero with the right accuracy; deep_clone is private: no later operation on one handle changes another.",
 ["inputs", "histories"], "all Floats, precisions, modes, exponents; all histories over deep clones", "exponent-range limits and rounding to the next binade are rare",
 [FL], [("set_precision, set_mode, round", FL), ("mant_exp, set_mant_exp, set_exp_and_round", FL), ("deep_clone", FL)], "form, sign, mantissa, exponent, precision, mode and accuracy of every handle", hook=True)

LC = "src/rand/linear_congruential_rand.rs"
MT = "src/rand/mersenne_twister_rand.rs"
LFR = "src/rand/lagged_fibonacci_rand.rs"
RM = "src/rand/mod.rs"
prop("G01", "LinearCongruentialRand yields exactly x' = (a*x + c) mod m",
 "For every u32/u64/usize a, c, m > 0 and every seed (also >= m), the draws are x1, x2, ... with x0 = seed and x_{i+1} = (a*x_i + c) mod m computed over the integers (no intermediate wrap), through gen and through the iterator alike; minstd_rand0 and minstd_rand use (16807,0,2^31-1) and (48271,0,2^31-1).",
 ["inputs", "histories"], "all parameters, seeds and draw counts", "a*x+c exceeds the word only for large parameters, and the reduction path differs there",
 [LC], [("next / LinearCongruentialRand::gen", LC), ("minstd_rand0!, minstd_rand!", LC)], "every number drawn")
prop("G02", "MersenneTwisterRand is the reference Mersenne twister for all its parameters",
 "For every valid parameter set (w,n,m,r,a,u,d,s,b,t,c,l,f) with 1 <= m < n and non-zero shifts and masks, every word type and seed, the stream is that of the reference algorithm (C++ mersenne_twister_engine): initialisation x_i = f*(x_{i-1} xor (x_{i-1} >> (w-2))) + i mod 2^w from seed mod 2^w, twist, tempering; it stays so over any number of state regenerations; mt19937 and mt19937_64 are the standard ones.",
 ["inputs", "histories"], "all parameters, seeds and stream positions", "the state is rebuilt every n draws and wraps around the array ends; tempering masks hide wrong shifts for some parameters",
 [MT], [("check_init, gen", MT), ("mt19937!, mt19937_64!", MT)], "every number drawn")
prop("G03", "LaggedFibonacciRand is the subtract-with-carry generator for all its parameters",
 "For every word size 0 < w <= bits, lags 0 < s < r and seed, the state is filled from the linear congruential generator (40014,0,2147483563) started at the seed, ceil(w/32) draws per word, and the draws are x_i = (x_{i-s} - x_{i-r} - carry) mod 2^w with carry 1 exactly after a borrow, initially 1 exactly if the last state word is 0; ranlux24_base is (24,10,24), ranlux48_base (48,5,12).",
 ["inputs", "histories"], "all parameters, seeds and stream positions", "borrow, carry and index wrap-around combine over long histories; full-width words overflow",
 [LFR], [("check_init, gen", LFR), ("ranlux24_base!, ranlux48_base!", LFR)], "every number drawn")
prop("G04", "Generators validate parameters, are deterministic, and reset equals a fresh one",
 "Constructors accept exactly the documented parameter ranges and otherwise return an error (m=0 for the linear congruential; 0<w<=bits, 0<s<r for lagged Fibonacci; 0<m<=n, shifts below w, masks below 2^w for Mersenne); a failing seed makes construction and reset fail and leaves an existing generator unchanged; equal parameters and seed give equal streams; reset(seed) at any point continues exactly as a fresh generator with that seed; a clone continues the stream independently of the original; bits_len and mask(k) = 2^k-1 are right for every k up to the word size.",
 ["inputs", "histories"], "all interleavings of construction, draws, clone, reset and failing seeds", "stale state after reset or a half-applied failed reset shows only in particular histories",
 [LC, MT, LFR, RM], [("new, reset", LC), ("new, reset, check_init", MT), ("new, reset, check_init", LFR), ("PrimitiveType", RM)], "construction result; next number of every generator after every call")
prop("G05", "Iter ends at an error until it is cleared; hardware sources fill the whole word",
 "Over any source, Iter::next yields the source's numbers in order, returns None at the first error, keeps returning None without drawing and reports last_error until clear_error, after which it continues with the next draw; no draw is skipped or repeated. DefaultRand, DefaultSeed and CryptoRand produce numbers in which every bit of the word type varies.",
 ["schedules", "histories"], "all interleavings of draws, errors and iterator calls", "the latch matters only when a source fails in the middle of a stream",
 ["src/rand/iter.rs", "src/rand/default_rand_amd64.rs", "src/rand/default_seed_amd64.rs", "src/rand/crypto_rand_amd64.rs"], [("Iter", "src/rand/iter.rs"), ("gen_u32, gen_u64, gen_usize", "src/rand/default_rand_amd64.rs")], "items, last_error and the words drawn")

prop("E01", "A refused input is refused with the error kind that names its cause",
 "Whenever a parser or constructor refuses its input, the returned error's kind() is its cause. Nat and BigInt from_str: BeginWithIllegalChar if (after blanks, '+' and one '-' for BigInt) nothing is left, the first character is no decimal digit, or a leading 0 is followed by something other than o, b, B, x, X; IllegalCharEncounter if a later character is no digit of the radix. Nat::generate_prime: InvalidParameters exactly for fewer than 2 bits. Rat: DenominatorIsZero for from_frac, from_frac_bigint and 'a/0' with well-formed parts, NumeratorIsZero for inv of 0 (however that 0 was computed), ParseStringWrong for every other text it refuses. Float::from_str: ExponentOverflow / ExponentUnderflow for a well-formed decimal whose written exponent is above max_exp / below min_exp, ParseStringWrong for malformed text. Inputs that are not refused give no error, and rendering an error never panics.",
 ["inputs", "histories"], "all strings; all pairs of numerator and denominator; all histories that compute a zero", "a text usually has several defects and numbers of any size: which one is reported depends on the order of the checks, of which tests sample no failing one",
 [NAT, BI, RA, FF, "src/parse_err.rs", "src/bigint/rat_err.rs", "src/bigint/float_err.rs", "src/bigint/nat_err.rs"], [("get_radix and from_*_str", NAT), ("from_frac, from_frac_bigint, inv, FromStr", RA), ("FromStr", FF)], "kind() of the returned error")
